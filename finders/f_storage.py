"""Bounded cross-check of repos and storage (C07-C10, C16, C18, C26): random histories of commits,
events and status changes on the in-memory storage, with failures injected, against a model that
keeps plain dictionaries and a reference tree."""
import copy, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import Finder, Fail
import refmst
import dag_cbor
from arroba import mst, server, storage as st, util
from arroba.repo import Repo, Write
from arroba.storage import Action, MemoryStorage, Block, CommitData

KEYS = [util.new_key(seed=k) for k in (11, 12, 13)]
NSID = 'com.atproto.sync.subscribeRepos'
REC = {'$type': 'com.example.thing'}


class Boom(Exception):
    pass


class Store(MemoryStorage):
    """fails on demand"""
    boom = None
    loading = None

    def write_blocks(self, blocks):
        if self.boom == 'before':
            raise Boom('before')
        super().write_blocks(blocks)

    def load_repo(self, x):
        if self.boom == 'load':
            raise Boom('load')
        return super().load_repo(x)

    def has(self, cid):
        if self.boom == 'has':
            raise Boom('has')
        return super().has(cid)


class World:
    def __init__(self):
        self.s = Store()
        self.repos = {}        # did -> live Repo
        self.stale = {}        # did -> older Repo object
        self.model = {}        # did -> {path: cid}
        self.status = {}
        self.seq = 0
        self.blocks = {}       # cid -> (encoded, seq, ops)
        self.events = []       # (seq, kind, did, detail)
        self.calls = []
        self.heads = {}

    def callback(self, data=None, lost_seq=None):
        self.calls.append((data, lost_seq))
        if self.s.boom == 'callback' and data is not None:
            raise Boom('callback')

    def snap_blocks(self):
        return {c: (b.encoded, b.seq, list(b.ops) if b.ops else b.ops)
                for c, b in self.s.blocks.items()}

    def check_blocks(self, what):
        now = self.snap_blocks()
        for c, v in self.blocks.items():
            if c not in now:
                raise Fail(f'{what}: block {c} disappeared')
            if now[c] != v:
                raise Fail(f'{what}: stored block {c} changed from seq {v[1]} to {now[c][1]}')
        for c, v in now.items():
            if refmst.cid_of(v[0]) != c:
                raise Fail(f'{what}: block filed under {c} has other bytes')
        new = {c: v for c, v in now.items() if c not in self.blocks}
        self.blocks = now
        return new


def contents(repo):
    return {leaf.key: leaf.value for leaf in repo.mst.leaves()}


def rec(c, k):
    return {**REC, 'n': k}


ACTS = {'c': Action.CREATE, 'u': Action.UPDATE, 'd': Action.DELETE}
COLLS = ['com.example.thing', 'app.x.y']


def gen_hist(rng, n, scale):
    if n >= 120 * scale:
        return None
    ops = []
    for _ in range(rng.randrange(1, 14)):
        kind = rng.choice(['commit'] * 9 + ['status', 'status', 'event', 'boom', 'boom', 'boom',
                                            'create', 'bad', 'stale'])
        ws = [[rng.choice('cccudd'), rng.randrange(2), rng.randrange(8), rng.randrange(4)]
              for _ in range(rng.choice([0, 1, 1, 1, 2, 3, 6]))]
        ops.append([kind, rng.randrange(2), ws, rng.randrange(20), rng.random() < .3])
    return {'ops': ops, 'start': rng.randrange(1, 3)}


def mkrepo(w, i):
    did = f'did:plc:repo{i}'
    if did in w.repos:
        return None
    seq0, n0 = w.seq, len(w.calls)
    repo = Repo.create(w.s, did, signing_key=KEYS[i], rotation_key=KEYS[2], handle=f'h{i}.com',
                       callback=w.callback)
    w.repos[did] = repo
    w.model[did], w.status[did] = {}, None
    # one commit and three events, numbered consecutively
    w.seq += 4
    w.check_blocks('create')
    if w.s.sequences.last(NSID) != w.seq:
        raise Fail(f'creating a repo took numbers {seq0 + 1} to {w.s.sequences.last(NSID)}')
    check_commit(w, did, repo, repo.head, {}, [], seq0 + 1, None)
    w.events.append((seq0 + 1, 'commit', did, repo.head.cid))
    for k, t in enumerate(['identity', 'account', 'sync']):
        w.events.append((seq0 + 2 + k, t, did, None))
    return did


def check_commit(w, did, repo, head, want, ops, seq, prev):
    d = dag_cbor.decode(head.encoded)
    root, blocks = refmst.build(want)
    if set(d) != {'did', 'version', 'rev', 'prev', 'data', 'sig'}:
        raise Fail(f'commit fields {sorted(d)}')
    if d['did'] != did or d['version'] != 3 or d['prev'] != prev:
        raise Fail(f'commit {d}, expected did {did} and prev {prev}')
    if util.tid_to_int(d['rev']) != seq or head.seq != seq:
        raise Fail(f'commit {seq} has rev for {util.tid_to_int(d["rev"])} and seq {head.seq}')
    if d['data'] != root:
        raise Fail("the commit's data isn't the root of the tree of its records")
    i = int(did[-1])
    if not util.verify_sig(d, KEYS[i].public_key()):
        raise Fail('commit signature')
    if contents(repo) != want:
        raise Fail(f'contents {contents(repo)}, expected {want}')
    got = dict(refmst.read(root, lambda c: w.s.read(c) and w.s.read(c).encoded))
    if got != want:
        raise Fail('stored tree differs')
    if refmst.cid_of(head.encoded) != head.cid or w.s.read(head.cid) is None:
        raise Fail('commit block not stored')


def run_hist(c):
    w = World()
    old = server.server._validate
    try:
        for i in range(c['start']):
            mkrepo(w, i)
        for op in c['ops']:
            step(w, op)
            check_all(w)
    finally:
        server.server._validate = old


def check_all(w):
    for did, repo in w.repos.items():
        for r in (w.s.load_repo(did), w.s.load_repo(f'h{did[-1]}.com')):
            if r is None or r.did != did:
                raise Fail(f'{did} is not loaded')
            if contents(r) != w.model[did]:
                raise Fail(f'loaded {did} has {contents(r)}, expected {w.model[did]}')
            if r.status != w.status[did]:
                raise Fail(f'{did} status {r.status}, expected {w.status[did]}')
            if r.head.decoded['data'] != r.mst.get_pointer():
                raise Fail('head and tree disagree')
    if w.s.sequences.last(NSID) != w.seq:
        raise Fail(f'last sequence number {w.s.sequences.last(NSID)}, expected {w.seq}')


def step(w, op):
    kind, ri, ws, k, flag = op
    did = sorted(w.repos)[ri % len(w.repos)]
    repo = w.repos[did]
    before = w.snap_blocks()
    n0 = len(w.calls)
    if kind == 'create':
        mkrepo(w, len(w.repos))if len(w.repos) < 2 else None
        return
    if kind == 'status':
        f, new, t = [(w.s.deactivate_repo, 'deactivated', 'account'),
                     (w.s.activate_repo, None, 'account'),
                     (w.s.tombstone_repo, 'tombstoned', 'tombstone')][min(k % 7, 6) % 3 if k % 7 < 5
                                                                      else k % 2]
        skip = f == w.s.activate_repo and w.status[did] == 'tombstoned'
        f(repo)
        new_b = w.check_blocks('status')
        if skip:
            if new_b or len(w.calls) != n0:
                raise Fail('activating a tombstoned repo did something')
            return
        w.status[did] = new
        w.seq += 1
        check_event(w, new_b, w.calls[n0:], t, did)
        b = next(iter(new_b.values()))
        d = dag_cbor.decode(b[0])
        if t == 'account' and d.get('active') != (new is None):
            raise Fail(f'status event {d}')
        if new == 'deactivated' and d.get('status') != 'deactivated':
            raise Fail(f'status event {d}')
        return
    if kind == 'event':
        t = ['identity', 'account', 'sync', 'tombstone'][k % 4]
        w.s.write_event(repo, t, extra=k)
        w.seq += 1
        check_event(w, w.check_blocks('event'), w.calls[n0:], t, did)
        return
    if kind == 'stale':
        # an older Repo object for the same DID
        o = Repo(storage=w.s, mst=repo.mst, head=repo.head, handle=repo.handle,
                 signing_key=repo.signing_key, rotation_key=repo.rotation_key,
                 callback=w.callback, status=None)
        w.stale[did] = o
        return
    use = w.stale.get(did, repo) if flag else repo
    writes, want, ops = [], dict(w.model[did]), []
    error = None
    for a, ci, key, v in ws:
        path = f'{COLLS[ci]}/k{key}'
        r = rec(ci, v)
        writes.append(Write(action=ACTS[a], collection=COLLS[ci], rkey=f'k{key}',
                            record=None if a == 'd' else r))
        cid = refmst.cid_of(dag_cbor.encode(r))
        if error:
            continue
        if (a == 'c') == (path in want):
            error = 'exists' if a == 'c' else 'absent'
        elif a == 'c':
            ops.append((Action.CREATE, path, cid, None))
            want[path] = cid
        elif a == 'u':
            if want[path] != cid:
                ops.append((Action.UPDATE, path, cid, want[path]))
            want[path] = cid
        else:
            ops.append((Action.DELETE, path, None, want[path]))
            del want[path]
    if kind == 'bad':
        what = ['size', 'count', 'key', 'none', 'maxsize', 'maxcount', 'type'][k % 7]
        if what == 'size' or what == 'maxsize':
            lim = 1_000_000 + (1 if what == 'size' else 0)
            r = {**REC, 'x': ''}
            r['x'] = 'a' * (lim - len(dag_cbor.encode(r)) - 4)
            while len(dag_cbor.encode(r)) < lim:
                r['x'] += 'a'
            writes = writes[:1] + [Write(Action.CREATE, 'com.example.big', f'b{len(w.calls)}', r)]
            if error or len(ws) > 1:
                return
            if what == 'maxsize':
                p = f'com.example.big/b{len(w.calls)}'
                want[p] = refmst.cid_of(dag_cbor.encode(r))
                ops.append((Action.CREATE, p, want[p], None))
            else:
                error = 'size'
        elif what in ('count', 'maxcount'):
            n = 201 if what == 'count' else 200
            writes, want, ops, error = [], dict(w.model[did]), [], None
            for i in range(n):
                r = {**REC, 'i': i}
                p = f'com.example.many/m{len(w.calls)}-{i}'
                writes.append(Write(Action.CREATE, 'com.example.many', p.split('/')[1], r))
                want[p] = refmst.cid_of(dag_cbor.encode(r))
                ops.append((Action.CREATE, p, want[p], None))
            if n == 201:
                error = 'count'
        elif what == 'key':
            writes.append(Write(Action.CREATE, 'com.example.thing', ['', 'a b', 'a/b', 'é',
                                                                     'x' * 300][k % 5], rec(0, 1)))
            error = 'key'
        elif what == 'none':
            writes.append(Write(Action.CREATE, 'com.example.thing', 'nn', None))
            error = 'none'
        else:
            writes.append(Write(Action.CREATE, 'app.bsky.feed.post', 'pp',
                                {'$type': 'app.bsky.feed.post', 'text': 5}))
            error = 'type'
    w.s.boom = ['before', 'callback', 'load', 'before', 'has'][k % 5] if kind == 'boom' else None
    inactive = use.status or w.status[did]
    arg = writes[0] if len(writes) == 1 and k % 2 else writes
    writes0 = list(writes)
    contents0 = contents(use)
    head0, stored0 = use.head, w.s.repos[did].head
    prev = w.s.repos[did].head.cid
    exc = res = None
    calls = len(w.calls)
    boom = w.s.boom
    try:
        res = w.s.commit(use, arg)
    except Exception as e:
        exc = e
    finally:
        w.s.boom = None
    w.seq += 1
    if list(writes) != writes0:
        raise Fail("the caller's list of writes was changed")
    new = {c: v for c, v in w.snap_blocks().items() if c not in before}
    w.check_blocks('commit')
    got_calls = w.calls[calls:]
    if inactive or error or boom:
        if exc is None:
            if inactive or error or boom != 'has':
                raise Fail(f'commit succeeded although {inactive or error or boom}')
        else:
            if inactive and not isinstance(exc, util.InactiveRepo) and boom != 'load':
                raise Fail(f'commit to a {inactive} repo raised {exc!r}')
            if isinstance(exc, util.InactiveRepo) and not inactive:
                raise Fail(f'active repo, but {exc!r}')
            lost = [s for d, s in got_calls if s is not None]
            data = [d for d, s in got_calls if d is not None]
            if lost != [w.seq]:
                raise Fail(f'sequence number {w.seq} lost, callback told {lost}')
            if boom == 'callback' and not inactive and not error:
                # the commit itself was applied
                w.model[did] = want
                w.heads[did] = None
                return
            if data:
                raise Fail('callback got data for a failed commit')
            if new:
                raise Fail(f'failed commit ({error or boom or inactive}) added {len(new)} blocks')
            if w.s.repos[did].head is not stored0 or use.head is not head0:
                raise Fail('failed commit changed the head')
            if contents(use) != contents0:
                raise Fail('failed commit changed the contents read through the repo')
            return
    if exc is not None:
        raise Fail(f'commit refused: {exc!r}')
    w.model[did] = want
    check_commit(w, did, w.s.load_repo(did), res.commit, want, ops, w.seq, prev)
    if use.head.cid != res.commit.cid or w.s.load_repo(did).head.cid != res.commit.cid:
        raise Fail('head is not the new commit')
    if contents(use) != want:
        raise Fail('the repo passed in has other contents')
    got_ops = [(o.action, o.path, o.cid, o.prev_cid) for o in res.commit.ops]
    if got_ops != ops:
        raise Fail(f'operations {got_ops}, expected {ops}')
    if res.prev != prev:
        raise Fail('CommitData.prev')
    root, tree = refmst.build(want)
    need = {res.commit.cid} | {o[2] for o in ops if o[2]}
    need |= {c for c in tree if c not in before}
    missing = need - set(res.blocks)
    if missing:
        raise Fail(f'commit lacks {len(missing)} blocks')
    for c, b in res.blocks.items():
        if refmst.cid_of(b.encoded) != c or b.cid != c:
            raise Fail('commit block under another CID')
        if w.s.read(c) is None:
            raise Fail('commit block not in storage')
        if b.seq != w.seq:
            raise Fail(f'block of commit {w.seq} has number {b.seq}')
    for c, v in new.items():
        if v[1] != w.seq:
            raise Fail(f'stored block of commit {w.seq} has number {v[1]}')
    if got_calls != [(res, None)]:
        raise Fail(f'callback calls {got_calls}')
    w.events.append((w.seq, 'commit', did, res.commit.cid))


def check_event(w, new, calls, t, did):
    if len(new) != 1:
        raise Fail(f'{len(new)} blocks written for an event')
    (c, (enc, seq, ops)), = new.items()
    d = dag_cbor.decode(enc)
    if d['$type'] != f'{NSID}#{t}' or d['seq'] != w.seq or seq != w.seq or d['did'] != did:
        raise Fail(f'event {d} with number {seq}, expected {t} {w.seq}')
    if [x[0] for x in calls] != [d] or calls[0][1] is not None:
        raise Fail(f'callback got {calls}')
    w.events.append((w.seq, t, did, None))


# C16 ------------------------------------------------------------------------------
def run_events(c):
    w = World()
    for i in range(c['start']):
        mkrepo(w, i)
    for op in c['ops']:
        try:
            step(w, op)
        except Fail:
            return           # another property
    if c['import']:
        # blocks of an imported repo: sequence number 0
        for k in range(c['import']):
            b = Block(decoded={'imported': k}, seq=0, repo='did:plc:imp')
            w.s.blocks[b.cid] = b
        imp = util.sign({'did': 'did:plc:imp', 'version': 3, 'rev': util.int_to_tid(0, clock_id=0),
                         'prev': None, 'data': refmst.build({})[0]}, KEYS[0])
        b = Block(decoded=imp, seq=0, repo='did:plc:imp', ops=[])
        w.s.blocks[b.cid] = b
    stored = {}
    for cid, b in w.s.blocks.items():
        stored.setdefault(b.seq, {})[cid] = b
    for start in sorted({0, 1, 2, w.seq, w.seq + 1, max(0, w.seq - 3), c['at'] % (w.seq + 2)}):
        for repo in (None, *w.repos):
            got = []
            for e in w.s.read_events_by_seq(start=start, repo=repo):
                if isinstance(e, CommitData):
                    got.append((e.commit.seq, 'commit', e.commit.decoded['did'], e.commit.cid))
                    check_event_blocks(w, e, stored[e.commit.seq], repo)
                else:
                    got.append((e['seq'], e['$type'].split('#')[1], e['did'], None))
            want = [x for x in evs(w, stored) if x[0] >= max(start, 1) and
                    (not repo or x[2] == repo)]
            if got != want:
                raise Fail(f'events from {start} for {repo}: {brief(got)}, expected {brief(want)}')
    blocks = list(w.s.read_blocks_by_seq(start=0))
    if [b.seq for b in blocks] != sorted(b.seq for b in w.s.blocks.values()) or \
            len({b.cid for b in blocks}) != len(w.s.blocks):
        raise Fail('read_blocks_by_seq')


def evs(w, stored):
    """the stored events, from the blocks themselves"""
    out = []
    for seq in sorted(stored):
        if seq == 0:
            continue
        for cid, b in stored[seq].items():
            d = dag_cbor.decode(b.encoded)
            if str(d.get('$type', '')).startswith(NSID + '#'):
                out.append((seq, d['$type'].split('#')[1], d['did'], None))
            elif set(d) == {'did', 'version', 'rev', 'prev', 'data', 'sig'}:
                out.append((seq, 'commit', d['did'], cid))
    return out


def brief(x):
    return [(s, k, d[-1]) for s, k, d, _ in x]


def check_event_blocks(w, e, here, repo):
    if e.prev != e.commit.decoded.get('prev'):
        raise Fail('prev')
    need = set(here) | {op.cid for op in e.commit.ops if op.cid}
    need.add(e.commit.decoded['data'])
    if not need <= set(e.blocks):
        raise Fail(f'commit {e.commit.seq} lacks {len(need - set(e.blocks))} blocks')
    if set(e.blocks) - need:
        raise Fail(f'commit {e.commit.seq} has extra blocks')
    for c, b in e.blocks.items():
        if b is None or b.cid != c or refmst.cid_of(b.encoded) != c:
            raise Fail(f'commit {e.commit.seq}: block {c} is {b}')


def gen_events(rng, n, scale):
    c = gen_hist(rng, n, scale)
    if c:
        c['import'] = rng.choice([0, 0, 2])
        c['at'] = rng.randrange(50)
    return c


# C10 ------------------------------------------------------------------------------
def gen_seq(rng, n, scale):
    if n >= 300 * scale:
        return None
    return {'calls': [[rng.randrange(3), rng.random() < .4] for _ in range(rng.randrange(30))]}


def run_seq(c):
    s = st.MemorySequences()
    model = {}
    for i, q in c['calls']:
        ns = f'stream{i}'
        if q:
            if s.last(ns) != model.get(ns):
                raise Fail(f'last({ns}) is {s.last(ns)}, expected {model.get(ns)}')
        else:
            got = s.allocate(ns)
            model[ns] = model.get(ns, 0) + 1
            if got != model[ns]:
                raise Fail(f'allocated {got}, expected {model[ns]}')


# C26 ------------------------------------------------------------------------------
def gen_blocks(rng, n, scale):
    if n >= 300 * scale:
        return None
    return {'ops': [[rng.choice(['write', 'write', 'blocks', 'read', 'many', 'raw', 'has']),
                     rng.randrange(6), rng.randrange(6), rng.choice([None, 5, 9, 0])]
                    for _ in range(rng.randrange(1, 20))]}


def run_blocks(c):
    s = MemoryStorage()
    model = {}
    obj = lambda i: {'n': i, 'z': ['x', {'y': i}]}
    cid = lambda i: refmst.cid_of(dag_cbor.encode(obj(i)))
    for kind, i, j, seq in c['ops']:
        if kind == 'write':
            n = s.sequences.last(NSID)
            b = s.write('did:x', obj(i), seq=seq)
            want = seq if seq is not None else (n or 0) + 1
            if b.cid != cid(i) or b.encoded != dag_cbor.encode(obj(i)) or b.seq != want:
                raise Fail(f'write returned {b.cid} {b.seq}')
            model.setdefault(cid(i), (want, 'did:x', None))
        elif kind == 'blocks':
            bs = [Block(decoded=obj(x), seq=seq or 3, ops=[7], repo='did:y') for x in {i, j}]
            s.write_blocks(bs)
            for b in bs:
                model.setdefault(b.cid, (seq or 3, 'did:y', [7]))
        elif kind == 'read':
            b = s.read(cid(i))
            if (b is None) != (cid(i) not in model):
                raise Fail(f'read of {"stored" if b is None else "absent"} block')
        elif kind == 'many':
            want = [cid(i), cid(j)]
            got = s.read_many(want)
            if set(got) != set(want):
                raise Fail('read_many keys')
            for k, b in got.items():
                if b is not s.read(k):
                    raise Fail('read_many differs from read')
        elif kind == 'raw':
            want = [x for x in {cid(i), cid(j)} if x in model]
            got = s.read_many_raw([bytes(x) for x in want])
            if got != {bytes(x): (s.read(x).encoded, s.read(x).seq) for x in want}:
                raise Fail('read_many_raw differs from read')
        elif kind == 'has':
            if s.has(cid(i)) != (cid(i) in model):
                raise Fail('has')
        for k, (sq, rp, ops) in model.items():
            b = s.read(k)
            if b is None or b.seq != sq or b.repo != rp or b.ops != ops or \
                    refmst.cid_of(b.encoded) != k:
                raise Fail(f'stored block changed: seq {b and b.seq}, was {sq}')


H = ('history', gen_hist, run_hist)
CHECKS = {'C07': [H], 'C08': [H], 'C09': [H], 'C18': [H],
          'C10': [('sequences', gen_seq, run_seq), H],
          'C16': [('events', gen_events, run_events)],
          'C26': [('blocks', gen_blocks, run_blocks), H]}
if __name__ == '__main__':
    Finder(CHECKS, rule='random histories of up to 14 commits, events, status changes and injected '
           'failures on two repos of one in-memory storage, compared after every step with '
           'dictionaries and a reference tree').main()
