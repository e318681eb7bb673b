"""Bounded cross-check of the XRPC methods (C17-C21, C28) on in-memory storage."""
import base64, io, os, sys, itertools
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import Finder, Fail
import f_storage
import refmst
import dag_cbor
from carbox import car as carlib, read_car
from flask import Flask
from lexrpc.base import XrpcError
from types import SimpleNamespace
import json
import webutil.util
from arroba import did as did_mod, server, storage as st, util, xrpc_repo, xrpc_server, xrpc_sync
from arroba.mst import MST
from arroba.repo import Repo, Write
from arroba.storage import Action, Block, MemoryStorage

KEYS = [util.new_key(seed=k) for k in (21, 22, 23)]
NSID = 'com.atproto.sync.subscribeRepos'
app = Flask('verif')
os.environ.setdefault('PLC_HOST', 'plc.local')
os.environ.setdefault('PDS_HOST', 'pds.local')
COLLS = ['com.example.rec', 'com.example.record', 'com.example.rec.x', 'a.b.c', 'com.example']
_n = itertools.count(1)


class Ctx:
    """a request with this authorization header, and this environment"""

    def __init__(self, header=None, token='tok', password='pw'):
        self.header, self.env = header, {'REPO_TOKEN': token, 'REPO_PASSWORD': password}

    def __enter__(self):
        self.old = {k: os.environ.get(k) for k in self.env}
        for k, v in self.env.items():
            os.environ.pop(k, None)
            if v is not None:
                os.environ[k] = v
        h = {} if self.header is None else {'Authorization': self.header}
        self.c = app.test_request_context('/', headers=h)
        self.c.push()

    def __exit__(self, *a):
        self.c.pop()
        for k, v in self.old.items():
            os.environ.pop(k, None)
            if v is not None:
                os.environ[k] = v


ok = lambda: Ctx('Bearer tok')


class Calls(list):
    def __bool__(self):
        return True

    def __call__(self, data=None, lost_seq=None):
        self.append((data, lost_seq))


def snap():
    s = server.storage
    return ({c: (b.encoded, b.seq) for c, b in s.blocks.items()},
            {d: (r.head.cid, r.mst.get_pointer(), r.status, r.handle) for d, r in
             s.repos.items()}, dict(s.sequences.sequences) if hasattr(
                 s.sequences, 'sequences') else s.sequences.last(NSID))


def mk(did, handle, writes=(), key=0):
    r = Repo.create(server.storage, did, handle=handle, signing_key=KEYS[key],
                    rotation_key=KEYS[2], callback=Calls())
    ws = [Write(Action.CREATE, c, k, v) for c, k, v in writes]
    if ws:
        server.storage.commit(r, ws)
    return r


# -- C17
TOKENS = ['tok', None, '', 'Tok-2']
HEADERS = [None, '', 'Bearer tok', 'bearer tok', 'Bearer tok ', ' Bearer tok', 'Bearer  tok',
           'Bearer tok2', 'Bearer to', 'tok', 'Basic tok', 'Bearer', 'Bearer ', 'Bearer None',
           'Bearer Tok-2', 'BEARER tok', 'Bearer tok, Bearer x', 'Bearer TOK', 'DPoP tok',
           'Bearer\ttok']
METHODS = ['create', 'create-existing', 'put', 'put-existing', 'delete', 'delete-absent', 'import',
           'import-junk', 'apply', 'upload', 'get', 'refresh']


def gen_auth(rng, n, scale):
    allc = [(m, t, h) for m in METHODS for t in TOKENS for h in HEADERS]
    if n >= len(allc):
        return None
    m, t, h = allc[(n * 347) % len(allc)]
    return {'method': m, 'token': t, 'header': h}


def car_of(repo):
    return xrpc_sync.get_repo({}, did=repo.did)


def run_auth(case):
    server.storage = MemoryStorage()
    did = 'did:web:a.com'
    r = mk(did, 'a.com', [('a.b.c', 'x', {'$type': 'a.b.c', 'n': 1})])
    server.repo = r
    m = case['method']
    with Ctx():
        data = car_of(r) if m == 'import' else b'junk'
    rec = {'$type': 'a.b.c', 'n': 2}
    base = {'repo': did, 'collection': 'a.b.c'}
    call = {
        'create': lambda: xrpc_repo.create_record({**base, 'record': rec}),
        'create-existing': lambda: xrpc_repo.create_record({**base, 'rkey': 'x', 'record': rec}),
        'put': lambda: xrpc_repo.put_record({**base, 'rkey': 'y', 'record': rec}),
        'put-existing': lambda: xrpc_repo.put_record({**base, 'rkey': 'x', 'record': rec}),
        'delete': lambda: xrpc_repo.delete_record({**base, 'rkey': 'x'}),
        'delete-absent': lambda: xrpc_repo.delete_record({**base, 'rkey': 'q'}),
        'import': lambda: xrpc_repo.import_repo(data),
        'import-junk': lambda: xrpc_repo.import_repo(data),
        'apply': lambda: xrpc_repo.apply_writes({**base, 'writes': []}),
        'upload': lambda: xrpc_repo.upload_blob(b'x'),
        'get': lambda: xrpc_server.get_session({}),
        'refresh': lambda: xrpc_server.refresh_session({}),
    }[m]
    may = bool(case['token']) and case['header'] == f'Bearer {case["token"]}'
    before, ncalls = snap(), len(r.callback)
    exc = res = None
    with Ctx(case['header'], case['token']):
        try:
            res = call()
        except Exception as e:
            exc = e
    if not may:
        if exc is None:
            raise Fail(f'{m} succeeded with token {case["token"]!r} and authorization '
                       f'{case["header"]!r}')
        if snap() != before or len(r.callback) != ncalls:
            raise Fail(f'{m} without authorization changed the storage')
    elif m not in ('import', 'import-junk', 'upload'):
        if exc is not None:
            raise Fail(f'{m} failed though authorized: {exc!r}')
        if m == 'refresh' and res.get('accessJwt') != case['token']:
            raise Fail('refreshed token')
        with Ctx():
            have = r.get_record('a.b.c', 'x')
            if m in ('create-existing', 'put-existing') and have != rec or (
                    m == 'delete' and have is not None):
                raise Fail(f'{m} had no effect')


def gen_session(rng, n, scale):
    allc = [(i, p, c) for i in ('did:web:a.com', 'a.com', 'b.com', 'did:web:x')
            for p in ('pw', '', None, 'PW', 'pw ', 'missing', 'None') for c in ('pw', '', None)]
    return dict(zip(('id', 'given', 'configured'), allc[n])) if n < len(allc) else None


def run_session(case):
    server.storage = MemoryStorage()
    r = mk('did:web:a.com', 'a.com')
    server.repo = r
    inp = {'identifier': case['id'], 'password': case['given']}
    if case['given'] == 'missing':
        del inp['password']
    may = case['id'] in ('did:web:a.com', 'a.com') and bool(
        case['configured']) and inp.get('password') == case['configured']
    with Ctx(None, 'tok', case['configured']):
        try:
            res = xrpc_server.create_session(inp)
        except Exception as e:
            if may:
                raise Fail(f'createSession failed: {e!r}')
            return
    if not may:
        raise Fail(f'createSession({inp}) succeeded, configured password {case["configured"]!r}')
    if res['accessJwt'] != 'tok' or res['did'] != 'did:web:a.com' or res['handle'] != 'a.com':
        raise Fail(f'createSession returned {res}')


# -- C18
STATUSES = [None, 'deactivated', 'tombstoned', 'deleted', 'takendown']


def gen_load(rng, n, scale):
    if n >= 60 * scale:
        return None
    return {'repos': [rng.choice(STATUSES) for _ in range(rng.randrange(4))],
            'changes': [[rng.randrange(4), rng.choice('adt')] for _ in range(rng.randrange(6))]}


def run_load(case):
    server.storage = MemoryStorage()
    repos = []
    for i, s in enumerate(case['repos']):
        repos.append(mk(f'did:plc:x{i}', f'h{i}.com'))
        server.storage._set_repo_status(repos[-1], s)
    want = list(case['repos'])
    s = server.storage
    for i, what in case['changes']:
        if i >= len(repos):
            continue
        n, seq = len(repos[i].callback), s.sequences.last(NSID)
        {'a': s.activate_repo, 'd': s.deactivate_repo, 't': s.tombstone_repo}[what](repos[i])
        noop = what == 'a' and want[i] == 'tombstoned'
        new = repos[i].callback[n:]
        if noop:
            if new or s.sequences.last(NSID) != seq:
                raise Fail('activating a tombstoned repo emits something')
        else:
            want[i] = {'a': None, 'd': 'deactivated', 't': 'tombstoned'}[what]
            if len(new) != 1 or s.sequences.last(NSID) != seq + 1 or new[0][0]['seq'] != seq + 1:
                raise Fail(f'status change emits {new}')
            t = 'tombstone' if what == 't' else 'account'
            if new[0][0]['$type'] != f'{NSID}#{t}' or new[0][0]['did'] != repos[i].did:
                raise Fail(f'status change emits {new}')
    with Ctx():
        for i in range(len(repos) + 1):
            did, h = f'did:plc:x{i}', f'h{i}.com'
            for x in (did, h, f'at://{did}', f'at://{did}/a.b.c/x', f'at://{did}/a.b.c'):
                try:
                    got = server.load_repo(x)
                except XrpcError as e:
                    w = 'RepoNotFound' if i == len(repos) else 'RepoDeactivated' if want[
                        i] else None
                    if e.name != w:
                        raise Fail(f'load_repo({x}) raised {e.name}, expected {w or "the repo"}')
                    continue
                if i == len(repos) or want[i]:
                    raise Fail(f'load_repo({x}) returned a repo that is '
                               f'{want[i] if i < len(repos) else "unknown"}')
                if got.did != did:
                    raise Fail(f'load_repo({x}) returned {got.did}')
            for f, args in ((xrpc_repo.get_record, ('a.b.c', 'x')), (xrpc_sync.get_repo, ()),
                            (xrpc_sync.get_latest_commit, ()), (xrpc_sync.get_head, ()),
                            (xrpc_sync.get_record, ('a.b.c', 'x')), (xrpc_sync.get_blocks, ())):
                if i < len(repos) and not want[i]:
                    continue
                kw = dict(zip(('collection', 'rkey'), args))
                kw['repo' if f is xrpc_repo.get_record else 'did'] = did
                try:
                    f({}, **kw)
                except XrpcError as e:
                    if e.name in ('RepoNotFound', 'RepoDeactivated'):
                        continue
                except Exception as e:
                    raise Fail(f'{f.__name__} of an inactive or unknown repo raised {e!r}')
                raise Fail(f'{f.__name__} served a repo that is inactive or unknown')
            try:
                got = xrpc_sync.get_repo_status({}, did=did)
            except XrpcError as e:
                got = e.name
            exp = 'RepoNotFound' if i == len(repos) else {'did': did, 'active': True} if not want[
                i] else {'did': did, 'active': False, 'status': 'deactivated'}
            if got != exp:
                raise Fail(f'getRepoStatus gives {got}, expected {exp}')


# -- C19
def gen_page(rng, n, scale):
    if n >= 120 * scale:
        return None
    names = set()
    for _ in range(rng.randrange(12)):
        names.add(rng.choice(['did:plc:', 'did:web:', 'did:plc:a']) + ''.join(
            rng.choice('abz.2') for _ in range(rng.randint(1, 4))))
    names = sorted(names, key=lambda _: rng.random())
    return {'repos': [[d, rng.choice(STATUSES + [None, None]), rng.randint(1, 99)] for d in names],
            'limit': rng.choice([1, 1, 2, 3, 5, 12, 500]), 'cursor': rng.choice(
                ['did:plc:', 'did:web:b', 'z', 'did:plc:ab'])}


def run_page(case):
    s = server.storage = MemoryStorage()
    want = {}
    for d, status, seq in case['repos']:
        head = Block(decoded={'did': d, 'rev': 'x', 'n': seq}, seq=seq)
        s.create_repo(Repo(storage=s, mst=MST.create(storage=s), head=head, status=status,
                           signing_key=KEYS[0]))
        e = {'did': d, 'head': head.cid.encode('base32'), 'active': status is None}
        if status:
            e['status'] = {'tombstoned': 'deactivated'}.get(status, status)
        want[d] = e

    def page(cursor):
        with Ctx():
            kw = {} if cursor is None else {'cursor': cursor}
            if case['limit'] != 500:
                kw['limit'] = case['limit']
            r = xrpc_sync.list_repos({}, **kw)
        if len(r['repos']) > case['limit']:
            raise Fail(f'{len(r["repos"])} repos on a page of {case["limit"]}')
        return r
    for start in (None, case['cursor']):
        got, cursor = [], start
        for _ in range(len(want) + 3):
            r = page(cursor)
            got += r['repos']
            cursor = r.get('cursor')
            if cursor is None:
                break
        else:
            raise Fail('the pages do not end')
        exp = [want[d] for d in sorted(want) if start is None or d > start]
        for x in got:
            seq = [q for d, _, q in case['repos'] if d == x['did']]
            if not seq or util.tid_to_int(x.pop('rev')) != seq[0]:
                raise Fail(f'revision of {x}')
        if got != exp:
            raise Fail(f'paging from {start} gives {[x["did"] for x in got]} '
                       f'instead of {[x["did"] for x in exp]}, or other details')


# -- C20
def gen_repo(count, maxops=20):
    def gen(rng, n, scale):
        if n >= count * scale:
            return None
        cs = []
        for _ in range(rng.randint(0, 5)):
            cs.append([[rng.choice('cccud'), rng.randrange(len(COLLS)), rng.randrange(12),
                        rng.randrange(4)] for _ in range(rng.randint(1, maxops))])
        return {'commits': cs, 'limit': rng.choice([1, 2, 3, 5, 50]), 'other': rng.random() < .5}
    return gen


def rec(coll, v):
    r = {'$type': coll, 'n': v}
    if v == 3:
        r['link'] = refmst.cid_of(b'x')
        r['deep'] = {'list': [1, None, 'é', {'b': b'ab'}]}
    return r


def history(r, commits):
    """applies what works -> {path: record}"""
    have = {}
    for ws in commits:
        out, seen = [], set()
        for a, ci, k, v in ws:
            p = f'{COLLS[ci]}/k{k}'
            if p in seen:
                continue
            seen.add(p)
            if a == 'd' and p not in have:
                continue
            act = Action.DELETE if a == 'd' else Action.UPDATE if p in have else Action.CREATE
            record = None if a == 'd' else rec(COLLS[ci] if v else 'x.y.z', v)
            out.append(Write(act, COLLS[ci], f'k{k}', record))
            if a == 'd':
                del have[p]
            else:
                have[p] = record
        if out:
            server.storage.commit(r, out)
    return have


def setup_repo(case):
    server.storage = MemoryStorage()
    r = mk('did:plc:exp', 'exp.com')
    if case['other']:
        mk('did:plc:other', 'other.com', [('a.b.c', f'k{i}', {'$type': 'o', 'o': i}) for i in range(
            5)], key=1)
    have = history(r, case['commits'])
    return r, have


def cids(have):
    return {k: refmst.cid_of(dag_cbor.encode(v)) for k, v in have.items()}


def run_export(case):
    r, have = setup_repo(case)
    for load in (False, True):
        if load:                # a repo whose tree was not loaded yet
            r.mst = MST.load(storage=server.storage, cid=r.mst.get_pointer())
        with Ctx():
            data = xrpc_sync.get_repo({}, did='did:plc:exp')
        data = data if isinstance(data, bytes) else b''.join(data)
        roots, blocks = read_car(data)
        root, nodes = refmst.build(cids(have))
        head = r.head.cid
        if list(roots) != [head]:
            raise Fail(f'roots {roots}')
        if not blocks or blocks[0].cid != head or blocks[0].data != r.head.encoded:
            raise Fail('the first block is not the head commit')
        got = {}
        for b in blocks:
            if refmst.cid_of(b.data) != b.cid:
                raise Fail('a block is not under its own CID')
            got[b.cid] = b.data
        want = {head} | set(nodes) | set(cids(have).values())
        if want - set(got):
            raise Fail(f'{len(want - set(got))} of {len(want)} blocks are missing')
        if set(got) - want:
            raise Fail(f'{len(set(got) - want)} blocks are not part of the repo')
        if dict(refmst.read(dag_cbor.decode(got[head])['data'], got.get)) != cids(have):
            raise Fail('the export has other contents')


# -- C21
BREAK = ['ok', 'ok', 'shuffled', 'noroot', 'wrongroot', 'noblock', 'badsig', 'otherkey', 'nokey',
         'exists', 'nosig', 'tampered', 'plc-other', 'nodid', 'secondroot', 'unauth', 'inactive',
         'exists-shuffled', 'empty-sig', 'resolve-fails']


def gen_import(rng, n, scale):
    if n >= len(BREAK) * 3 * scale:
        return None
    c = gen_repo(10**9, 6)(rng, 0, 1)
    c['break'] = BREAK[n % len(BREAK)]
    return c


def did_doc(did, key, handle):
    d = did_mod.plc_operation_to_did_doc if False else None
    vm = []
    if key is not None:
        vm = [{'id': f'{did}#atproto', 'type': 'Multikey', 'controller': did,
               'publicKeyMultibase': did_mod.encode_did_key(key.public_key()).removeprefix(
                   'did:key:')}]
    return {'id': did, 'alsoKnownAs': [f'at://{handle}'], 'verificationMethod': vm, 'service': []}


class Resp(SimpleNamespace):
    def raise_for_status(self):
        if self.status_code >= 400:
            import requests
            raise requests.HTTPError(str(self.status_code))

    def json(self):
        return json.loads(self.text)


def run_import(case):
    how = case['break']
    did = f'did:plc:imp{os.getpid()}x{next(_n)}'
    server.storage = MemoryStorage()
    src = mk(did, 'imp.com', key=0)
    have = history(src, case['commits'])
    with Ctx():
        data = car_of(src)
    roots, blocks = read_car(data)
    blocks = list(blocks)
    head = blocks[0]
    commit = dag_cbor.decode(head.data)
    want_head = head.cid

    def replace(c):
        nonlocal roots, want_head
        b = dag_cbor.encode(c)
        blocks[0] = carlib.Block(cid=refmst.cid_of(b), data=b)
        roots = [blocks[0].cid]
        want_head = blocks[0].cid
    doc = did_doc(did, KEYS[1] if how == 'otherkey' else None if how == 'nokey' else KEYS[0],
                  'imp.com')
    if how == 'shuffled' or how == 'exists-shuffled':
        blocks = blocks[1:] + blocks[:1]
    elif how == 'noroot':
        roots = []
    elif how == 'wrongroot':
        roots = [refmst.cid_of(b'nothing')]
    elif how == 'secondroot':
        roots = [refmst.cid_of(b'nothing'), head.cid]
    elif how == 'noblock':
        blocks = blocks[1:]
    elif how == 'badsig':
        replace({**commit, 'sig': commit['sig'][:-1] + bytes([commit['sig'][-1] ^ 1])})
    elif how == 'nosig':
        replace({k: v for k, v in commit.items() if k != 'sig'})
    elif how == 'empty-sig':
        replace({**commit, 'sig': b''})
    elif how == 'tampered':
        replace({**commit, 'rev': util.int_to_tid(12345, clock_id=0)})
    elif how == 'nodid':
        replace(util.sign({k: v for k, v in commit.items() if k not in ('sig', 'did')}, KEYS[0]))
    elif how == 'plc-other':
        # signed by this key, but for another DID
        c = {k: v for k, v in commit.items() if k != 'sig'}
        c['did'] = did + 'z'
        replace(util.sign(c, KEYS[0]))
        doc = did_doc(did + 'z', KEYS[1], 'imp.com')
    data = carlib.write_car(roots, blocks)
    s = server.storage = MemoryStorage()
    calls = Calls()
    if how.startswith('exists') or how == 'inactive':
        ex = mk(did, 'imp.com', [('a.b.c', 'kept', {'$type': 'a.b.c'})], key=1)
        if how == 'inactive':
            s.deactivate_repo(ex)
    else:
        mk('did:plc:other', 'other.com', key=1)
    before = snap()
    old = webutil.util.session

    class Session:
        def get(self, url, *a, **kw):
            if how == 'resolve-fails':
                return Resp(status_code=404, text='', ok=False, headers={})
            return Resp(status_code=200, text=json.dumps(doc), content=json.dumps(doc).encode(),
                        headers={'Content-Type': 'application/json'}, ok=True, url=url)
    webutil.util.session = Session()
    exc = None
    try:
        with (Ctx('Bearer nope') if how == 'unauth' else ok()):
            xrpc_repo.import_repo(data)
    except Exception as e:
        exc = e
    finally:
        webutil.util.session = old
    after = snap()
    if how in ('ok', 'shuffled'):
        if exc is not None:
            raise Fail(f'valid import ({how}) refused: {exc!r}')
        if after[2] != before[2]:
            raise Fail('import allocated sequence numbers')
        r = s.load_repo(did)
        if r is None or r.status != 'deactivated' or r.head.cid != want_head:
            raise Fail(f'imported repo is {r and (r.status, r.head.cid)}')
        for k in (r.signing_key, r.rotation_key):
            n = k.private_numbers().private_value
            if n in [x.private_numbers().private_value for x in KEYS]:
                raise Fail('no new key')
        got = {l.key: l.value for l in r.mst.list()}
        if got != cids(have):
            raise Fail(f'imported contents {got}')
        for p, v in have.items():
            if r.get_record(*p.split('/')) != v:
                raise Fail(f'imported record {p}')
        for c, v in before[0].items():
            if after[0].get(c) != v:
                raise Fail('import changed a stored block')
        for d, v in before[1].items():
            if after[1].get(d) != v:
                raise Fail('import changed another repo')
        evs = list(s.read_events_by_seq())
        for e in evs:
            d = e.get('did') if isinstance(e, dict) else e.commit.decoded['did']
            if d == did:
                raise Fail('imported blocks are emitted')
    else:
        if exc is None:
            raise Fail(f'import accepted though {how}')
        if after != before:
            raise Fail(f'refused import ({how}) changed the storage')


# -- C28
def run_reads(case):
    r, have = setup_repo(case)
    did = 'did:plc:exp'

    def js(v):
        if isinstance(v, dict):
            return {k: js(x) for k, x in v.items()}
        if isinstance(v, list):
            return [js(x) for x in v]
        if isinstance(v, bytes):
            return {'$bytes': base64.b64encode(v).decode().rstrip('=')}
        if hasattr(v, 'digest') and not isinstance(v, str):
            return {'$link': v.encode('base32')}
        return v

    def entry(p):
        return {'uri': f'at://{did}/{p}', 'cid': cids(have)[p].encode('base32'),
                'value': js(have[p])}
    for load in (False, True):
        if load:
            r.mst = MST.load(storage=server.storage, cid=r.mst.get_pointer())
        with Ctx():
            for c in COLLS:
                for k in range(13):
                    p = f'{c}/k{k}'
                    try:
                        got = xrpc_repo.get_record({}, repo=did, collection=c, rkey=f'k{k}')
                    except XrpcError as e:
                        if p in have or e.name != 'RecordNotFound':
                            raise Fail(f'getRecord {p} raised {e.name}')
                        if r.get_record(c, f'k{k}') is not None:
                            raise Fail(f'Repo.get_record {p} found something')
                        continue
                    if p not in have:
                        raise Fail(f'getRecord {p} returned {got}')
                    if got != entry(p):
                        raise Fail(f'getRecord {p} returned {got}, expected {entry(p)}')
                    if r.get_record(c, f'k{k}') != have[p]:
                        raise Fail(f'Repo.get_record {p}')
                mine = sorted(p for p in have if p.startswith(c + '/'))
                cursors = [None] + [f'{c}/k{k}' for k in (1, 2, 5)] + [f'{c}/', f'{c}/~']
                for cur in cursors:
                    exp = [p for p in mine if cur is None or p >= cur][:case['limit']]
                    kw = {'limit': case['limit']} if case['limit'] != 50 else {}
                    got = xrpc_repo.list_records({}, repo=did, collection=c, **kw, **(
                        {'cursor': cur} if cur else {}))
                    if got['records'] != [entry(p) for p in exp]:
                        raise Fail(f'listRecords {c} from {cur}, limit {case["limit"]}: '
                                   f'{[x["uri"] for x in got["records"]]}, expected {exp}')
                    wc = exp[-1] if len(exp) == case['limit'] else None
                    if got.get('cursor') != wc:
                        raise Fail(f'listRecords cursor {got.get("cursor")}, expected {wc}')
            got = {f'{c}/{k}': v for c, ks in r.get_contents().items() for k, v in ks.items()}
            if got != have:
                raise Fail('get_contents')
    for x, name in (('did:plc:none', 'RepoNotFound'), ('exp.com', None)):
        with Ctx():
            try:
                got = xrpc_repo.list_records({}, repo=x, collection='a.b.c')
            except XrpcError as e:
                if e.name != name:
                    raise Fail(f'listRecords of {x} raised {e.name}')
                continue
            if name:
                raise Fail(f'listRecords of {x} returned {got}')


CHECKS = {
    'C17': [('auth', gen_auth, run_auth), ('session', gen_session, run_session)],
    'C18': [('load', gen_load, run_load)] + f_storage.CHECKS['C18'],
    'C19': [('page', gen_page, run_page)],
    'C20': [('export', gen_repo(80), run_export)],
    'C21': [('import', gen_import, run_import)],
    'C28': [('reads', gen_repo(24), run_reads)],
}
if __name__ == '__main__':
    Finder(CHECKS, rule='XRPC methods called directly in a request context, on in-memory storage, '
           'with every configuration of token and header, random repos and archives').main()
