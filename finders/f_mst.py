"""Bounded cross-check of the repo tree (C01-C06): random histories of adds, updates and deletes
with keys of chosen depths, persisted and reloaded at random points, against a plain dictionary
and an independent reference tree."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import Finder, Fail
import refmst
import dag_cbor
from types import SimpleNamespace
from zlib import crc32
from arroba import mst, storage as st
from arroba.diff import Diff
from arroba.mst import MST, Leaf
from arroba.storage import MemoryStorage, Block

BAD = ['', '/', 'a', 'a/', '/b', 'a/b/c', 'a//b', 'a b/c', 'a/b c', 'a/é', 'é/a', 'a/' + 'b' * 255,
       'x' * 300 + '/y', 'a/b\n', 'a\n/b', 'a/b#c', 'a@b/c', '/a/b', 'a/b/', 'a/+', 'a/b\u0661']
GOOD = ['a/b', 'A-Z_:.9/x', 'a/' + 'b' * 254, '.:/..', '-/_', 'com.example/self']


def val(n):
    return refmst.cid_of(dag_cbor.encode({'n': n}))


def pool(rng, n, near):
    """keys of different depths, some of them close to each other"""
    ks = []
    while len(ks) < n:
        d = rng.choice([0, 0, 0, 0, 1, 1, 2, 2, 3, 4])
        k = refmst.key_of_depth(rng, d, rng.choice(['com.example.rec', 'com.example.record', 'a']))
        if near and ks and rng.random() < .4:
            b = rng.choice(ks)
            k = b + rng.choice('0az:-_') if len(b) < 200 else k
        if k not in ks:
            ks.append(k)
    return ks


def gen_hist(count, maxops=40, maxpool=14):
    def gen(rng, n, scale):
        if n >= count * scale:
            return None
        big = rng.random() < .15
        ks = pool(rng, rng.randint(1, maxpool * (3 if big else 1)), rng.random() < .5)
        ops, have = [], set()
        for _ in range(rng.randint(1, maxops * (3 if big else 1))):
            r = rng.random()
            k = rng.choice(ks)
            if rng.random() < .85:      # mostly something that works
                kind = 'add' if k not in have else rng.choice(['update', 'delete', 'delete'])
            else:
                kind = rng.choice(['add', 'update', 'delete'])
            if kind == 'add':
                have.add(k)
            elif kind == 'delete':
                have.discard(k)
            ops.append([kind, k, rng.randrange(6), rng.choice(['', '', '', 'save', 'load',
                                                              'fresh'])])
        if rng.random() < .3:
            for k in sorted(have, key=lambda _: rng.random()):
                ops.append(['delete', k, 0, ''])
            for k in rng.sample(ks, min(len(ks), 3)):
                ops.append(['add', k, 1, ''])
        return {'keys': ks, 'ops': ops}
    return gen


def persist(t, s):
    root, blocks = t.get_unstored_blocks()
    s.write_blocks(list(blocks.values()))
    return root


def storage():
    s = MemoryStorage()
    return s


def save(t, s):
    root, blocks = t.get_unstored_blocks()
    for b in blocks.values():
        if b.seq is None:
            b.seq = 1
        s.write_blocks([b])
    return root


def step(t, s, op, model):
    """one operation on the real tree and on the model -> tree"""
    kind, k, v, then = op
    if kind == 'add':
        if k in model:
            try:
                t.add(k, val(v))
            except ValueError:
                return t
            raise Fail(f'adding {k} twice was accepted')
        t = t.add(k, val(v))
        model[k] = val(v)
    elif kind == 'update':
        if k not in model:
            try:
                t.update(k, val(v))
            except KeyError:
                return t
            raise Fail(f'updating absent {k} was accepted')
        t = t.update(k, val(v))
        model[k] = val(v)
    else:
        if k not in model:
            try:
                t.delete(k)
            except KeyError:
                return t
            raise Fail(f'deleting absent {k} was accepted')
        t = t.delete(k)
        del model[k]
    if then == 'save':
        save(t, s)
    elif then == 'load':
        t = MST.load(storage=s, cid=save(t, s))
    return t


def order(ks):
    return sorted(ks, key=lambda k: k.encode())


def same(what, t, model, keys):
    for k in keys:
        got = t.get(k)
        if got != model.get(k):
            raise Fail(f'{what}: get({k}) gives {got} instead of {model.get(k)}')
    ls = [(l.key, l.value) for l in t.list()]
    want = [(k, model[k]) for k in order(model)]
    if ls != want:
        raise Fail(f'{what}: list() gives {[k for k, _ in ls]} instead of {[k for k, _ in want]}')


def run_map(case):
    s = storage()
    t, model = MST.create(storage=s), {}
    old = []
    keys = case['keys'] + ['zz/zz', 'a/a']
    for n, op in enumerate(case['ops']):
        old = (old + [(t, dict(model))])[-4:]
        t = step(t, s, op, model)
        same(f'after {op[:2]}', t, model, keys)
        if n % 3 == 0:
            for o, m in old:
                same('an older tree changed', o, m, keys)
    cuts = order(set(case['keys']))[::max(1, len(case['keys']) // 4)] + ['a', 'com.example.rec/3',
                                                                        'zz/zz']
    for a in [None] + cuts:
        for b in [None] + cuts:
            ls = [(l.key, l.value) for l in t.list(after=a, before=b)]
            want = [(k, model[k]) for k in order(model) if (a is None or k > a) and (
                b is None or k < b)]
            if ls != want:
                raise Fail(f'list(after={a}, before={b}) gives {[k for k, _ in ls]} instead of '
                           f'{[k for k, _ in want]}')
    for p in ['com.example.rec', 'com.example.rec/', 'a/', 'a', 'z'] + [
            k[:len(k) - 1] for k in case['keys'][:5]] + case['keys'][:4]:
        ls = [l.key for l in t.list_with_prefix(p)]
        want = [k for k in order(model) if k.startswith(p)]
        if ls != want:
            raise Fail(f'list_with_prefix({p}) gives {ls} instead of {want}')
    lv = [(l.key, l.value) for l in t.leaves()]
    if lv != [(k, model[k]) for k in order(model)] or t.leaf_count() != len(model):
        raise Fail('leaves() is not the sorted contents')


def gen_key(rng, n, scale):
    if n < len(BAD):
        return {'key': BAD[n], 'ok': False}
    n -= len(BAD)
    return {'key': GOOD[n], 'ok': True} if n < len(GOOD) else None


def run_key(case):
    t = MST.create(storage=storage()).add('com.example/x', val(0))
    k = case['key']
    try:
        t2 = t.add(k, val(1))
    except ValueError:
        if case['ok']:
            raise Fail(f'valid key {k!r} refused by add')
        try:
            t.update(k, val(1))
        except ValueError:
            pass
        except KeyError:
            raise Fail(f'update does not refuse invalid key {k!r}')
        else:
            raise Fail(f'update accepts invalid key {k!r}')
        try:
            mst.serialize_node_data([Leaf(k, val(1))])
        except ValueError:
            return
        raise Fail(f'a node with invalid key {k!r} was encoded')
    if not case['ok']:
        raise Fail(f'invalid key {k!r} accepted by add')
    if t2.get(k) != val(1):
        raise Fail('key lost')


def run_root(case):
    s = storage()
    t, model = MST.create(storage=s), {}
    for op in case['ops']:
        t = step(t, s, op, model)
        want, _ = refmst.build(model)
        if op[3] == 'fresh':        # another history with the same contents
            t2 = MST.create(storage=s)
            ks = sorted(model, key=lambda k: crc32(f"{k} {len(model)}".encode()))
            for k in ks:
                t2 = t2.add(k, val(7))
            for k in reversed(ks):
                t2 = t2.update(k, model[k])
            if t2.get_pointer() != want:
                raise Fail('a tree built in another order has another root')
        got = t.get_pointer()
        if got != want:
            raise Fail(f'after {op[:2]} the root is {got}, not {want} as {len(model)} keys '
                       'dictate')
    for k in case['keys']:
        if mst.leading_zeros_on_hash(k) != refmst.depth(k):
            raise Fail(f'depth of {k}')


def gen_depth(rng, n, scale):
    if n >= 5 * scale:
        return None
    return {'from': rng.randrange(10**9), 'n': 4000}


def run_depth(case):
    for i in range(case['from'], case['from'] + case['n']):
        k = f'c/{i}'
        if mst.leading_zeros_on_hash(k) != refmst.depth(k):
            raise Fail(f'depth of {k} is {mst.leading_zeros_on_hash(k)}, not {refmst.depth(k)}')
        if mst.leading_zeros_on_hash(k.encode()) != refmst.depth(k):
            raise Fail(f'depth of the bytes of {k}')


def gen_node(rng, n, scale):
    if n >= 150 * scale:
        return None
    ks = set()
    base = rng.choice(['com.example.rec/', 'a/', 'com.example.record/3jui7kd2z2'])
    for _ in range(rng.randint(0, 12)):
        b = rng.choice(sorted(ks)) if ks and rng.random() < .5 else base
        b = b[:rng.randint(b.index('/') + 1, len(b))]
        ks.add(b + ''.join(rng.choice('abc27:_.-Z') for _ in range(rng.randint(1, 6))))
    ks = sorted(ks)
    return {'left': rng.random() < .5 and bool(ks), 'node': [[k, rng.randrange(99),
                                                             rng.random() < .4] for k in ks]}


def run_node(case):
    ents, want = [], {'l': None, 'e': []}
    s = storage()

    def sub(n):
        return MST(storage=s, pointer=val(1000 + n))
    if case['left']:
        ents.append(sub(0))
        want['l'] = val(1000)
    prev = ''
    for i, (k, v, t) in enumerate(case['node']):
        ents.append(Leaf(k, val(v)))
        n = 0
        while n < min(len(prev), len(k)) and prev[n] == k[n]:
            n += 1
        e = {'p': n, 'k': k[n:].encode(), 'v': val(v), 't': None}
        prev = k
        if t:
            ents.append(sub(i + 1))
            e['t'] = val(1001 + i)
        want['e'].append(e)
    data = mst.serialize_node_data(list(ents))
    got = {'l': data.l, 'e': [dict(e) for e in data.e]}
    if got != want:
        raise Fail(f'encoded as {got} instead of {want}')
    b = Block(decoded=data._asdict())
    d = Block(encoded=b.encoded).decoded
    back = mst.deserialize_node_data(storage=s, data=mst.Data(**d), layer=2)
    shape = lambda es: [(e.key, e.value) if isinstance(e, Leaf) else e.get_pointer() for e in es]
    if shape(back) != shape(ents):
        raise Fail('decoding gives another node')
    for e in back:
        if isinstance(e, MST) and e.storage is not s:
            raise Fail('child without storage')
    if mst.cid_for_entries(list(ents)) != refmst.cid_of(dag_cbor.encode(want)):
        raise Fail('CID of the node')
    for i, e in enumerate(ents):
        if isinstance(e, MST):
            bad = ents[:i] + [sub(5000)] + ents[i:]
            try:
                mst.serialize_node_data(bad)
            except ValueError:
                continue
            raise Fail(f'two neighbouring child links at {i} accepted')


def run_store(case):
    s = storage()
    t, model = MST.create(storage=s), {}
    for n, op in enumerate(case['ops']):
        t = step(t, s, op, model)
        if not (op[3] or n % 4 == 0 or n == len(case['ops']) - 1):
            continue
        want, blocks = refmst.build(model)
        before = set(s.blocks)
        root, new = t.get_unstored_blocks()
        if root != want:
            raise Fail(f'reported root {root} is not the root {want}')
        for c, b in new.items():
            if refmst.cid_of(b.encoded) != c or b.cid != c:
                raise Fail(f'block filed under {c} has other bytes')
        missing = [c for c in blocks if c not in new and c not in before]
        if missing:
            raise Fail(f'{len(missing)} of {len(blocks)} nodes neither reported nor stored')
        extra = [c for c in new if c not in blocks]
        if extra:
            raise Fail('a reported block is no node of the tree')
        for b in new.values():
            b.seq = 1
            s.write_blocks([b])
        t2 = MST.load(storage=s, cid=root)
        same('loaded tree', t2, model, case['keys'])
        if op[3] == 'fresh':
            t = t2


def gen_diff(rng, n, scale):
    if n >= 120 * scale:
        return None
    g = gen_hist(10**9, 25)
    a = g(rng, 0, 1)
    ops2 = []
    for _ in range(rng.choice([0, 1, 2, 3, 10, 30])):
        ops2.append([rng.choice(['add', 'update', 'delete']), rng.choice(a['keys']),
                     rng.randrange(6), ''])
    return {'keys': a['keys'], 'ops': a['ops'], 'more': ops2, 'modes': [
        rng.choice(['same', 'load', 'other']) for _ in range(2)], 'swap': rng.random() < .3,
        'split': rng.random() < .3}


def run_diff(case):
    s = storage()
    t, model = MST.create(storage=s), {}
    for op in case['ops']:
        t = step(t, s, op, model)
    t2, m2 = t, dict(model)
    if case['split']:           # unrelated trees
        t2, m2 = MST.create(storage=s), {}
    for op in case['more']:
        t2 = step(t2, s, op, m2)
    ts = []
    for mode, tr, m in ((case['modes'][0], t, model), (case['modes'][1], t2, m2)):
        if mode == 'load':
            tr = MST.load(storage=s, cid=save(tr, s))
        elif mode == 'other':
            s2 = storage()
            tr = MST.create(storage=s2)
            for k in reversed(order(m)):
                tr = tr.add(k, m[k])
        ts.append((tr, m))
    if case['swap']:
        ts.reverse()
    (old, mo), (new, mn) = ts
    d = Diff.of(new, old)
    got = ({k: (c.key, c.cid) for k, c in d.adds.items()},
           {k: (c.key, c.cid, c.prev) for k, c in d.updates.items()},
           {k: (c.key, c.cid) for k, c in d.deletes.items()})
    want = ({k: (k, v) for k, v in mn.items() if k not in mo},
            {k: (k, v, mo[k]) for k, v in mn.items() if k in mo and mo[k] != v},
            {k: (k, v) for k, v in mo.items() if k not in mn})
    for what, g, w in zip(('adds', 'updates', 'deletes'), got, want):
        if g != w:
            raise Fail(f'{what}: {sorted(g)} instead of {sorted(w)}')
    d = Diff.of(new)
    _, blocks = refmst.build(mn)
    if {k: c.cid for k, c in d.adds.items()} != mn or d.updates or d.deletes:
        raise Fail('diff against nothing: adds')
    if set(d.new_cids) != set(blocks) | set(mn.values()) or d.removed_cids:
        raise Fail('diff against nothing: new CIDs')


def gen_proof(rng, n, scale):
    if n >= 100 * scale:
        return None
    c = gen_hist(10**9, 60, 20)(rng, 0, 1)
    paths = rng.sample(c['keys'], min(len(c['keys']), rng.randint(1, 4)))
    return {'keys': c['keys'], 'ops': c['ops'], 'paths': paths + [f'a/{rng.randrange(99)}'] * (
        rng.random() < .3), 'given': rng.random() < .3}


def run_proof(case):
    s = storage()
    t, model = MST.create(storage=s), {}
    for op in case['ops']:
        t = step(t, s, op, model)
    root, blocks = refmst.build(model)
    save(t, s)
    t = MST.load(storage=s, cid=root)
    ops = [st.CommitOp(action=st.Action.UPDATE, path=p, cid=None, prev_cid=None) if hasattr(
        st.CommitOp, '_fields') else None for p in case['paths']]
    given = {} if case['given'] else None
    commit = SimpleNamespace(commit=SimpleNamespace(ops=ops))
    got = t.add_covering_proofs(commit, blocks=given) if case['given'] else \
        t.add_covering_proofs(commit)
    if case['given'] and got is not given:
        raise Fail('the given dict is not used')
    for c, b in got.items():
        if b is None or c not in s.blocks or b.encoded != s.blocks[c].encoded or b.cid != c:
            raise Fail(f'{c} in the proof is not the stored block')
    ks = order(model)
    for p in case['paths']:
        before = [k for k in ks if k < p][-1:]
        after = [k for k in ks if k > p][:1]
        for k, what in [(p, 'path')] + [(k, 'key before') for k in before] + [
                (k, 'key after') for k in after]:
            for c in refmst.path(root, k, blocks.get)[0]:
                if c not in got:
                    raise Fail(f'proof for {p} lacks a node on the way to the {what} ({k})')


CHECKS = {
    'C01': [('keys', gen_key, run_key), ('map', gen_hist(120), run_map)],
    'C02': [('depth', gen_depth, run_depth), ('root', gen_hist(120), run_root)],
    'C03': [('keys', gen_key, run_key), ('node', gen_node, run_node)],
    'C04': [('store', gen_hist(150), run_store)],
    'C05': [('diff', gen_diff, run_diff)],
    'C06': [('proof', gen_proof, run_proof)],
}
if __name__ == '__main__':
    Finder(CHECKS, rule='histories over keys of depth 0-4, close keys, persisted and reloaded at '
           'random points; compared with a dictionary and a reference tree').main()
