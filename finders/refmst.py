"""Independent reference implementation of the atproto repo tree: builds the canonical tree of a
mapping from keys to CIDs, and reads trees back from blocks. Used as an oracle only."""
import hashlib
import dag_cbor
from multiformats import CID, multihash


def cid_of(data):
    return CID('base58btc', 1, 'dag-cbor', multihash.digest(data, 'sha2-256'))


def depth(key):
    """pairs of leading zero bits of the key's SHA-256"""
    n = int.from_bytes(hashlib.sha256(key.encode()).digest(), 'big')
    return (256 - n.bit_length()) // 2


def build(mapping):
    """-> (root CID, {CID: bytes}) of the canonical tree"""
    blocks = {}

    def node(items, layer):
        entries, left, run = [], None, []
        prev = ''

        def sub():
            return node(run, layer - 1) if run else None
        for k, v in items:
            if depth(k) == layer:
                s = sub()
                if entries:
                    entries[-1]['t'] = s
                else:
                    left = s
                n = 0
                while n < min(len(prev), len(k)) and prev[n] == k[n]:
                    n += 1
                entries.append({'p': n, 'k': k[n:].encode(), 'v': v, 't': None})
                prev, run = k, []
            else:
                run.append((k, v))
        s = sub()
        if entries:
            entries[-1]['t'] = s
        else:
            left = s
        data = dag_cbor.encode({'l': left, 'e': entries})
        c = cid_of(data)
        blocks[c] = data
        return c
    items = sorted(mapping.items(), key=lambda kv: kv[0].encode())
    root = node(items, max((depth(k) for k in mapping), default=0))
    return root, blocks


def read(root, get):
    """-> list of (key, value) of the tree whose blocks get(cid) -> bytes gives; raises KeyError"""
    out = []

    def rec(c):
        data = get(c)
        if data is None:
            raise KeyError(c)
        d = dag_cbor.decode(data)
        if d['l'] is not None:
            rec(d['l'])
        prev = ''
        for e in d['e']:
            k = prev[:e['p']] + e['k'].decode()
            prev = k
            out.append((k, e['v']))
            if e['t'] is not None:
                rec(e['t'])
    rec(root)
    return out


def nodes(root, get):
    """CIDs of every node"""
    out = []

    def rec(c):
        out.append(c)
        d = dag_cbor.decode(get(c))
        for x in [d['l']] + [e['t'] for e in d['e']]:
            if x is not None:
                rec(x)
    rec(root)
    return out


def path(root, key, get):
    """CIDs of the nodes from the root towards key (the search path)"""
    out, c = [], root
    while c is not None:
        out.append(c)
        d = dag_cbor.decode(get(c))
        nxt, prev, stop = d['l'], '', False
        for e in d['e']:
            k = prev[:e['p']] + e['k'].decode()
            prev = k
            if k == key:
                return out, True
            if k > key:
                break
            nxt = e['t']
        c = nxt
    return out, False


_bydepth = {}


def key_of_depth(rng, d, coll='com.example.rec'):
    """a key with exactly this depth (searched once and cached)"""
    pool = _bydepth.setdefault(coll, {})
    while len(pool.get(d, [])) < (12 if d < 3 else 3):
        k = f'{coll}/{rng.randrange(36**6):x}'
        pool.setdefault(depth(k), []).append(k)
    return rng.choice(pool[d])
