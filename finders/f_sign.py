"""Bounded cross-check of signatures (C13), at:// URIs (C25)."""
import base64, copy, json, os, random, string, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import Finder, Fail
from datetime import timedelta
from cryptography.exceptions import InvalidSignature
from cryptography.hazmat.primitives import hashes
from cryptography.hazmat.primitives.asymmetric import ec
from cryptography.hazmat.primitives.asymmetric.utils import (decode_dss_signature,
                                                             encode_dss_signature)
import dag_cbor
from arroba import util

ORDERS = {'secp256k1': 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141,
          'secp256r1': 0xFFFFFFFF00000000FFFFFFFFFFFFFFFFBCE6FAADA7179E84F3B9CAC2FC632551}
CURVES = {'secp256k1': ec.SECP256K1, 'secp256r1': ec.SECP256R1}


def key(case):
    return ec.derive_private_key(case['key'], CURVES[case['curve']]())


def obj_gen(rng, depth=0):
    k = rng.randrange(6 if depth < 2 else 4)
    if k == 0:
        return rng.randrange(-2**40, 2**40)
    if k == 1:
        return ''.join(rng.choice('abcé漢 ') for _ in range(rng.randrange(6)))
    if k == 2:
        return None
    if k == 3:
        return rng.random() < .5
    if k == 4:
        return [obj_gen(rng, depth + 1) for _ in range(rng.randrange(4))]
    return {rng.choice('abcdefgh'): obj_gen(rng, depth + 1) for _ in range(rng.randrange(4))}


def gen(rng, n, scale):
    if n >= 60 * scale:
        return None
    return {'key': rng.randrange(1, 2**250), 'curve': rng.choice(list(CURVES)),
            'obj': {rng.choice(['did', 'rev', 'data', 'x', 'y', 'sig', 'z']): obj_gen(rng)
                    for _ in range(rng.randrange(5))},
            'mode': rng.randrange(9), 'pick': rng.randrange(64)}


def valid(pub, msg, sig):
    if len(sig) != 64:
        return False
    try:
        pub.verify(encode_dss_signature(int.from_bytes(sig[:32], 'big'),
                                        int.from_bytes(sig[32:], 'big')), msg,
                   ec.ECDSA(hashes.SHA256()))
        return True
    except InvalidSignature:
        return False


def run_sign(case):
    k = key(case)
    order = ORDERS[case['curve']]
    orig = copy.deepcopy(case['obj'])
    obj = copy.deepcopy(orig)
    out = util.sign(obj, k)
    sig = out.get('sig')
    if not isinstance(sig, bytes) or len(sig) != 64:
        raise Fail(f'signature is {sig!r}')
    if {x: y for x, y in out.items() if x != 'sig'} != {
            x: y for x, y in orig.items() if x != 'sig'}:
        raise Fail('sign changed another field')
    if int.from_bytes(sig[32:], 'big') > order // 2:
        raise Fail('high S')
    if not valid(k.public_key(), dag_cbor.encode(orig), sig):
        raise Fail("signature isn't valid over the fields")
    # verification against an independent oracle, on good and damaged objects
    o = dict(orig)
    o.pop('sig', None)
    util.sign(o, k)
    o = dict(o)
    pub = k.public_key()
    m = case['mode']
    if m == 1:
        o['sig'] = o['sig'][:63]
    elif m == 2:
        o['sig'] = o['sig'] + b'\0'
    elif m == 3:
        o['extra'] = 1
    elif m == 4:
        f = [x for x in o if x != 'sig']
        if f:
            del o[f[case['pick'] % len(f)]]
    elif m == 5:
        b = bytearray(o['sig'])
        b[case['pick']] ^= 1
        o['sig'] = bytes(b)
    elif m == 6:
        pub = ec.derive_private_key(case['key'] + 1, CURVES[case['curve']]()).public_key()
    elif m == 7:
        o['sig'] = b'\0' * 64
    elif m == 8:
        o['sig'] = b'\0' * 32 + o['sig'] + b'\0' * 32
    before = copy.deepcopy(o)
    want = valid(pub, dag_cbor.encode({x: y for x, y in o.items() if x != 'sig'}), o['sig'])
    got = util.verify_sig(o, pub)
    if got != want:
        raise Fail(f'verify_sig returned {got}, expected {want} (mode {m})')
    if o != before or list(o) != list(before):
        raise Fail('verify_sig modified the object')


def gen_jwt(rng, n, scale):
    if n >= 80 * scale:
        return None
    return {'key': rng.randrange(1, 2**250), 'curve': 'secp256k1', 'host': 'h.com',
            'claims': rng.choice([{}, {'lxm': 'a.b.c'}, {'aud': 'did:plc:x'}, {'iss': 'did:x'}])}


def run_jwt(case):
    k = key(case)
    c = dict(case['claims'])
    tok = util.service_jwt(case['host'], 'did:web:u', k, **c)
    head, payload, s = tok.split('.')
    sig = base64.urlsafe_b64decode(s + '=' * (-len(s) % 4))
    if len(sig) != 64:
        raise Fail(f'token signature is {len(sig)} bytes')
    if int.from_bytes(sig[32:], 'big') > ORDERS['secp256k1'] // 2:
        raise Fail('token signature has high S')
    if not valid(k.public_key(), f'{head}.{payload}'.encode(), sig):
        raise Fail("token signature isn't valid")
    d = json.loads(base64.urlsafe_b64decode(payload + '=' * (-len(payload) % 4)))
    if d['iss'] != c.get('iss', 'did:web:u') or d['aud'] != c.get('aud', 'did:web:h.com'):
        raise Fail(f'wrong claims {d}')


def gen_s(rng, n, scale):
    if n >= 200 * scale:
        return None
    c = rng.choice(list(CURVES))
    o = ORDERS[c]
    s = rng.choice([1, 2, o // 2 - 1, o // 2, o // 2 + 1, o // 2 + 2, o - 2, o - 1,
                    rng.randrange(1, o)])
    return {'curve': c, 'r': rng.randrange(1, o), 's': s}


def run_s(case):
    o = ORDERS[case['curve']]
    r, s = decode_dss_signature(util.apply_low_s_mitigation(
        encode_dss_signature(case['r'], case['s']), CURVES[case['curve']]()))
    if r != case['r'] or s != min(case['s'], o - case['s']):
        raise Fail(f"mitigation of s={case['s']} gave r={r} s={s}")


class FixedKey:
    """a key whose next signature is chosen: short halves are rare with real keys"""
    def __init__(self, case, r, s):
        self.k, self.curve, self.der = key(case), CURVES[case['curve']](), encode_dss_signature(r, s)

    def sign(self, *a, **kw):
        return self.der

    def __getattr__(self, n):
        return getattr(self.k, n)


def gen_short(rng, n, scale):
    if n >= 200 * scale:
        return None
    c = rng.choice(list(CURVES))
    o = ORDERS[c]
    h = lambda: rng.choice([1, 255, 256, 2**rng.randrange(1, 255), o // 2, o // 2 + 1, o - 1,
                            rng.randrange(1, o)])
    return {'curve': c, 'key': 77, 'r': h(), 's': h()}


def run_short(case):
    o = ORDERS[case['curve']]
    sig = util.sign({'a': 1}, FixedKey(case, case['r'], case['s']))['sig']
    s = min(case['s'], o - case['s'])
    if sig != case['r'].to_bytes(32, 'big') + s.to_bytes(32, 'big'):
        raise Fail(f"signature for r={case['r']} s={case['s']} is {sig.hex()}")


DELIM = set('/?#[]')
CH = string.ascii_letters + string.digits + ":.-_~%@!$&'()*+,;= é"


def gen_uri(rng, n, scale):
    if n >= 2000 * scale:
        return None
    w = lambda: ''.join(rng.choice(CH) for _ in range(rng.randrange(0 if rng.random() < .1
                                                                   else 1, 9)))
    did = rng.choice(['did:plc:' + w(), 'did:web:' + w(), w()])
    return {'did': did, 'collection': rng.choice(['app.bsky.feed.post', w()]), 'rkey': w(),
            'bad': rng.choice(['', 'http://a/b/c', 'at:/x/y/z', 'AT://x/y/z', ' at://x/y/z',
                               'xat://a/b/c', 'at:', 'at'])}


def run_uri(case):
    p = (case['did'], case['collection'], case['rkey'])
    if not all(p):
        try:
            u = util.at_uri(*p)
        except Exception:
            u = None
        if u is not None:
            raise Fail(f'at_uri{p} accepted an empty part: {u}')
    else:
        u = util.at_uri(*p)
        got = tuple(util.parse_at_uri(u))
        if got != p:
            raise Fail(f'{u} parsed to {got}')
    try:
        got = util.parse_at_uri(case['bad'])
    except ValueError:
        return
    raise Fail(f"parse_at_uri({case['bad']!r}) returned {got}")


if __name__ == '__main__':
    Finder({
        'C13': [('sign-verify', gen, run_sign), ('jwt', gen_jwt, run_jwt),
                ('low-s', gen_s, run_s),
                ('short-halves', gen_short, run_short)],
        'C25': [('at-uri', gen_uri, run_uri)],
    }, rule='random objects, keys and both curves, with nine kinds of damage to the signed object; '
            'signature halves at the boundary of the low-S rule; random delimiter-free URI parts'
    ).main()
