"""Bounded cross-check of DIDs: did:key and documents (C22), PLC operations (C23),
resolution (C27). No network: every request goes to a recording stand-in."""
import base64, copy, hashlib, json, os, random, re, string, sys, urllib.parse
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import Finder, Fail
os.environ['PLC_HOST'] = 'plc.local'
os.environ['PDS_HOST'] = 'pds.local'
from cryptography.exceptions import InvalidSignature
from cryptography.hazmat.primitives import hashes, serialization
from cryptography.hazmat.primitives.asymmetric import ec
from cryptography.hazmat.primitives.asymmetric.utils import encode_dss_signature
import dag_cbor
import dns.resolver, dns.exception
from dns.rdatatype import TXT
import requests
from arroba import did, util

CURVES = {'k1': ec.SECP256K1, 'r1': ec.SECP256R1, 'p384': ec.SECP384R1, 'p521': ec.SECP521R1}
PREFIX = {'k1': b'\xe7\x01', 'r1': b'\x80\x24'}
B58 = '123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz'


def b58(b):
    n, out = int.from_bytes(b, 'big'), ''
    while n:
        n, r = divmod(n, 58)
        out = B58[r] + out
    return '1' * (len(b) - len(b.lstrip(b'\0'))) + out


def priv(k, curve='k1'):
    return ec.derive_private_key(k, CURVES[curve]())


def point(pub):
    return pub.public_bytes(serialization.Encoding.X962,
                            serialization.PublicFormat.CompressedPoint)


def didkey(pub, curve='k1'):
    return 'did:key:z' + b58(PREFIX[curve] + point(pub))


class Resp:
    def __init__(self, data=None, status=200, text=None, headers=None):
        self.data, self.status_code, self._text = data, status, text
        self.ok = status < 400
        self.headers = headers or {}
        self.text = text if text is not None else json.dumps(data)
        self.content = self.text.encode()

    def json(self):
        return copy.deepcopy(self.data)

    def raise_for_status(self):
        if not self.ok:
            raise requests.HTTPError('status')


class Http:
    def __init__(self, resp=None, exc=None):
        self.resp, self.exc, self.calls = resp or Resp({}), exc, []

    def __call__(self, url, json=None, **kw):
        self.calls.append((url, copy.deepcopy(json)))
        if self.exc:
            raise self.exc
        return self.resp


# C22 ---------------------------------------------------------------------------------
def gen_key(rng, n, scale):
    if n >= 200 * scale:
        return None
    return {'k': rng.choice([1, 2, 3, rng.randrange(1, 2**250)]),
            'curve': rng.choice(['k1', 'k1', 'r1', 'r1', 'p384', 'p521'])}


def run_key(c):
    pub = priv(c['k'], c['curve']).public_key()
    try:
        s = did.encode_did_key(pub)
    except ValueError:
        if c['curve'] in PREFIX:
            raise Fail(f"{c['curve']} key refused")
        return
    if c['curve'] not in PREFIX:
        raise Fail(f"{c['curve']} key accepted")
    if s != didkey(pub, c['curve']):
        raise Fail(f'encoded as {s}, should be {didkey(pub, c["curve"])}')
    back = did.decode_did_key(s)
    if point(back) != point(pub) or back.curve.name != pub.curve.name:
        raise Fail(f'{s} decoded to another key')


def gen_badkey(rng, n, scale):
    if n >= 30 * scale:
        return None
    return {'prefix': rng.choice(['ed01', '8224', '8124', 'eb01', 'ec01']),
            'k': rng.randrange(1, 2**250)}


def run_badkey(c):
    pub = priv(c['k']).public_key()
    s = 'did:key:z' + b58(bytes.fromhex(c['prefix']) + point(pub))
    try:
        did.decode_did_key(s)
    except Exception:
        return
    raise Fail(f'decode_did_key accepted codec {c["prefix"]}')


def word(rng):
    return ''.join(rng.choice(string.ascii_lowercase + string.digits)
                   for _ in range(rng.randrange(1, 9)))


def handle(rng):
    return '.'.join(word(rng) for _ in range(rng.randrange(1, 4))) + '.' + rng.choice(
        ['com', 'org', 'x1'])


def gen_doc(rng, n, scale):
    if n >= 200 * scale:
        return None
    return {'k': rng.randrange(1, 2**250), 'curve': rng.choice(['k1', 'r1']),
            'did': 'did:plc:' + word(rng), 'pds': 'https://' + handle(rng),
            'aka': [rng.choice(['at://' + handle(rng), 'https://' + handle(rng), 'acct:x@y',
                                'xat://' + handle(rng)]) for _ in range(rng.randrange(4))],
            'extra': rng.random() < .5}


def run_doc(c):
    pub = priv(c['k'], c['curve']).public_key()
    op = {'did': c['did'], 'type': 'plc_operation', 'rotationKeys': [], 'prev': None,
          'verificationMethods': {'atproto': didkey(pub, c['curve'])},
          'alsoKnownAs': list(c['aka']),
          'services': {'atproto_pds': {'type': 'AtprotoPersonalDataServer',
                                       'endpoint': c['pds']}}}
    if c['extra']:
        op['verificationMethods'] = {'other': 'did:key:zzz', **op['verificationMethods']}
    before = copy.deepcopy(op)
    doc = did.plc_operation_to_did_doc(op)
    if op != before:
        raise Fail('operation modified')
    if doc['id'] != c['did'] or doc['alsoKnownAs'] != c['aka']:
        raise Fail(f'document {doc}')
    svc = [s for s in doc['service'] if s['id'].endswith('#atproto_pds')]
    if len(svc) != 1 or svc[0]['serviceEndpoint'] != c['pds'] or \
            svc[0]['type'] != 'AtprotoPersonalDataServer':
        raise Fail(f'services {svc}')
    key = did.get_signing_key(doc)
    if key is None or point(key) != point(pub) or key.curve.name != pub.curve.name:
        raise Fail('signing key read back differs')
    want = next((a[5:] for a in c['aka'] if a.startswith('at://')), None)
    if did.get_handle(doc) != want:
        raise Fail(f'handle {did.get_handle(doc)}, should be {want}')


def gen_read(rng, n, scale):
    if n >= 200 * scale:
        return None
    d = 'did:plc:' + word(rng)
    ms = []
    for _ in range(rng.randrange(4)):
        ms.append({'id': rng.choice([d + '#atproto', d + '#other', d + 'x#atproto', '#atproto',
                                     'x' + d + '#atproto', d + '#atproto2']),
                   'k': rng.randrange(4)})
    return {'id': rng.choice([d, d, d, None, '']), 'methods': ms}


def run_read(c):
    doc = {'verificationMethod': []}
    if c['id'] is not None:
        doc['id'] = c['id']
    want = None
    for m in c['methods']:
        v = {'id': m['id'], 'type': 'Multikey'}
        pub = None
        if m['k']:
            pub = priv(m['k']).public_key()
            v['publicKeyMultibase'] = didkey(pub)[8:]
        doc['verificationMethod'].append(v)
        if c['id'] and want is None and m['id'] == f"{c['id']}#atproto" and m['k']:
            want = pub
    got = did.get_signing_key(doc)
    if (got is None) != (want is None) or (got and point(got) != point(want)):
        raise Fail(f'signing key of {doc} is {got and did.encode_did_key(got)}')
    if did.get_signing_key({}) is not None or did.get_handle({}) is not None:
        raise Fail('an empty document gave a key or a handle')
    if did.get_signing_key({'id': 'did:plc:x'}) is not None:
        raise Fail('a document without keys gave a key')


# C23 ---------------------------------------------------------------------------------
def check_sent(post, key, want_did, want, what):
    if len(post.calls) != 1:
        raise Fail(f'{what}: {len(post.calls)} requests sent')
    url, op = post.calls[0]
    sig = op.get('sig')
    if not isinstance(sig, str) or '=' in sig:
        raise Fail(f'{what}: signature {sig!r}')
    raw = base64.urlsafe_b64decode(sig + '=' * (-len(sig) % 4))
    if base64.urlsafe_b64encode(raw).decode().rstrip('=') != sig:
        raise Fail(f"{what}: signature isn't base64url: {sig!r}")
    body = {k: v for k, v in op.items() if k != 'sig'}
    try:
        key.public_key().verify(
            encode_dss_signature(int.from_bytes(raw[:32], 'big'), int.from_bytes(raw[32:], 'big')),
            dag_cbor.encode(body), ec.ECDSA(hashes.SHA256()))
    except InvalidSignature:
        raise Fail(f"{what}: signature isn't the rotation key's")
    if len(raw) != 64:
        raise Fail(f'{what}: signature is {len(raw)} bytes')
    for k, v in want.items():
        if body.get(k, 'absent') != v:
            raise Fail(f'{what}: {k} is {body.get(k)!r}, should be {v!r}')
    if set(body) != set(want):
        raise Fail(f'{what}: fields {sorted(body)}')
    if want_did is None:
        h = hashlib.sha256(dag_cbor.encode(op)).digest()
        want_did = 'did:plc:' + base64.b32encode(h).decode().lower()[:24]
    if url != f'https://plc.local/{want_did}':
        raise Fail(f'{what}: sent to {url}, should be for {want_did}')
    return want_did


def op_body(rot, sign, aka, pds, prev):
    return {'type': 'plc_operation', 'rotationKeys': [didkey(rot)],
            'verificationMethods': {'atproto': didkey(sign)}, 'alsoKnownAs': aka,
            'services': {'atproto_pds': {'type': 'AtprotoPersonalDataServer',
                                         'endpoint': pds}}, 'prev': prev}


def gen_plc(rng, n, scale):
    if n >= 120 * scale:
        return None
    keys = lambda: rng.randrange(1, 2**200)
    log = []
    d = 'did:plc:' + word(rng)
    for i in range(rng.randrange(1, 6)):
        log.append({'rot': [rng.randrange(1, 4) for _ in range(rng.randrange(1, 3))],
                    'sign': rng.randrange(1, 6), 'handle': handle(rng),
                    'aka': ['https://' + handle(rng) for _ in range(rng.randrange(3))],
                    'cid': f'bafy{i}{word(rng)}', 'did': d, 'pds': 'https://' + handle(rng)})
    return {'did': d, 'log': log, 'mode': rng.choice(['create', 'update', 'update', 'rollback',
                                                      'rollback']),
            'handle': handle(rng) if rng.random() < .6 else None,
            'rot': rng.randrange(1, 4), 'sign': rng.choice([None, keys()]),
            'newrot': rng.choice([None, keys()]), 'pub': rng.random() < .3,
            'pds': rng.choice([None, 'https://' + handle(rng)]),
            'aka': rng.choice([None, None, [], 'at://other', ['https://a', 'https://b']]),
            'num': rng.choice([None, 1, 2, 3, 4]), 'status': rng.choice([200] * 7 + [400, 500])}


def audit(c):
    out = []
    prev = None
    for e in c['log']:
        rot = [didkey(priv(k).public_key()) for k in e['rot']]
        op = op_body(priv(1).public_key(), priv(e['sign']).public_key(),
                     ['at://' + e['handle']] + e['aka'], e['pds'], prev)
        op['rotationKeys'] = rot
        op['sig'] = 'oldsig' + e['cid']
        out.append({'did': e['did'], 'operation': op, 'cid': e['cid'], 'nullified': False,
                    'createdAt': '2024-01-01T00:00:00Z'})
        prev = e['cid']
    return out


def run_plc(c):
    log = audit(c)
    get, post = Http(Resp(log)), Http(Resp({}, status=c['status']))
    rot = priv(c['rot'])
    kw = {'get_fn': get, 'post_fn': post}
    mode = c['mode']
    if mode == 'rollback':
        if c['num']:
            kw['num_operations'] = c['num']
        num = c['num'] or 1
        ok = len(log) >= num + 1 and c['rot'] in c['log'][-1]['rot']
        try:
            did.rollback_plc(c['did'], rot, **kw)
        except requests.HTTPError:
            if c['status'] == 200 or not ok:
                raise Fail('HTTP error')
        except Exception as e:
            if ok:
                raise Fail(f'rollback refused: {e!r}')
            if post.calls:
                raise Fail(f'refused rollback was sent: {post.calls}')
            return
        else:
            if not ok:
                raise Fail('rollback that should be refused was sent')
            if c['status'] != 200:
                raise Fail('directory error ignored')
        want = dict(log[-(num + 1)]['operation'])
        del want['sig']
        want['prev'] = log[-1]['cid']
        check_sent(post, rot, c['did'], want, 'rollback')
        if [u for u, _ in get.calls] != [f"https://plc.local/{c['did']}/log/audit"]:
            raise Fail(f'audit log read from {get.calls}')
        return
    kw['rotation_key'] = rot
    sign = priv(c['sign'] or 7)
    newrot = c['newrot'] and priv(c['newrot'])
    if c['sign'] or mode == 'update':
        kw['signing_key'] = sign.public_key() if c['pub'] else sign
    if newrot:
        kw['new_rotation_key'] = newrot.public_key() if c['pub'] else newrot
    if c['pds']:
        kw['pds_url'] = c['pds']
    if c['aka'] is not None:
        kw['also_known_as'] = copy.deepcopy(c['aka'])
    h = c['handle']
    if mode == 'create':
        h = h or 'a.b.com'
        call = lambda: did.create_plc(h, **kw)
        prev, aka, wdid = None, c['aka'], None
    else:
        call = lambda: did.update_plc(c['did'], handle=c['handle'], **kw)
        h = h or c['log'][-1]['handle']
        prev, wdid = log[-1]['cid'], c['did']
        aka = c['aka'] if c['aka'] is not None else c['log'][-1]['aka']
    aka = [aka] if isinstance(aka, str) else list(aka or [])
    try:
        res = call()
    except requests.HTTPError:
        if c['status'] == 200:
            raise Fail('HTTP error')
        res = None
    if res and c['status'] != 200:
        raise Fail('directory error ignored')
    if res:
        if c['sign'] or mode == 'update':
            spub = sign.public_key()
        else:
            spub = res.signing_key.public_key()
            if spub.curve.name != 'secp256k1':
                raise Fail('generated key on the wrong curve')
    else:
        if not (c['sign'] or mode == 'update'):
            return
        spub = sign.public_key()
    want = op_body((newrot or rot).public_key(), spub, ['at://' + h] + aka,
                   c['pds'] or 'https://pds.local', prev)
    d = check_sent(post, rot, wdid, want, mode)
    if mode == 'update' and [u for u, _ in get.calls] != [
            f"https://plc.local/{c['did']}/log/audit"]:
        raise Fail(f'audit log read from {get.calls}')
    if res:
        if res.did != d:
            raise Fail(f'returned {res.did}, sent {d}')
        if point(res.rotation_key.public_key()) != point(rot.public_key()):
            raise Fail('returned another rotation key')
        rs = res.signing_key
        rs = rs.public_key() if hasattr(rs, 'public_key') else rs
        if point(rs) != point(spub):
            raise Fail('returned another signing key')
        if res.doc['id'] != d or res.doc['alsoKnownAs'] != want['alsoKnownAs'] or \
                did.get_handle(res.doc) != h or \
                point(did.get_signing_key(res.doc)) != point(spub):
            raise Fail(f'returned document {res.doc}')


def gen_badplc(rng, n, scale):
    if n >= 40 * scale:
        return None
    return {'handle': rng.choice([None, '', 3, 'ok.com', 'ok.com']),
            'which': rng.choice(['signing_key', 'rotation_key', 'new_rotation_key', None]),
            'curve': rng.choice(['r1', 'p384'])}


def run_badplc(c):
    post = Http(Resp({}))
    kw = {k: priv(3) for k in ('signing_key', 'rotation_key')}
    if c['which']:
        kw[c['which']] = priv(4, c['curve'])
    ok = isinstance(c['handle'], str) and c['handle'] and not c['which']
    try:
        did.create_plc(c['handle'], post_fn=post, **kw)
    except Exception as e:
        if ok:
            raise Fail(f'refused: {e!r}')
        if post.calls:
            raise Fail('an invalid operation was sent')
        return
    if not ok:
        raise Fail(f'accepted {c}')


# C27 ---------------------------------------------------------------------------------
def gen_did(rng, n, scale):
    if n >= 400 * scale:
        return None
    w = lambda: rng.choice([word(rng), handle(rng), 'a%3A80', 'a%2Fb', 'x/y', ''])
    return {'did': rng.choice([
        'did:plc:' + w(), 'did:web:' + w(), 'did:web:' + w() + ':' + w(),
        'did:web:' + w() + ':' + w() + ':' + w(), 'did:key:' + w(), 'xdid:plc:' + w(),
        'xdid:web:' + w(), 'DID:PLC:' + w(), 'did:plcx', 'did:webs:' + w(), 'did:', '', 'plc:' + w(),
        None]),
        'fn': rng.choice(['resolve', 'resolve', 'resolve_plc', 'resolve_web']),
        'status': rng.choice([200, 200, 200, 404, 500])}


def run_did(c):
    doc = {'id': 'x', 'nonce': random.random()}
    get = Http(Resp(doc, status=c['status']))
    d = c['did']
    want = None
    if d and d.startswith('did:plc:') and c['fn'] != 'resolve_web':
        want = f'https://plc.local/{d}'
    elif d and d.startswith('did:web:') and c['fn'] != 'resolve_plc':
        parts = d.split(':')[2:]
        path = '/'.join(parts) if len(parts) > 1 else parts[0] + '/.well-known'
        want = 'https://' + urllib.parse.unquote(path) + '/did.json'
    try:
        got = getattr(did, c['fn'])(d, get_fn=get)
    except requests.HTTPError:
        if not want or c['status'] == 200:
            raise Fail(f'{c}: HTTP error')
        got = None
    except ValueError:
        if want:
            raise Fail(f'{d} refused')
        if get.calls:
            raise Fail(f'refused {d} but fetched {get.calls}')
        return
    else:
        if c['status'] != 200:
            raise Fail(f'{c}: error status ignored, returned {got}')
    if not want:
        raise Fail(f"{c['fn']} accepted {d!r}, fetched {get.calls}")
    if [u for u, _ in get.calls] != [want]:
        raise Fail(f'{d}: fetched {get.calls}, should be {want}')
    if got is not None and got != doc:
        raise Fail(f'{d}: returned {got}')


H_RE = re.compile(r'([a-zA-Z0-9]([a-zA-Z0-9-]{0,61}[a-zA-Z0-9])?\.)+'
                  r'[a-zA-Z]([a-zA-Z0-9-]{0,61}[a-zA-Z0-9])?')


def gen_handle(rng, n, scale):
    if n >= 400 * scale:
        return None
    w = lambda: rng.choice([word(rng), 'a', 'a-b', '-a', 'a-', 'a_b', '', 'A', 'x' * 63, 'x' * 64,
                            '9', 'a b', 'é'])
    h = rng.choice([handle(rng), handle(rng), handle(rng),
                    '.'.join(w() for _ in range(rng.randrange(1, 4))), handle(rng) + '\n',
                    handle(rng) + '.', ' ' + handle(rng), handle(rng) + '/x', 'a.b/c.com',
                    'localhost', None, ''])
    txt = lambda: rng.choice(['"did=did:plc:' + word(rng) + '"', '"did=did:web:' + word(rng) + '"',
                              '"did=x"', '"v=spf1"', '"xdid=did:plc:a"', '"did:plc:x"',
                              '"did=xdid:plc:q"'])
    return {'handle': h,
            'dns': rng.choice([None, None, [txt() for _ in range(rng.randrange(4))],
                               [txt() for _ in range(rng.randrange(1, 3))]]),
            'types': [rng.choice([16, 16, 16, 5]) for _ in range(4)],
            'canon': rng.random() < .8, 'err': rng.randrange(3),
            'http': rng.choice(['exc', 'did:plc:' + word(rng), ' did:plc:' + word(rng) + '\n',
                                'x', '', 'xdid:plc:q', '<html>did:plc:x</html>']),
            'status': rng.choice([200, 200, 200, 404])}


class Name:
    def __init__(self, s):
        self.s = s

    def to_text(self):
        return self.s


class RData:
    def __init__(self, t, rdtype):
        self.t, self.rdtype = t, rdtype
        self.strings = (t.strip('"').encode(),)

    def to_text(self):
        return self.t


class Answer(list):
    response = 'response'


def run_handle(c):
    h = c['handle']
    get = Http(Resp(text=c['http'], status=c['status']),
               exc=requests.ConnectionError() if c['http'] == 'exc' else None)
    asked = []

    def resolve(name, rdtype='A', *a, **kw):
        name = name if isinstance(name, str) else name.to_text()
        asked.append((name, rdtype))
        if c['dns'] is None:
            raise [dns.resolver.NXDOMAIN, dns.resolver.NoAnswer, dns.exception.Timeout][c['err']]()
        a = Answer(RData(t, TXT if ty == 16 else ty) for t, ty in zip(c['dns'], c['types']))
        a.canonical_name = Name(name if c['canon'] else 'other.com.')
        return a

    orig = dns.resolver.resolve
    dns.resolver.resolve = resolve
    valid = isinstance(h, str) and bool(H_RE.fullmatch(h))
    try:
        got = did.resolve_handle(h, get_fn=get)
    except ValueError:
        if valid:
            raise Fail(f'{h} refused')
        if get.calls or asked:
            raise Fail(f'{h!r} refused but queried')
        return
    finally:
        dns.resolver.resolve = orig
    if not valid:
        raise Fail(f'{h!r} accepted')
    want = None
    if c['dns'] and c['canon']:
        want = next((t[5:-1] for t, ty in zip(c['dns'], c['types'])
                     if ty == 16 and t.startswith('"did=did:')), None)
    from_dns = want is not None
    if not from_dns and c['http'] != 'exc' and c['status'] == 200 \
            and c['http'].strip().startswith('did:'):
        want = c['http'].strip()
    if got != want:
        raise Fail(f'{h} resolved to {got!r}, should be {want!r}')
    for name, t in asked:
        if name.rstrip('.') != f'_atproto.{h}' or t not in (TXT, 'TXT'):
            raise Fail(f'DNS query for {name} {t}')
    if any(u != f'https://{h}/.well-known/atproto-did' for u, _ in get.calls):
        raise Fail(f'fetched {get.calls}')


if __name__ == '__main__':
    Finder({
        'C22': [('did-key', gen_key, run_key), ('other-codecs', gen_badkey, run_badkey),
                ('operation-document', gen_doc, run_doc), ('read-document', gen_read, run_read)],
        'C23': [('plc-write', gen_plc, run_plc), ('plc-invalid', gen_badplc, run_badplc)],
        'C27': [('resolve-did', gen_did, run_did), ('resolve-handle', gen_handle, run_handle)],
    }, rule='random keys on four curves, documents, audit logs of 1-5 operations with random '
            'options, and identifiers, DNS answers and HTTP responses; requests are recorded'
    ).main()
