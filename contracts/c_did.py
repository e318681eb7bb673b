"""DIDs: did:key codec, DID documents, resolution, PLC operations (arroba/did.py)."""
import z3
from theory import *
from values import *
from contract import fresh_of
from lib import UTF8, UNUTF8, SREPLACE
import c_crypto as K
import c_uri as URI
from c_crypto import PRIV, PUBK, K1, R1, OTHER, EC, ENC, B64TXT, valid, pubref, curveref

KEYBYTES = Function('compressed_point', Int_, Byt)    # public key -> bytes
PTKEY = Function('key_of_point', Int_, Byt, Int_)     # curve kind, bytes -> public key
MBENC = Function('mb58', Byt, Str)
MBDEC = Function('unmb', Str, Byt)
IS_MB = Function('is_mb', Str, Bool_)
WRAP = Function('mc_wrap', Str, Byt, Byt)             # multicodec name, bytes
MCNAME, MCDATA = Function('mc_name', Byt, Str), Function('mc_data', Byt, Byt)
IS_MC = Function('is_mc', Byt, Bool_)
REMP = Function('str_removeprefix', Str, Str, Str)
SHA256 = Function('sha256', Byt, Byt)
B32 = Function('b32', Byt, Byt)
DIDKEY = slit('did:key:')
_b = Const('b', Byt)
_s, _p, _q = Consts('s p q', Str)
_i, _j = Ints('i j')
_pm, (_pk, _pv, _pw) = Const('m', Map), Consts('k v w', Val)
axiom('did', 'base58btc multibase round trip', FA([_b], And(IS_MB(MBENC(_b)),
                                                           MBDEC(MBENC(_b)) == _b), MBENC(_b)))
axiom('did', 'multicodec round trip', FA([_s, _b], And(
    IS_MC(WRAP(_s, _b)), MCNAME(WRAP(_s, _b)) == _s, MCDATA(WRAP(_s, _b)) == _b), WRAP(_s, _b)))
axiom('did', 'compressed points', FA([_i], And(
    Implies(cls_(curveref(_i)) == cls_id(K1), PTKEY(256, KEYBYTES(_i)) == _i),
    Implies(cls_(curveref(_i)) == cls_id(R1), PTKEY(1256, KEYBYTES(_i)) == _i)), KEYBYTES(_i)))
axiom('str', 'removeprefix', FA([_p, _s], REMP(STR.cat_(_p, _s), _p) == _s,
                                REMP(STR.cat_(_p, _s), _p)))
axiom('map', 'put over put', FA([_pm, _pk, _pv, _pw], mput(mput(_pm, _pk, _pv), _pk, _pw) ==
                                mput(_pm, _pk, _pw), mput(mput(_pm, _pk, _pv), _pk, _pw)))
axiom('str', 'removeprefix of other strings', FA([_p, _s], Implies(
    Not(startswith(_s, _p)), REMP(_s, _p) == _s), REMP(_s, _p)))


def didkey(pub):
    name = If(cls_(curveref(pub)) == cls_id(K1), slit('secp256k1-pub'), slit('p256-pub'))
    return STR.cat_(DIDKEY, MBENC(WRAP(name, KEYBYTES(pub))))


def on_curve(ref):
    return Or(cls_(curveref(ref)) == cls_id(K1), cls_(curveref(ref)) == cls_id(R1))


g = lambda m, k: mget(m, vs(k))
dct = lambda v: acc('VDict', 0, v)


def op_ok(m):
    vm, sv = g(m, 'verificationMethods'), g(m, 'services')
    return [('a PLC operation with a DID', And(
        RECOG['VStr'](g(m, 'did')), RECOG['VDict'](vm), RECOG['VStr'](g(dct(vm), 'atproto')),
        RECOG['VDict'](sv), RECOG['VDict'](g(dct(sv), 'atproto_pds')),
        g(dct(g(dct(sv), 'atproto_pds')), 'endpoint') != VAbsent,
        RECOG['VList'](g(m, 'alsoKnownAs'))))]

def doc_of(m, d):
    """d is the DID document of operation m"""
    el = lambda v: SEQ.at_(acc('VList', 0, v), 0)
    vm, sv = g(d, 'verificationMethod'), g(d, 'service')
    one = lambda v: And(RECOG['VList'](v), SEQ.len_(acc('VList', 0, v)) == 1,
                        RECOG['VDict'](el(v)))
    did = acc('VStr', 0, g(m, 'did'))
    return [
        ('id', g(d, 'id') == g(m, 'did')),
        ('handles', g(d, 'alsoKnownAs') == g(m, 'alsoKnownAs')),
        ('one verification method', one(vm)),
        ('key id', g(dct(el(vm)), 'id') == VStr(STR.cat_(did, slit('#atproto')))),
        ('its controller', g(dct(el(vm)), 'controller') == g(m, 'did')),
        ('key type', g(dct(el(vm)), 'type') == vs('Multikey')),
        ('its key', g(dct(el(vm)), 'publicKeyMultibase') == VStr(REMP(acc(
            'VStr', 0, g(dct(g(m, 'verificationMethods')), 'atproto')), DIDKEY))),
        ('one service', one(sv)),
        ('service id', g(dct(el(sv)), 'id') == vs('#atproto_pds')),
        ('service type', g(dct(el(sv)), 'type') == vs('AtprotoPersonalDataServer')),
        ('its endpoint', g(dct(el(sv)), 'serviceEndpoint') ==
         g(dct(g(dct(g(m, 'services')), 'atproto_pds')), 'endpoint'))]


# HTTP: the requests made through a function, numbered from 0, with their URLs, JSON bodies and
# response objects; answers are arbitrary
GETS, POSTS = 'ghost.gets', 'ghost.posts'
STATUS_OK = Function('resp_ok', Opq, Bool_)
JSON = Function('resp_json', Opq, Val)
TEXT = Function('resp_text', Opq, Str)
RESP = 'requests.Response'
ANS = Function('http_answer', Int_, Opq)
LOGS = [k + x for k in (GETS, POSTS) for x in ('', '.url', '.body', '.resp')]


def http(key, exc=True):
    def f(ex, a, kw):
        url = VStr(ex.as_str(a[0]))
        body = ex.peek(kw['json']) if 'json' in kw else VNone
        n = acc('VInt', 0, ex.heap_get(key, IntVal(0)))
        fail = exc and ex.choose(2) == 1
        r = VNone if fail else ex.new_ref(RESP)
        ex.heap_set(key, IntVal(0), VInt(n + 1))
        for x, v in (('.url', url), ('.body', body), ('.resp', r)):
            ex.heap_set(key + x, n, v)
        if fail:
            ex.raise_('RequestException')
        return r
    return OpaqueFn(key, f)


def sent_one(c, key):
    """Exactly one request was made since entry."""
    n = acc('VInt', 0, c.old(key))
    return And(c.h(key) == VInt(n + 1), *[
        c.h_arr(key + x) == z3.Store(c.oldarr(key + x), n, z3.Select(c.h_arr(key + x), n))
        for x in ('.url', '.body', '.resp')])


def last_req(c, key, x):
    return z3.Select(c.h_arr(key + '.' + x), acc('VInt', 0, c.old(key)))


def register(reg):
    reg.mutable_globals |= set(LOGS)
    for k in (GETS, POSTS):
        reg.field_spec[k] = {'kind': 'int'}
    reg.libs['webutil.util.session.get'] = lambda ex, a, kw: http(GETS).f(ex, a, kw)
    reg.libs['webutil.util.session.post'] = lambda ex, a, kw: http(POSTS).f(ex, a, kw)
    A = lambda o: ANS(acc('VRef', 0, o))

    def rfs(ex, o, a, kw):
        if not ex.branch(STATUS_OK(A(o))):
            ex.raise_('HTTPError')
        return VNone

    def rjson(ex, o, a, kw):
        v = JSON(A(o))
        if ex.data.get('json_list'):
            ex.assume(RECOG['VList'](v))
        for n, k in (('VDict', 'dict'), ('VList', 'list')):
            if ex.branch(RECOG[n](v)):
                c = Cont(ex, k, acc(n, 0, v))
                c.aux['json'] = True
                if k == 'list' and 'json_elem' in ex.data:
                    ex.elem_fact(c._t, ex.data['json_elem'])
                return c
        if ex.choose(2) == 1:
            ex.raise_('ValueError')
        return v
    reg.libclasses[RESP] = {
        'raise_for_status': rfs, 'json': rjson,
        'ok': ('attr', lambda ex, o: VBool(STATUS_OK(A(o)))),
        'text': ('attr', lambda ex, o: VStr(TEXT(A(o)))),
        'content': ('attr', lambda ex, o: VByt(UTF8(TEXT(A(o)))))}

    def getenv(ex, a, kw):
        n = ex.as_str(a[0])
        v = Function('environ', Str, Val)(n)
        ex.assume(Or(v == VNone, RECOG['VStr'](v)))
        if ex.branch(v == VNone):
            ex.raise_('KeyError')
        ex.setcon(v, 'VStr')
        return v
    reg.libs['os.environ.__getitem__'] = getenv
    env = lambda n: acc('VStr', 0, Function('environ', Str, Val)(slit(n)))

    # -- did:key
    S = 'cryptography.hazmat.primitives.serialization.'

    def pubbytes(ex, o, a, kw):
        want = [LibV(S + 'Encoding.X962'), LibV(S + 'PublicFormat.CompressedPoint')]
        if [x.name for x in a] != [x.name for x in want]:
            ex.unsupported('public key encoding')
        return VByt(KEYBYTES(acc('VRef', 0, o)))
    reg.libclasses[PUBK]['public_bytes'] = pubbytes

    def mbenc(ex, a, kw):
        if lit_of(ex.as_str(a[1])) != 'base58btc':
            ex.unsupported('multibase encoding')
        return VStr(MBENC(ex.want(a[0], 'VByt')))

    def mbdec(ex, a, kw):
        s = ex.as_str(a[0])
        if not ex.branch(IS_MB(s)):
            ex.raise_('MultibaseKeyError' if ex.choose(2) else 'ValueError')
        return VByt(MBDEC(s))
    reg.libs['multiformats.multibase.encode'] = mbenc
    reg.libs['multiformats.multibase.decode'] = mbdec
    reg.libs['multiformats.multicodec.wrap'] = lambda ex, a, kw: VByt(WRAP(
        ex.as_str(a[0]), ex.want(a[1], 'VByt')))

    def unwrap(ex, a, kw):
        b = ex.want(a[0], 'VByt')
        if not ex.branch(IS_MC(b)):
            ex.raise_('ValueError' if ex.choose(2) else 'KeyError')
        return PTuple([VOpq(Function('codec', Byt, Opq)(b)), VByt(MCDATA(b))])
    reg.libs['multiformats.multicodec.unwrap'] = unwrap
    reg.val_methods[('VOpq', 'name')] = ('attr', lambda ex, o: VStr(MCNAME(
        acc('VOpq', 0, o).arg(0))))
    PT_OK = Function('is_point', Int_, Byt, Bool_)
    axiom('did', 'keys are points', FA([_i], And(PT_OK(256, KEYBYTES(_i)),
                                                PT_OK(1256, KEYBYTES(_i))), KEYBYTES(_i)))

    def from_point(ex, a, kw):
        cr = acc('VRef', 0, a[0])
        kind = 256 if ex.class_of(a[0]) == K1 else 1256 if ex.class_of(a[0]) == R1 else None
        if kind is None:
            ex.unsupported('curve')
        b = ex.want(a[1], 'VByt')
        if not ex.branch(PT_OK(kind, b)):
            ex.raise_('ValueError')
        r = PTKEY(kind, b)
        ex.assume(cls_(r) == cls_id(PUBK))
        ex.assume(cls_(curveref(r)) == cls_id(K1 if kind == 256 else R1))
        ex.ref_cls[r.sexpr()] = PUBK
        return VRef(r)
    reg.libs[EC + 'EllipticCurvePublicKey.from_encoded_point'] = from_point
    P = lambda c: c.ref('pubkey')
    R = lambda r: acc('VStr', 0, r)
    D = 'did.'
    reg.add(D + 'encode_did_key', params={'pubkey': 'ref:' + PUBK}, returns='str',
            requires=lambda c: [('a curve', Or(*[cls_(curveref(P(c))) == cls_id(n)
                                                for n in (K1, R1, OTHER)]))],
            raises=[('ValueError', lambda c: Not(on_curve(P(c))))],
            ensures=lambda c, r: [('did:key of the key and its curve', R(r) == didkey(P(c)))])
    key = Int('anykey')
    nodk = lambda s: Not(startswith(s, DIDKEY))

    def same_text(c):
        s = c.s('did_key')
        return Or(s == didkey(key), s == MBENC(WRAP(If(
            cls_(curveref(key)) == cls_id(K1), slit('secp256k1-pub'), slit('p256-pub')),
            KEYBYTES(key))))
    mbnodk = Function('unused', Byt, Bool_)
    axiom('did', 'multibase text does not start with did:key:', FA([_b], Not(startswith(
        MBENC(_b), DIDKEY)), MBENC(_b)))
    reg.add(D + 'decode_did_key', params={'did_key': 'str'}, returns='ref:' + PUBK,
            ensures=lambda c, r: [
                ('inverse of encode_did_key', FA([key], Implies(
                    And(on_curve(key), same_text(c)), acc('VRef', 0, r) == key),
                    KEYBYTES(key))),
                ('a supported curve', on_curve(acc('VRef', 0, r)))],
            raises=[(e, None, lambda c: [('never for an encoded key', FA([key], Implies(
                on_curve(key), Not(same_text(c))), KEYBYTES(key)))])
                for e in ('ValueError', 'KeyError')])

    # -- DID documents
    OP = lambda c: c.map('op')

    reg.add(D + 'plc_operation_to_did_doc', params={'op': 'dict'}, returns='dict',
            requires=lambda c: op_ok(OP(c)),
            ensures=lambda c, r: doc_of(OP(c), dct(r)))

    # reading documents. aka(i): the i-th entry
    DOC = lambda c: c.map('did_doc')
    aka = lambda c: acc('VList', 0, g(DOC(c), 'alsoKnownAs'))
    i, j = Ints('ii jj')
    h = Const('hh', Str)

    def listy(v):
        return Or(v == VAbsent, RECOG['VList'](v))

    def strings(v):
        return Or(v == VAbsent, And(RECOG['VList'](v), FA([i], Implies(
            And(0 <= i, i < SEQ.len_(acc('VList', 0, v))),
            RECOG['VStr'](SEQ.at_(acc('VList', 0, v), i))), SEQ.at_(acc('VList', 0, v), i))))

    def dicts(v):
        return Or(v == VAbsent, And(RECOG['VList'](v), FA([i], Implies(
            And(0 <= i, i < SEQ.len_(acc('VList', 0, v))),
            RECOG['VDict'](SEQ.at_(acc('VList', 0, v), i))), SEQ.at_(acc('VList', 0, v), i))))
    at_ = lambda s, n: acc('VStr', 0, SEQ.at_(s, n))

    def handle_inv(L):
        if L.seq is None:
            return
        yield 'no handle in an earlier entry', FA([i, h], Implies(
            And(0 <= i, i < L.i, URI.okp(h)),
            at_(L.seq, i) != STR.cat_(URI.AT, h)), [SEQ.at_(L.seq, i), STR.cat_(URI.AT, h)])

    def handle_setup(ex, c):
        ex.elem_fact(aka(c), lambda x, i: RECOG['VStr'](x))

    reg.add(D + 'get_handle', setup=handle_setup, params={'did_doc': 'dict'}, returns='opt:str', loops=[handle_inv],
            requires=lambda c: [('alsoKnownAs is a list, if any', listy(g(DOC(c), 'alsoKnownAs'))),
                                ('of strings', strings(g(DOC(c), 'alsoKnownAs')))],
            ensures=lambda c, r: [
                ('no handle in a document without alsoKnownAs',
                 Implies(Or(g(DOC(c), 'alsoKnownAs') == VAbsent, SEQ.len_(aka(c)) == 0),
                         r == VNone)),
                ('the handle of the first at:// entry', FA([i, h], Implies(
                    And(g(DOC(c), 'alsoKnownAs') != VAbsent, 0 <= i, i < SEQ.len_(aka(c)),
                        URI.okp(h), at_(aka(c), i) == STR.cat_(URI.AT, h),
                        FA([j], Implies(And(0 <= j, j < i), Not(startswith(
                            at_(aka(c), j), URI.AT))), SEQ.at_(aka(c), j))), r == VStr(h)),
                    [SEQ.at_(aka(c), i), STR.cat_(URI.AT, h)])),
                ('none only if no entry is at://[handle]', Implies(
                    And(r == VNone, g(DOC(c), 'alsoKnownAs') != VAbsent), FA([i, h], Implies(
                        And(0 <= i, i < SEQ.len_(aka(c)), URI.okp(h)),
                        at_(aka(c), i) != STR.cat_(URI.AT, h)),
                        [SEQ.at_(aka(c), i), STR.cat_(URI.AT, h)])))],
            raises=[('ValueError', None, None)])

    VM = lambda c: acc('VList', 0, g(DOC(c), 'verificationMethod'))

    def match(c, s, n):
        """entry n is the atproto signing key"""
        e = dct(SEQ.at_(s, n))
        return And(g(e, 'id') == VStr(STR.cat_(acc('VStr', 0, g(DOC(c), 'id')),
                                               slit('#atproto'))),
                   RECOG['VStr'](g(e, 'publicKeyMultibase')),
                   STR.len_(acc('VStr', 0, g(e, 'publicKeyMultibase'))) > 0)

    def key_inv(L):
        c = L.ex.data.get('keyctx')
        if L.seq is None or c is None:
            return
        yield 'no signing key in an earlier entry', FA([i], Implies(
            And(0 <= i, i < L.i), Not(match(c, L.seq, i))), SEQ.at_(L.seq, i))

    def key_setup(ex, c):
        ex.data['keyctx'] = c

        def f(x, i):
            k = g(dct(x), 'publicKeyMultibase')
            return And(RECOG['VDict'](x), Or(k == VAbsent, k == VNone, RECOG['VStr'](k)))
        ex.elem_fact(VM(c), f)

    def keys_str(c):
        v = g(DOC(c), 'verificationMethod')
        e = dct(SEQ.at_(acc('VList', 0, v), i))
        k = g(e, 'publicKeyMultibase')
        return Or(v == VAbsent, And(RECOG['VList'](v), FA([i], Implies(
            And(0 <= i, i < SEQ.len_(acc('VList', 0, v))),
            And(RECOG['VDict'](SEQ.at_(acc('VList', 0, v), i)),
                Or(k == VAbsent, k == VNone, RECOG['VStr'](k)))),
            SEQ.at_(acc('VList', 0, v), i))))
    reg.add(D + 'get_signing_key', params={'did_doc': 'dict'}, returns='opt:ref:' + PUBK,
            loops=[key_inv], setup=key_setup,
            requires=lambda c: [
                ('id is a string', Or(g(DOC(c), 'id') == VAbsent, RECOG['VStr'](g(DOC(c),
                                                                                'id')))),
                ('verification methods are a list, if any',
                 listy(g(DOC(c), 'verificationMethod'))),
                ('of dicts', keys_str(c))],
            ensures=lambda c, r: [
                ('none without an id', Implies(g(DOC(c), 'id') == VAbsent, r == VNone)),
                ('none only if no entry is the atproto key', Implies(
                    And(r == VNone, g(DOC(c), 'id') != VAbsent,
                        g(DOC(c), 'verificationMethod') != VAbsent,
                        STR.len_(acc('VStr', 0, g(DOC(c), 'id'))) > 0), FA([i], Implies(
                            And(0 <= i, i < SEQ.len_(VM(c))), Not(match(c, VM(c), i))),
                            SEQ.at_(VM(c), i)))),
                ('the key of the first such entry', FA([i, key], Implies(
                    And(g(DOC(c), 'id') != VAbsent,
                        STR.len_(acc('VStr', 0, g(DOC(c), 'id'))) > 0,
                        g(DOC(c), 'verificationMethod') != VAbsent,
                        0 <= i, i < SEQ.len_(VM(c)), match(c, VM(c), i),
                        FA([j], Implies(And(0 <= j, j < i), Not(match(c, VM(c), j))),
                           SEQ.at_(VM(c), j)), on_curve(key),
                        acc('VStr', 0, g(dct(SEQ.at_(VM(c), i)), 'publicKeyMultibase')) ==
                        REMP(didkey(key), DIDKEY)),
                    r == VRef(key)), [SEQ.at_(VM(c), i), KEYBYTES(key)]))],
            raises=[('ValueError', None, None), ('KeyError', None, None)])
