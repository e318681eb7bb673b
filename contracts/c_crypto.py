"""Signatures (util.sign, verify_sig, apply_low_s_mitigation, service_jwt) and the trusted
contracts on the cryptography, dag_cbor and jwt packages."""
import z3
from theory import *
from values import *
from lib import UTF8, UNUTF8, REP

EC = 'cryptography.hazmat.primitives.asymmetric.ec.'
PRIV, PUBK = EC + 'EllipticCurvePrivateKey', EC + 'EllipticCurvePublicKey'
K1, R1 = EC + 'SECP256K1', EC + 'SECP256R1'
OTHER = EC + 'SECP384R1'
DSS = 'cryptography.hazmat.primitives.asymmetric.utils.'

curveref = Function('curveref', Int_, Int_)     # key -> its curve
pubref = Function('pubref', Int_, Int_)         # private key -> its public key
order = Function('curve_order', Int_, Int_)     # curve -> group order
VERIFY = Function('ecdsa_valid', Opq, Int_, Byt, Int_, Int_, Bool_)  # alg, public key, msg, r, s
DER = Function('der', Int_, Int_, Byt)
ISDER = Function('is_der', Byt, Bool_)
DERR, DERS = Function('der_r', Byt, Int_), Function('der_s', Byt, Int_)
ENC = Function('cbor', Val, Byt)
DEC = Function('uncbor', Byt, Val)
CBOR_OK = Function('cbor_ok', Val, Bool_)
IS_CBOR = Function('is_cbor', Byt, Bool_)
B64 = Function('b64url', Byt, Byt)
B64TXT = Function('b64url_text', Byt, Str)      # unpadded, as text
UNB64 = Function('unb64url', Str, Byt)
IS_B64 = Function('is_b64', Str, Bool_)
JWTIN = Function('jwt_signing_input', Map, Str)
SHA = Const('sha256_alg', Opq)
ECDSA = Function('ecdsa_with', Opq, Opq)
ECDSA256 = ECDSA(SHA)
BI = Function('b2i_big', Byt, Int_)

_r, _s, _i = Ints('r s i')
_b = Const('b', Byt)
_v, _k = Consts('v k', Val)
_t, _u = Consts('t u', Str)
_m = Const('m', Map)
axiom('crypto', 'DER round trip', FA([_r, _s], And(ISDER(DER(_r, _s)), DERR(DER(_r, _s)) == _r,
                                                  DERS(DER(_r, _s)) == _s), DER(_r, _s)))
axiom('crypto', 'curve orders', FA([_i], And(order(_i) > 2, Implies(
    Or(cls_(_i) == cls_id(K1), cls_(_i) == cls_id(R1)), order(_i) < 2 ** 256)), order(_i)))
axiom('cbor', 'DAG-CBOR round trip', FA([_v], Implies(CBOR_OK(_v), And(
    IS_CBOR(ENC(_v)), DEC(ENC(_v)) == _v)), ENC(_v)))
axiom('cbor', 'decoded values can be encoded', FA([_b], Implies(IS_CBOR(_b), And(
    CBOR_OK(DEC(_b)), ENC(DEC(_b)) == _b)), DEC(_b)))
axiom('map', 'delete after put', FA([_m, _k, _v], mdel(mput(_m, _k, _v), _k) == mdel(_m, _k),
                                    mdel(mput(_m, _k, _v), _k)))
axiom('map', 'delete of an absent key', FA([_m, _k], Implies(mget(_m, _k) == VAbsent,
                                                           mdel(_m, _k) == _m), mdel(_m, _k)))
_b2 = Const('b2', Byt)
axiom('crypto', 'halves of a signature', FA([_b, _b2], Implies(
    And(BYT.len_(_b) == 32, BYT.len_(_b2) == 32),
    And(BYT.sub_(BYT.cat_(_b, _b2), 0, 32) == _b, BYT.sub_(BYT.cat_(_b, _b2), 32, 64) == _b2)),
    BYT.cat_(_b, _b2)))
# base64 text has no '.', so the last '.' of a compact JWT is the one before the signature
RP = [Function(f'str_rpartition{k}', Str, Str, Str) for k in range(3)]
axiom('b64', 'last dot of a token', FA([_t, _b], And(*[
    RP[k](STR.cat_(_t, STR.cat_(slit('.'), B64TXT(_b))), slit('.')) == x
    for k, x in enumerate([_t, slit('.'), B64TXT(_b)])]),
    STR.cat_(_t, STR.cat_(slit('.'), B64TXT(_b)))))
axiom('b64', 'base64 round trip', FA([_b], And(
    IS_B64(STR.cat_(B64TXT(_b), REP(ord('='), (-STR.len_(B64TXT(_b))) % 4))),
    UNB64(STR.cat_(B64TXT(_b), REP(ord('='), (-STR.len_(B64TXT(_b))) % 4))) == _b),
    B64TXT(_b)))
axiom('b64', 'unpadded text', FA([_b], B64TXT(_b) == UNUTF8(Function(
    'brstrip', Byt, Byt, Byt)(B64(_b), blit(b'='))), UNUTF8(Function('brstrip', Byt, Byt, Byt)(
        B64(_b), blit(b'=')))))


def low_s(sig, keyref):
    """sig is 64 bytes and its second half is at most half the curve order"""
    return And(BYT.len_(sig) == 64, 2 * BI(BYT.sub_(sig, 32, 64)) <= order(curveref(keyref)))


def valid(pub, msg, sig):
    return And(BYT.len_(sig) == 64, VERIFY(ECDSA256, pub, msg, BI(BYT.sub_(sig, 0, 32)),
                                           BI(BYT.sub_(sig, 32, 64))))


def cbor_encode(ex, a, kw):
    v = ex.peek(a[0])
    if not ex.branch(CBOR_OK(v)):
        ex.raise_('ValueError')
    return VByt(ENC(v))


def cbor_decode(ex, a, kw):
    b = ex.want(a[0], 'VByt')
    if not ex.branch(IS_CBOR(b)):
        ex.raise_('ValueError')
    return DEC(b)


def curve_val(ex, keyref):
    c = curveref(keyref)
    ex.assume(Or(*[cls_(c) == cls_id(n) for n in (K1, R1, OTHER)]))
    return VRef(c)


def pub_val(ex, ref):
    p = pubref(ref)
    ex.assume(And(cls_(p) == cls_id(PUBK), cls_(curveref(p)) == cls_(curveref(ref)),
                  order(curveref(p)) == order(curveref(ref))))
    v = VRef(p)
    ex.ref_cls[p.sexpr()] = PUBK
    return v


def raw_sign(ex, ref, msg, alg):
    """A signature by the key: r, s of some valid signature (both s and order - s are valid)."""
    r, s = ex.fresh('sig_r', Int_), ex.fresh('sig_s', Int_)
    n = order(curveref(ref))
    ex.assume(And(r >= 1, r < n, s >= 1, s < n))
    ex.assume(VERIFY(alg, pubref(ref), msg, r, s))
    ex.assume(VERIFY(alg, pubref(ref), msg, r, n - s))
    return r, s


def register(reg):
    reg.libs['dag_cbor.encode'] = cbor_encode
    reg.libs['dag_cbor.decode'] = cbor_decode
    H = 'cryptography.hazmat.primitives.hashes.'
    reg.libs[H + 'SHA256'] = lambda ex, a, kw: VOpq(SHA)
    reg.libs[EC + 'ECDSA'] = lambda ex, a, kw: VOpq(ECDSA(ex.want(a[0], 'VOpq')))

    def sign(ex, o, a, kw):
        r, s = raw_sign(ex, acc('VRef', 0, o), ex.want(a[0], 'VByt'), ex.want(a[1], 'VOpq'))
        return VByt(DER(r, s))

    def verify(ex, o, a, kw):
        d = ex.want(a[0], 'VByt')
        ok = And(ISDER(d), VERIFY(ex.want(a[2], 'VOpq'), acc('VRef', 0, o), ex.want(a[1], 'VByt'),
                                  DERR(d), DERS(d)))
        if not ex.branch(ok):
            ex.raise_('InvalidSignature')
        return VNone
    reg.libclasses[PRIV] = {
        'sign': sign, 'curve': ('attr', lambda ex, o: curve_val(ex, acc('VRef', 0, o))),
        'public_key': lambda ex, o, a, kw: pub_val(ex, acc('VRef', 0, o))}
    reg.libclasses[PUBK] = {
        'verify': verify, 'curve': ('attr', lambda ex, o: curve_val(ex, acc('VRef', 0, o)))}
    for n in (K1, R1, OTHER):
        reg.libclasses[n] = {'group_order': ('attr', lambda ex, o: VInt(order(acc(
            'VRef', 0, o))))}
        reg.libs[n] = lambda ex, a, kw, n=n: ex.new_ref(n)
    reg.libs[DSS + 'encode_dss_signature'] = lambda ex, a, kw: VByt(DER(ex.as_int(a[0]),
                                                                       ex.as_int(a[1])))

    def decode_dss(ex, a, kw):
        d = ex.want(a[0], 'VByt')
        if not (d.decl().eq(DER) or ex.branch(ISDER(d))):
            ex.raise_('ValueError')
        if d.decl().eq(DER):
            return PTuple([VInt(d.arg(0)), VInt(d.arg(1))])
        return PTuple([VInt(DERR(d)), VInt(DERS(d))])
    reg.libs[DSS + 'decode_dss_signature'] = decode_dss

    U = 'util.'
    reg.add(U + 'apply_low_s_mitigation', params={'signature': 'byt'}, returns='byt',
            setup=lambda ex, c: curve_param(ex, c, 'curve'),
            requires=lambda c: [('a DER signature', ISDER(c.byt('signature'))),
                                ('0 < s < order', And(
                                    DERS(c.byt('signature')) > 0,
                                    DERS(c.byt('signature')) < order(c.ref('curve'))))],
            ensures=lambda c, r: [
                ('r kept', And(ISDER(acc('VByt', 0, r)),
                               DERR(acc('VByt', 0, r)) == DERR(c.byt('signature')))),
                ('s or order - s', Or(
                    DERS(acc('VByt', 0, r)) == DERS(c.byt('signature')),
                    DERS(acc('VByt', 0, r)) == order(c.ref('curve')) -
                    DERS(c.byt('signature')))),
                ('low S', 2 * DERS(acc('VByt', 0, r)) <= order(c.ref('curve')))])

    def curve_param(ex, c, n):
        v = c.v(n)
        ex.assume(And(RECOG['VRef'](v), Or(*[cls_(acc('VRef', 0, v)) == cls_id(x)
                                            for x in (K1, R1, OTHER)])))
        ex.setcon(v, 'VRef')

    K = lambda c: c.ref('private_key')
    reg.add(U + 'sign', params={'obj': 'dict', 'private_key': 'ref:' + PRIV}, returns='dict',
            mutates=['obj'], result=lambda ex, c: c.vars['obj'],
            ensures=lambda c, r: [
                ('returns obj', r == c.v('obj')),
                ('obj could be encoded', CBOR_OK(c.oldv['obj'])),
                ('only sig is added or changed', c.map('obj') == mput(
                    acc('VDict', 0, c.oldv['obj']), vs('sig'), mget(c.map('obj'), vs('sig')))),
                ('sig is bytes', RECOG['VByt'](mget(c.map('obj'), vs('sig')))),
                ('sig is 64 bytes and low-S', low_s(sig_of(c), K(c))),
                ('sig covers all fields', valid(pubref(K(c)), ENC(c.oldv['obj']), sig_of(c))),
            ],
            raises=[('OverflowError', None, lambda c: [
                ('only on other curves', And(cls_(curveref(K(c))) != cls_id(K1),
                                             cls_(curveref(K(c))) != cls_id(R1)))]),
                ('ValueError', None, lambda c: [
                    ('only if obj cannot be encoded', Not(CBOR_OK(c.oldv['obj'])))])])

    def sig_of(c):
        return acc('VByt', 0, mget(c.map('obj'), vs('sig')))
    SIG = lambda c: mget(c.map('obj'), vs('sig'))
    unsigned = lambda c: VDict(mdel(c.map('obj'), vs('sig')))
    reg.add(U + 'verify_sig', params={'obj': 'dict', 'public_key': 'ref:' + PUBK},
            returns='bool',
            requires=lambda c: [('sig is bytes', Or(SIG(c) == VAbsent, RECOG['VByt'](SIG(c))))],
            ensures=lambda c, r: [
                ('exactly the valid 64-byte signatures of the unsigned object',
                 acc('VBool', 0, r) == valid(c.ref('public_key'), ENC(unsigned(c)),
                                             acc('VByt', 0, SIG(c))))],
            raises=[('KeyError', lambda c: SIG(c) == VAbsent),
                    ('ValueError', None, lambda c: [('only if not encodable',
                                                     Not(CBOR_OK(unsigned(c))))])])

    # JWTs
    def jwt_encode(ex, a, kw):
        data = ex.want(a[0], 'VDict') if not isinstance(a[0], Cont) else a[0].t
        key = a[1]
        if lit_of(ex.as_str(kw['algorithm'])) != 'ES256K':
            ex.unsupported('jwt algorithm')
        ref = ex.want(key, 'VRef')
        msg = JWTIN(data)
        r, s = raw_sign(ex, ref, UTF8(msg), ECDSA256)
        i2b = Function('i2b_big', Int_, Int_, Byt)
        p, q = i2b(r, IntVal(32)), i2b(s, IntVal(32))
        ex.assume(And(BYT.len_(p) == 32, BYT.len_(q) == 32, BI(p) == r, BI(q) == s))
        return VStr(STR.cat(msg, slit('.'), B64TXT(BYT.cat(p, q))))
    reg.libs['jwt.encode'] = jwt_encode

    def b64d(ex, a, kw):
        s = ex.as_str(a[0])
        if not ex.branch(IS_B64(s)):
            ex.raise_('ValueError')
        return VByt(UNB64(s))
    reg.libs['base64.urlsafe_b64decode'] = b64d
    reg.libs['base64.urlsafe_b64encode'] = lambda ex, a, kw: VByt(B64(ex.want(a[0], 'VByt')))
    IS_UTF8 = Function('is_utf8', Byt, Bool_)
    axiom('b64', 'base64 is text', FA([_b], And(IS_UTF8(B64(_b)), IS_UTF8(Function(
        'brstrip', Byt, Byt, Byt)(B64(_b), blit(b'=')))), B64(_b)))
    micros, dt_of, td_of, tdus, is_dt = reg.time
    reg.libs['webutil.util.now'] = lambda ex, a, kw: VOpq(dt_of(ex.fresh('now', Int_)))
    reg.val_methods[('VOpq', 'timestamp')] = lambda ex, o, a, kw: VReal(
        z3.ToReal(micros(acc('VOpq', 0, o))) / 1000000)
    P = lambda c: c.ref('privkey')
    data = Const('jwt_data', Map)
    sig = Const('jwt_sig', Byt)

    def jwt_setup(ex, c):
        td = Const('exp', Opq)
        c.vars['expiration'] = VOpq(td)

    def jwt_post(c, r):
        rs = acc('VStr', 0, r)
        ex = c.ex
        # the returned token is signing input . base64(signature)
        ws = ex.data.get('jwt_witness')
        parts = STR.parts(rs)
        inp, tail = RP[0](rs, slit('.')), RP[2](rs, slit('.'))
        sg = UNB64(STR.cat_(tail, REP(ord('='), (-STR.len_(tail)) % 4)))
        return [('signature is 64 bytes and low-S', low_s(sg, P(c))),
                ('signature is valid for the signing input',
                 valid(pubref(P(c)), UTF8(inp), sg))]
    reg.add(U + 'service_jwt', params={'host': 'str', 'repo_did': 'str',
                                       'privkey': 'ref:' + PRIV, 'aud': 'opt:str'},
            returns='str', setup=jwt_setup, ensures=jwt_post,
            requires=lambda c: [('a k256 key', cls_(curveref(P(c))) == cls_id(K1))],
            raises=[('AssertionError', None, lambda c: [('only for empty arguments', Or(
                STR.len_(c.s('host')) == 0, STR.len_(c.s('repo_did')) == 0))])])
