"""PLC operations and identifier resolution (arroba/did.py)."""
import z3
from theory import *
from values import *
from contract import fresh_of
from z3 import Select
from interp import simplify_get
from lib import UTF8, UNUTF8, REP, re_pred, SREPLACE as SREP
import c_crypto as K
import c_uri as URI
import c_did as D
from c_crypto import PRIV, PUBK, K1, EC, ENC, B64, B64TXT, CBOR_OK, valid, low_s, pubref, curveref
from c_did import sent_one, last_req, LOGS, GETS, POSTS, http, SHA256, B32, JSON, ANS, STATUS_OK, TEXT, RESP

g = lambda m, k: mget(m, vs(k))
dct = lambda v: acc('VDict', 0, v)
lst = lambda v: acc('VList', 0, v)
sv = lambda v: acc('VStr', 0, v)
ENV = Function('environ', Str, Val)
env = lambda n: acc('VStr', 0, ENV(slit(n)))
LOWER = Function('blower', Byt, Byt)
RSTRIP = Function('str_rstrip', Str, Str, Str)
HASH = 'cryptography.hazmat.primitives.hashes.Hash'
HSTATE = 'ghost.hash'
_b = Const('b', Byt)
IS_UTF8 = Function('is_utf8', Byt, Bool_)
axiom('b64', 'text without padding', FA([_b], RSTRIP(UNUTF8(B64(_b)), slit('=')) == B64TXT(_b),
                                        UNUTF8(B64(_b))))
axiom('b64', 'base32 is text', FA([_b], And(
    BYT.len_(B32(_b)) >= 24, IS_UTF8(LOWER(BYT.sub_(B32(_b), 0, 24)))), B32(_b)))
SIGOF = Function('unb64_unpadded', Str, Byt)
axiom('b64', 'decoding unpadded text', FA([_b], SIGOF(B64TXT(_b)) == _b, B64TXT(_b)))
_m, _s, _v = Const('m', Map), Const('s', Str), Const('v', Val)
axiom('cbor', 'a text or bytes field can be added', FA([_m, _s, _v], Implies(
    And(CBOR_OK(VDict(_m)), Or(RECOG['VStr'](_v), RECOG['VByt'](_v))),
    CBOR_OK(VDict(mput(_m, VStr(_s), _v)))), CBOR_OK(VDict(mput(_m, VStr(_s), _v)))))
HANDLE = Function('is_handle', Str, Bool_)
UNQ = Function('url_unquote', Str, Str)


def plc_url(did):
    return STR.cat(slit('https://'), env('PLC_HOST'), slit('/'), did)


def new_did(op):
    """the DID that a signed genesis operation (map) creates"""
    return STR.cat(slit('did:plc:'), UNUTF8(LOWER(BYT.sub_(B32(SHA256(ENC(VDict(op)))), 0, 24))))


def register(reg):
    reg.mutable_globals |= {HSTATE}
    reg.field_spec[HSTATE] = {'kind': 'byt'}
    reg.libs[HASH] = lambda ex, a, kw: mkhash(ex)

    def mkhash(ex):
        r = ex.new_ref(HASH)
        ex.heap_set(HSTATE, acc('VRef', 0, r), VByt(BYT.empty))
        return r

    def hupd(ex, o, a, kw):
        ref = acc('VRef', 0, o)
        cur = acc('VByt', 0, ex.heap_get(HSTATE, ref))
        ex.heap_set(HSTATE, ref, VByt(BYT.cat(cur, ex.want(a[0], 'VByt'))))
        return VNone
    reg.libclasses[HASH] = {
        'update': hupd, 'finalize': lambda ex, o, a, kw: VByt(SHA256(acc(
            'VByt', 0, ex.heap_get(HSTATE, acc('VRef', 0, o)))))}
    reg.libs['base64.b32encode'] = lambda ex, a, kw: VByt(B32(ex.want(a[0], 'VByt')))
    reg.val_methods[('VByt', 'lower')] = lambda ex, o, a, kw: VByt(LOWER(acc('VByt', 0, o)))
    reg.libs['urllib.parse.unquote'] = lambda ex, a, kw: VStr(UNQ(ex.as_str(a[0])))

    def newkey(ex, a, kw):
        r = ex.new_ref(PRIV)
        ex.assume(cls_(curveref(acc('VRef', 0, r))) == cls_id(K1))
        return r
    reg.libs[EC + 'generate_private_key'] = newkey
    reg.libs[EC + 'derive_private_key'] = newkey
    U = 'util.'
    k256 = lambda ref: cls_(curveref(ref)) == cls_id(K1)
    reg.add(U + 'new_key', params={'seed': 'opt:int'}, returns='ref:' + PRIV,
            ensures=lambda c, r: [('a k256 key', k256(acc('VRef', 0, r)))])

    W = 'did.'
    POSTLOG = [k for k in LOGS if k.startswith(POSTS)]
    GETLOG = [k for k in LOGS if k.startswith(GETS)]
    tupseq = lambda v: acc('VTup', 0, v)
    pdid = lambda r: ntf('did.DidPlc', 'did', r)
    given = lambda v: And(v != VNone, STR.len_(sv(v)) > 0)

    # -- signing and sending one operation
    def fields_ok(m):
        vm, s = g(m, 'verificationMethods'), g(m, 'services')
        return And(RECOG['VDict'](vm), RECOG['VStr'](g(dct(vm), 'atproto')),
                   RECOG['VDict'](s), RECOG['VDict'](g(dct(s), 'atproto_pds')),
                   g(dct(g(dct(s), 'atproto_pds')), 'endpoint') != VAbsent,
                   RECOG['VList'](g(m, 'alsoKnownAs')))

    def sent(c, m, didv, keyref, r):
        """The operation m was signed with the key and posted for the DID"""
        body = dct(last_req(c, POSTS, 'body'))
        txt = sv(g(body, 'sig'))
        sig = SIGOF(txt)
        return [
            ('one operation is posted', sent_one(c, POSTS)),
            ('it is the operation with a signature', And(
                RECOG['VDict'](last_req(c, POSTS, 'body')),
                body == mput(m, vs('sig'), g(body, 'sig')))),
            ('signature is base64 text', And(RECOG['VStr'](g(body, 'sig')),
                                             txt == B64TXT(sig))),
            ('signature is low-S', low_s(sig, keyref)),
            ('signed by the rotation key', valid(pubref(keyref), ENC(VDict(m)), sig)),
            ('posted to its DID', And(RECOG['VStr'](last_req(c, POSTS, 'url')), last_req(
                c, POSTS, 'url') == VStr(plc_url(sv(pdid(r)))))),
            ('an update keeps the DID', Implies(given(didv), pdid(r) == didv)),
            ('a new DID is the hash of the signed operation', Implies(
                Not(given(didv)), pdid(r) == VStr(new_did(body))))]

    OP = lambda c: c.map('op')
    oldop = lambda c: dct(c.oldv['op'])
    RK = lambda c: c.ref('rotation_key')
    posts = lambda ex, c: c.vars.__setitem__('post_fn', http(POSTS))

    def op_setup(ex, c):
        posts(ex, c)

    reg.add(W + 'write_plc_operation', setup=op_setup, mutates=['op'], modifies=POSTLOG,
            params={'op': 'dict', 'rotation_key': 'ref:' + PRIV, 'did': 'opt:str',
                    'post_fn': 'fn'},
            returns='nt:did.DidPlc',
            requires=lambda c: [('a PLC operation', fields_ok(OP(c))),
                                ('without an old signature', g(OP(c), 'sig') == VAbsent),
                                ('a k256 key', k256(RK(c)))],
            ensures=lambda c, r: sent(c, oldop(c), c.v('did'), RK(c), r) + [
                ('it returns the document', RECOG['VDict'](ntf('did.DidPlc', 'doc', r)))] + [
                ('document ' + n, f) for n, f in D.doc_of(
                    mput(oldop(c), vs('did'), pdid(r)), dct(ntf('did.DidPlc', 'doc', r)))] + [
                ('a DID', RECOG['VStr'](pdid(r)))],
            raises=[('ValueError', None, lambda c: [('only if op cannot be encoded',
                                                     Not(CBOR_OK(c.oldv['op'])))]),
                    ('KeyError', None, lambda c: [('only without a PLC host',
                                                   ENV(slit('PLC_HOST')) == VNone)]),
                    ('RequestException', None, lambda c: [('the operation was sent',
                                                           sent_one(c, POSTS))]),
                    ('HTTPError', None, lambda c: [('the operation was sent',
                                                    sent_one(c, POSTS))])])

    # -- building an operation
    keys = ['signing_key', 'rotation_key', 'new_rotation_key']

    def any_key(ex, name, only=None):
        k = ex.choose(2 if only == PRIV else 3)
        if k == 0:
            return VNone
        return fresh_key(ex, name, PRIV if k == 1 else PUBK)

    def fresh_key(ex, name, cn):
        v = fresh_of(ex, 'ref:' + cn, name)
        ex.assume(v.arg(0) <= 0)
        ex.assume(Or(*[cls_(curveref(v.arg(0))) == cls_id(x) for x in (K1, K.R1, K.OTHER)]))
        ex.assume(Or(*[cls_(curveref(pubref(v.arg(0)))) == cls_id(x)
                       for x in (K1, K.R1, K.OTHER)]))
        ex.assume(cls_(curveref(pubref(v.arg(0)))) == cls_(curveref(v.arg(0))))
        return v

    def pub(v):
        """public key of a key value"""
        r = acc('VRef', 0, v)
        return If(cls_(r) == cls_id(PRIV), pubref(r), r)
    isstr = lambda v: Or(v == VNone, RECOG['VStr'](v))

    def aka_list(v):
        return If(RECOG['VStr'](v), If(STR.len_(sv(v)) == 0, SEQ.empty, SEQ.unit_(v)),
                  If(RECOG['VList'](v), lst(v), If(RECOG['VTup'](v), tupseq(v), SEQ.empty)))

    def built(c, m, vals, r):
        """m is the operation for these arguments; r the returned DidPlc"""
        rk = lambda: If(vals['new_rotation_key'] != VNone, vals['new_rotation_key'],
                        ntf('did.DidPlc', 'rotation_key', r))
        sk = ntf('did.DidPlc', 'signing_key', r)
        rr = ntf('did.DidPlc', 'rotation_key', r)
        pds = If(given(vals['pds_url']), sv(vals['pds_url']),
                 STR.cat(slit('https://'), env('PDS_HOST')))
        one = lambda v, x: lst(v) == SEQ.unit_(x)
        return [
            ('type', g(m, 'type') == vs('plc_operation')),
            ('rotation key', And(RECOG['VList'](g(m, 'rotationKeys')),
                                 one(g(m, 'rotationKeys'), VStr(D.didkey(pub(rk())))))),
            ('signing key', g(dct(g(m, 'verificationMethods')), 'atproto') ==
             VStr(D.didkey(pub(sk)))),
            ('handle and aliases', g(m, 'alsoKnownAs') == VList(SEQ.cat(
                SEQ.unit(VStr(STR.cat(slit('at://'), sv(vals['handle'])))),
                aka_list(vals['also_known_as'])))),
            ('PDS', g(dct(g(dct(g(m, 'services')), 'atproto_pds')), 'endpoint') == VStr(pds)),
            ('linked to prev', g(m, 'prev') == vals['prev']),
            ('given signing key is used', Implies(vals['signing_key'] != VNone,
                                                  sk == vals['signing_key'])),
            ('given rotation key is used', Implies(vals['rotation_key'] != VNone,
                                                   rr == vals['rotation_key']))]
    names = keys + ['did', 'handle', 'pds_url', 'also_known_as', 'prev']

    def plc_setup(ex, c):
        posts(ex, c)
        c.vars['get_fn'] = http(GETS)
        for n in keys:
            c.vars[n] = any_key(ex, n, PRIV if n == 'rotation_key' else None)

    def plc_post(c, r):
        m = mdel(dct(last_req(c, POSTS, 'body')), vs('sig'))
        vals = {n: c.v(n) for n in names}
        rr = acc('VRef', 0, ntf('did.DidPlc', 'rotation_key', r))
        return sent(c, m, c.v('did'), rr, r) + built(c, m, vals, r) + [
            ('a valid handle', And(RECOG['VStr'](c.v('handle')), STR.len_(c.s('handle')) > 0)),
            ('a rotation key', And(RECOG['VRef'](ntf('did.DidPlc', 'rotation_key', r)),
                                   cls_(rr) == cls_id(PRIV)))] + [
            ('document ' + n, f) for n, f in D.doc_of(
                mput(m, vs('did'), pdid(r)), dct(ntf('did.DidPlc', 'doc', r)))] + [
            ('a DID', RECOG['VStr'](pdid(r)))]
    nothing = lambda c: [('nothing was sent', c.h(POSTS) == c.old(POSTS))]
    plc_raises = [('ValueError', None, None), ('AssertionError', None, nothing),
                  ('KeyError', None, None), ('AttributeError', None, nothing),
                  ('RequestException', None, None), ('HTTPError', None, None)]
    # a signature covers the operation as sent minus sig
    reg.add(W + 'write_plc', setup=plc_setup, modifies=POSTLOG,
            params={'did': 'opt:str', 'handle': 'any', 'pds_url': 'opt:str',
                    'also_known_as': 'any', 'prev': 'opt:str', 'get_fn': 'fn',
                    'post_fn': 'fn', 'signing_key': 'any', 'rotation_key': 'any',
                    'new_rotation_key': 'any'},
            returns='nt:did.DidPlc',
            requires=lambda c: [
                ('aliases', Or(c.v('also_known_as') == VNone, *[
                    RECOG[n](c.v('also_known_as')) for n in ('VStr', 'VList', 'VTup')])),
                ] + [(n + ' is a key', Or(c.v(n) == VNone, And(RECOG['VRef'](c.v(n)), Or(
                    cls_(acc('VRef', 0, c.v(n))) == cls_id(PRIV),
                    BoolVal(n != 'rotation_key'))))) for n in keys],
            ensures=plc_post, raises=plc_raises)


    # -- audit logs
    def entry_ok(x, i):
        """Trusted: the directory's audit logs are lists of well-formed entries"""
        op = dct(g(dct(x), 'operation'))
        return And(RECOG['VDict'](x), RECOG['VDict'](g(dct(x), 'operation')),
                   RECOG['VStr'](g(dct(x), 'cid')), RECOG['VStr'](g(dct(x), 'did')),
                   fields_ok(op), RECOG['VList'](g(op, 'rotationKeys')),
                   SEQ.len_(lst(g(op, 'alsoKnownAs'))) > 0,
                   RECOG['VStr'](SEQ.at_(lst(g(op, 'alsoKnownAs')), 0)),
                   )
    audit_url = lambda d: STR.cat(plc_url(d), slit('/log/audit'))
    resp = lambda c: acc('VRef', 0, last_req(c, GETS, 'resp'))
    LOG = lambda c: lst(JSON(ANS(resp(c))))
    asked = lambda c, url: [
        ('one request is made', sent_one(c, GETS)),
        ('to the right URL', last_req(c, GETS, 'url') == VStr(url))]
    KW = {}

    def sym_key(ex, name):
        v = ex.fresh(name)
        r = acc('VRef', 0, v)
        cl = [PRIV] if name == 'rotation_key' else [PRIV, PUBK]
        ex.assume(Or(v == VNone, And(RECOG['VRef'](v), r <= 0, Or(*[
            cls_(r) == cls_id(n) for n in cl]))))
        return v

    def kwarg(c, kw, n):
        v = simplify_get(c.ex, kw, vs(n))
        return VNone if v.eq(VAbsent) else v

    def upd_setup(ex, c):
        posts(ex, c)
        c.vars['get_fn'] = http(GETS)
        ex.data['json_elem'], ex.data['json_list'] = entry_ok, True
        m = mempty
        if ex.choose(3) != 2:
            for n in ('signing_key', 'rotation_key'):
                v = sym_key(ex, n)
                m = mput(m, vs(n), v)
        k = ex.choose(3)
        if k:
            v = ex.fresh('also_known_as')
            ex.assume(Or(v == VNone, *[RECOG[n](v) for n in ('VStr', 'VList', 'VTup')]))
            m = mput(m, vs('also_known_as'), v)
        if k == 2:
            m = mput(m, vs('new_rotation_key'), sym_key(ex, 'new_rotation_key'))
            v = ex.fresh('pds_url')
            ex.assume(isstr(v))
            m = mput(m, vs('pds_url'), v)
        c.vars['kwargs'] = Cont(ex, 'dict', m)
        c.kw0 = m
        ex.data['kw0'] = m

    def upd_post(c, r):
        kw = c.ex.data['kw0']
        lastop = SEQ.at_(LOG(c), SEQ.len_(LOG(c)) - 1)
        aka = lst(g(dct(g(dct(lastop), 'operation')), 'alsoKnownAs'))
        h = If(And(RECOG['VStr'](c.v('handle')), STR.len_(c.s('handle')) > 0), c.s('handle'),
               D.REMP(sv(SEQ.at_(aka, 0)), slit('at://')))
        arg = lambda n: kwarg(c, kw, n)
        rest = simplify_get(c.ex, kw, vs('also_known_as'))
        if rest.eq(VAbsent):
            rest = VList(SEQ.sub_(aka, 1, SEQ.len_(aka)))
        vals = dict(new_rotation_key=arg('new_rotation_key'), signing_key=arg('signing_key'),
                    rotation_key=arg('rotation_key'), pds_url=arg('pds_url'), handle=VStr(h),
                    also_known_as=rest, prev=g(dct(lastop), 'cid'))
        m = mdel(dct(last_req(c, POSTS, 'body')), vs('sig'))
        rr = acc('VRef', 0, ntf('did.DidPlc', 'rotation_key', r))
        return asked(c, audit_url(c.s('did'))) + sent(c, m, c.v('did'), rr, r) + built(
            c, m, vals, r)
    reg.add(W + 'update_plc', setup=upd_setup, modifies=LOGS,
            params={'did': 'str', 'handle': 'opt:str', 'get_fn': 'fn'},
            requires=lambda c: [('a DID', STR.len_(c.s('did')) > 0)],
            ensures=upd_post,
            raises=[('AssertionError', None, nothing), ('ValueError', None, None),
                    ('KeyError', None, None), ('IndexError', None, nothing),
                    ('AttributeError', None, nothing), ('RequestException', None, None)])

    def roll_setup(ex, c):
        posts(ex, c)
        c.vars['get_fn'] = http(GETS)
        ex.data['json_elem'], ex.data['json_list'] = entry_ok, True
    i = Int('irk')
    kk = Const('kk', Val)

    def roll_post(c, r):
        n = SEQ.len_(LOG(c))
        lastop = dct(g(dct(SEQ.at_(LOG(c), n - 1)), 'operation'))
        target = dct(SEQ.at_(LOG(c), n - 1 - c.i('num_operations')))
        keys = lst(g(lastop, 'rotationKeys'))
        body = dct(last_req(c, POSTS, 'body'))
        m = mdel(body, vs('sig'))
        txt = sv(g(body, 'sig'))
        ref = c.ref('rotation_key')
        return asked(c, audit_url(c.s('did'))) + [
            ('the log is long enough', n >= c.i('num_operations') + 1),
            ('the key is a current rotation key', Not(FA([i], Implies(
                And(0 <= i, i < SEQ.len_(keys)), SEQ.at_(keys, i) != VStr(D.didkey(
                    pubref(ref)))), SEQ.at_(keys, i)))),
            ('the target is for this DID', g(target, 'did') == c.v('did')),
            ('one operation is posted', sent_one(c, POSTS)),
            ('posted to the DID', last_req(c, POSTS, 'url') == VStr(plc_url(c.s('did')))),
            ('it is a dict', RECOG['VDict'](last_req(c, POSTS, 'body'))),
            ('linked to the latest operation', g(body, 'prev') == g(dct(SEQ.at_(
                LOG(c), n - 1)), 'cid')),
            ('it is the target operation', FA([kk], Implies(
                And(kk != vs('sig'), kk != vs('prev')),
                mget(body, kk) == mget(dct(g(target, 'operation')), kk)), mget(body, kk))),
            ('signed by the rotation key', And(txt == B64TXT(SIGOF(txt)), valid(
                pubref(ref), ENC(VDict(m)), SIGOF(txt)), low_s(SIGOF(txt), ref)))]
    reg.add(W + 'rollback_plc', setup=roll_setup, modifies=LOGS,
            params={'did': 'str', 'rotation_key': 'ref:' + PRIV, 'num_operations': 'int',
                    'get_fn': 'fn', 'post_fn': 'fn'}, returns='none',
            requires=lambda c: [('a DID', STR.len_(c.s('did')) > 0),
                                ('a k256 key', k256(c.ref('rotation_key'))),
                                ('0 or more operations', c.i('num_operations') >= 0)],
            ensures=roll_post,
            raises=[('AssertionError', None, nothing), ('ValueError', None, None),
                    ('KeyError', None, None), ('RequestException', None, None)])

    # -- resolution
    def get_setup(ex, c):
        c.vars['get_fn'] = http(GETS)
    none_asked = lambda c: [('nothing is fetched', c.h(GETS) == c.old(GETS))]
    asked_at = lambda url: lambda c: asked(c, url(c))
    answer = lambda c: JSON(ANS(resp(c)))
    METHOD = {'resolve_plc': 'did:plc:', 'resolve_web': 'did:web:'}

    def web_url(c):
        rest = D.REMP(c.s('did'), slit('did:web:'))
        colon = Function('strin', Str, Str, Bool_)(slit(':'), rest)
        return STR.cat(slit('https://'), UNQ(If(colon, SREP(rest, slit(':'), slit('/')),
                                               STR.cat(rest, slit('/.well-known')))),
                       slit('/did.json'))
    for fn, url in (('resolve_plc', lambda c: plc_url(c.s('did'))), ('resolve_web', web_url)):
        pre = slit(METHOD[fn])
        good = lambda c, pre=pre: And(RECOG['VStr'](c.v('did')), startswith(c.s('did'), pre))
        reg.add(W + fn, setup=get_setup, modifies=GETLOG, returns='any',
                params={'did': 'any', 'get_fn': 'fn'},
                ensures=lambda c, r, good=good, url=url: [
                    ('only for this method', good(c))] + asked(c, url(c)) + [
                    ('the document fetched', r == answer(c)),
                    ('from a successful response', STATUS_OK(ANS(resp(c))))],
                raises=[('ValueError', None, lambda c, good=good, url=url: [
                    ('refused without a request, or a bad response', Or(And(
                        c.h(GETS) == c.old(GETS), Not(good(c))), And(good(c), *[
                            f for _, f in asked(c, url(c))])))]),
                    ('RequestException', None, lambda c, good=good, url=url: [
                        ('only for this method', good(c))] + asked(c, url(c))),
                    ('KeyError', None, lambda c: none_asked(c))])

    def res_setup(ex, c):
        c.vars['kwargs'] = Cont(ex, 'dict', mempty)
    isdid = lambda c: Or(*[And(RECOG['VStr'](c.v('did')), startswith(c.s('did'), slit(
        METHOD[k]))) for k in METHOD])
    reg.add(W + 'resolve', setup=res_setup, modifies=GETLOG, returns='any',
            params={'did': 'opt:str'},
            ensures=lambda c, r: [
                ('a did:plc or did:web', isdid(c)), ('one request is made', sent_one(c, GETS)),
                ('the URL of its method', last_req(c, GETS, 'url') == VStr(If(
                    startswith(c.s('did'), slit('did:plc:')), plc_url(c.s('did')),
                    web_url(c)))),
                ('the document fetched', r == answer(c))],
            raises=[('ValueError', None, lambda c: [
                ('nothing is fetched for anything else', Or(isdid(c), c.h(GETS) ==
                                                            c.old(GETS)))]),
                    ('RequestException', None, None), ('KeyError', None, None)])

    # -- handles
    DNS = 'ghost.dns'
    reg.mutable_globals |= {DNS, DNS + '.name'}
    reg.field_spec[DNS] = {'kind': 'int'}
    ANSWER = 'dns.resolver.Answer'
    RDATA = Function('dns_rdata', Int_, Seq)
    CANON = Function('dns_canonical', Int_, Str)
    RTXT = Function('rdata_text', Opq, Str)
    RTYPE = Function('rdata_type', Opq, Int_)
    reg.libattrs['dns.rdatatype.TXT'] = VInt(IntVal(16))

    def dns_resolve(ex, a, kw):
        n = acc('VInt', 0, ex.heap_get(DNS, IntVal(0)))
        ex.heap_set(DNS, IntVal(0), VInt(n + 1))
        ex.heap_set(DNS + '.name', n, VStr(ex.as_str(a[0])))
        if ex.tov(a[1]).eq(VInt(IntVal(16))) is False:
            ex.unsupported('DNS record type')
        if ex.choose(2) == 1:
            ex.raise_('DNSException')
        r = ex.new_ref(ANSWER)
        ex.elem_fact(RDATA(acc('VRef', 0, r)), lambda x, i: RECOG['VOpq'](x))
        return r
    reg.libs['dns.resolver.resolve'] = dns_resolve
    NAME = 'dns.name.Name'

    def canon(ex, o):
        return VOpq(Function('dnsname', Int_, Opq)(acc('VRef', 0, o)))
    reg.libclasses[ANSWER] = {
        'canonical_name': ('attr', canon), 'response': ('attr', lambda ex, o: VNone),
        '__seq__': lambda ex, o: RDATA(acc('VRef', 0, o))}
    reg.val_methods[('VOpq', 'to_text')] = lambda ex, o, a, kw: VStr(RTXT(acc('VOpq', 0, o)))
    reg.val_methods[('VOpq', 'rdtype')] = ('attr', lambda ex, o: VInt(RTYPE(acc('VOpq', 0, o))))
    HRE = re_pred('fullmatch', r'^([a-zA-Z0-9]([a-zA-Z0-9-]{0,61}[a-zA-Z0-9])?\.)+[a-zA-Z]'
                               r'([a-zA-Z0-9-]{0,61}[a-zA-Z0-9])?$')
    handle_ok = lambda c: And(RECOG['VStr'](c.v('handle')), STR.len_(c.s('handle')) > 0,
                              HRE(c.s('handle')))
    x = Const('xt', Str)
    STRIP2 = Function('str_strip', Str, Str, Str)
    quoted = STRIP2(x, slit('"'))
    axiom('str', 'a quoted did= text', FA([x], Implies(startswith(x, slit('"did=did:')),
          startswith(D.REMP(quoted, slit('did=')), slit('did:'))), quoted))
    wk = lambda c: STR.cat(slit('https://'), c.s('handle'), slit('/.well-known/atproto-did'))
    dns_n = lambda c: acc('VInt', 0, c.old(DNS))
    ri = Int('ri')

    def handle_post(c, r):
        name = STR.cat(slit('_atproto.'), c.s('handle'), slit('.'))
        return [
            ('only for a valid handle', handle_ok(c)),
            ('only this handle in DNS', Or(c.h(DNS) == c.old(DNS), And(
                c.h(DNS) == VInt(dns_n(c) + 1),
                Select(c.h_arr(DNS + '.name'), dns_n(c)) == VStr(name)))),
            ('DNS is asked', c.h(DNS) != c.old(DNS)),
            ('only its well-known URL', Or(c.h(GETS) == c.old(GETS), And(*[
                f for _, f in asked(c, wk(c))]))),
            ('nothing or a DID', Or(r == VNone, And(RECOG['VStr'](r), startswith(
                sv(r), slit('did:'))))),
            ('the well-known URL is only asked after DNS gave nothing', Implies(
                c.h(GETS) == c.old(GETS), r != VNone)),
            ('the body of its well-known URL', Implies(
                And(c.h(GETS) != c.old(GETS), r != VNone), And(
                    STATUS_OK(ANS(resp(c))), sv(r) == Function('str_strip', Str, Str)(
                        TEXT(ANS(resp(c)))))))]
    reg.add(W + 'resolve_handle', setup=get_setup, modifies=GETLOG + [DNS, DNS + '.name'],
            params={'handle': 'any', 'get_fn': 'fn'}, ensures=handle_post, returns='opt:str',
            raises=[('ValueError', lambda c: Not(handle_ok(c)), lambda c: none_asked(c) + [
                ('no DNS query', c.h(DNS) == c.old(DNS))])])

    def create_setup(ex, c):
        m = mempty
        k = ex.choose(4)
        if k == 3:
            v = ex.fresh('extra')
            ex.assume(v != VAbsent)
            m = mput(m, vs(['did', 'prev'][ex.choose(2)]), v)
        if k in (1, 2):
            for n in ('signing_key', 'rotation_key'):
                m = mput(m, vs(n), sym_key(ex, n))
        if k == 2:
            v = ex.fresh('also_known_as')
            ex.assume(Or(v == VNone, *[RECOG[n](v) for n in ('VStr', 'VList', 'VTup')]))
            m = mput(m, vs('also_known_as'), v)
            m = mput(m, vs('new_rotation_key'), sym_key(ex, 'new_rotation_key'))
            v = ex.fresh('pds_url')
            ex.assume(isstr(v))
            m = mput(m, vs('pds_url'), v)
        c.vars['kwargs'] = Cont(ex, 'dict', m)
        ex.data['kw0'] = m

    def create_post(c, r):
        kw = c.ex.data['kw0']
        arg = lambda n: kwarg(c, kw, n)
        vals = {n: arg(n) for n in ('new_rotation_key', 'signing_key', 'rotation_key', 'pds_url',
                                    'also_known_as')}
        vals.update(handle=c.v('handle'), prev=VNone)
        m = mdel(dct(last_req(c, POSTS, 'body')), vs('sig'))
        rr = acc('VRef', 0, ntf('did.DidPlc', 'rotation_key', r))
        return sent(c, m, VNone, rr, r) + built(c, m, vals, r) + [
            ('no DID or previous operation given', And(g(kw, 'did') == VAbsent,
                                                       g(kw, 'prev') == VAbsent))]
    reg.add(W + 'create_plc', setup=create_setup, modifies=POSTLOG, params={'handle': 'any'},
            ensures=create_post, raises=plc_raises)
