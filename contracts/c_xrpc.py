"""XRPC methods (arroba/server.py, xrpc_repo.py, xrpc_server.py, xrpc_sync.py), over one
in-memory storage, the module global server.storage."""
import z3
from theory import *
from values import *
from lib import setof, CIDSTR
from z3 import Select
from c_crypto import PRIV, PUBK, K1, R1, curveref, ENC, DEC, CBOR_OK, IS_CBOR, valid
from c_storage import (MEM, BLK, REPO, ST, STSEQ, SEQF, SEQS, REPOSF, BLOCKSF, NSID, bcid, bdec, rv,
                       dv, lv, iv, sv, g, View, is_block, BF, RF, HASHC, repo_did, head_ok, truthy,
                       CALLS, CALLF, is_repo)
from c_mst import MST, MF, ents, stg, cidm, tget, VALIDKEY, top, closed
from c_commit import WR, AG, OPS, wf_, path, newcid, is_act
from c_uri import NETLOC, AT, okp, uri

_k, _k2 = Consts('k k2', Val)
_s = Const('s', Str)
_m, _o, _i, _j = Ints('m o i j')
GST = Int('server_storage')
HEADER = Function('request_header', Str, Val)
ENVIRON = Function('environ', Str, Val)
ATJ = Function('json_of', Val, Val)         # what a JSON object renders, as DAG-JSON
AUTHED = And(truthy(ENVIRON(slit('REPO_TOKEN'))), HEADER(slit('Authorization')) == VStr(
    STR.cat(slit('Bearer '), sv(ENVIRON(slit('REPO_TOKEN'))))))
CBLK = Function('carblock', Cid, Byt, Opq)
CBCID, CBDATA = Function('carblock_cid', Opq, Cid), Function('carblock_data', Opq, Byt)
CARW = Function('car', Seq, Seq, Byt)
CARROOTS, CARBLKS = Function('car_roots', Byt, Seq), Function('car_blocks', Byt, Seq)
_c, _b, _q, _q2, _w = Const('c', Cid), Const('b', Byt), Const('q', Seq), Const('q2', Seq), Const('w', Val)
axiom('server', 'server.storage is an in-memory storage', And(GST < 0, cls_(GST) == cls_id(MEM)))
axiom('car', 'CAR blocks', FA([_c, _b], And(CBCID(CBLK(_c, _b)) == _c, CBDATA(CBLK(
    _c, _b)) == _b), CBLK(_c, _b)))
axiom('car', 'CAR round trip', FA([_q, _q2], And(CARROOTS(CARW(_q, _q2)) == _q, CARBLKS(CARW(
    _q, _q2)) == _q2), CARW(_q, _q2)))
_one = SEQ.unit_(_w)
axiom('commit', 'one write: the tree', FA([_m, _w, _s], AG(_m, _one, 1, _s) == If(
    _s == path(_w), If(is_act(_w, 'DELETE'), VNone, newcid(_w)), tget(_m, _s)),
    AG(_m, _one, 1, _s)))
axiom('mst', 'paths have two parts', FA([_s, _t := Const('t', Str)], Implies(
    VALIDKEY(STR.cat_(_s, STR.cat_(slit('/'), _t))), And(STR.len_(_s) > 0, STR.len_(_t) > 0)),
    VALIDKEY(STR.cat_(_s, STR.cat_(slit('/'), _t)))))


class SV(View):
    def st(self):
        return GST


def register(reg):
    v = SV
    T, F = VBool(BoolVal(True)), VBool(BoolVal(False))

    def storage(ex):
        ex.ref_cls[GST.sexpr()] = MEM
        return VRef(GST)
    reg.globals['server.storage'] = storage
    reg.globals['xrpc_repo.SUPPORTED_COLLECTIONS'] = lambda ex: Cont(
        ex, 'set', Const('SUPPORTED_COLLECTIONS', Map), frozen='module constant')

    def header(ex, a, kw):
        h = HEADER(ex.as_str(a[0]))
        ex.assume(Or(h == VNone, RECOG['VStr'](h)))
        if len(a) > 1:
            return ex.tov(a[1]) if ex.branch(h == VNone) else h
        return h
    reg.libs['flask.request.headers.get'] = header

    # -- CARs and JSON
    def cblock(ex, a, kw):
        names = ('cid', 'data', 'decoded')
        p = dict(zip(names, a), **kw)
        p = {k: x for k, x in p.items() if not (isinstance(x, ExprRef) and x.eq(VNone))}
        if 'data' in p:
            d = ex.want(p['data'], 'VByt')
            if 'cid' not in p and not ex.branch(BYT.len_(d) > 0):
                ex.raise_('AssertionError')
        else:
            x = ex.peek(p['decoded'])
            if not ex.branch(CBOR_OK(x)):
                ex.raise_('ValueError')
            d = ENC(x)
        k = ex.want(p['cid'], 'VCid') if 'cid' in p else HASHC(d)
        return VOpq(CBLK(k, d))
    reg.libs['carbox.car.Block'] = reg.libs['carbox.Block'] = cblock
    o_ = lambda o: acc('VOpq', 0, o)
    reg.val_methods[('VOpq', 'cid')] = ('attr', lambda ex, o: VCid(CBCID(o_(o))))
    reg.val_methods[('VOpq', 'data')] = ('attr', lambda ex, o: VByt(CBDATA(o_(o))))

    def decoded(ex, o):
        if not ex.branch(IS_CBOR(CBDATA(o_(o)))):
            ex.raise_('ValueError')
        return ex.unobj(DEC(CBDATA(o_(o))))
    reg.val_methods[('VOpq', 'decoded')] = ('attr', decoded)

    def write_car(ex, a, kw):
        return VByt(CARW(ex.seq_of(a[0]), ex.seq_of(a[1])))
    reg.libs['carbox.car.write_car'] = reg.libs['carbox.write_car'] = write_car

    def dag_json(ex, a, kw):
        if lit_of(ex.as_str(kw.get('dialect', vs('')))) != 'atproto':
            ex.unsupported('dag_json dialect')
        r = ex.fresh('json')
        ex.assume(ATJ(r) == ex.peek(a[0]))
        ex.data.setdefault('json', {})[r.sexpr()] = r
        return VByt(Function('json_bytes', Val, Byt)(r))
    reg.libs['dag_json.encode'] = dag_json

    def loads(ex, a, kw):
        b = ex.want(a[0], 'VByt')
        if b.decl().name() != 'json_bytes':
            ex.unsupported('json.loads')
        return b.arg(0)
    reg.libs['json.loads'] = loads

    # -- the gate
    noauth = Not(truthy(ENVIRON(slit('REPO_TOKEN'))))
    reg.add('server.auth', returns='any', raises=[
        ('NotImplementedError', lambda c: noauth),
        ('ValueError', lambda c: And(Not(noauth), Not(AUTHED)))],
        ensures=lambda c, r: [('only with the configured token', AUTHED)])

    # -- looking up repos
    def target(x):
        return If(startswith(x, AT), NETLOC(x), x)

    def matches(c, k, t, old=False):
        """the repo stored as k has this DID or handle"""
        e = mget(v(c).repos(old), k)
        hs = (c.oldarr if old else c.h_arr)(RF('handle'))
        return And(e != VAbsent, Or(k == VStr(t), Select(hs, rv(e)) == VStr(t)))

    def named(c, name, t):
        if name not in c.g:
            c.g[name] = c.ex.fresh(name, t.sort())
            c.ex.assume(c.g[name] == t)
        return c.g[name]
    e = lambda c, old=False: mget(v(c).repos(old), _k)
    status = lambda c, x: Select(c.h_arr(RF('status')), rv(x))
    TG = lambda c: named(c, 'target', target(c.s('did_or_at_uri')))
    okr = lambda c: [('stored repos', v(c).repos_ok())]
    none_ = lambda c, t: FA([_k], Not(matches(c, _k, t)), e(c))
    inactive = lambda c, t: Not(FA([_k], Not(And(matches(c, _k, t), truthy(status(c, e(c))))), e(c)))
    # parse_at_uri: its first part
    pau = reg.contracts['util.parse_at_uri']
    old = pau.ensures
    pau.ensures = lambda c, r: old(c, r) + [
        ('the authority', SEQ.at_(acc('VTup', 0, r), 0) == VStr(NETLOC(sv(c.v('uri')))))]
    reg.add('server.load_repo', params={'did_or_at_uri': 'str'}, returns='ref:' + REPO,
            requires=okr, ensures=lambda c, r: [
                ('a stored repo', And(is_repo(r), c.h(RF('head'), rv(r)) != VNone, mget(
                    v(c).repos(), repo_did(c.h(RF('head'), rv(r)))) == r)),
                ('with that DID or handle', matches(c, repo_did(c.h(RF('head'), rv(r))), TG(c))),
                ('which is active', Not(truthy(status(c, r)))),
                ('and has a commit', head_ok(c.h(RF('head'), rv(r))))],
            raises=[
                ('XrpcError', None, lambda c: [('only if no repo has that DID or handle', none_(
                    c, TG(c)))], {'name': vs('RepoNotFound')}),
                ('XrpcError', None, lambda c: [('only if one with it is inactive', inactive(
                    c, TG(c)))], {'name': vs('RepoDeactivated')}),
                ('ValueError', None, lambda c: [('only for a malformed at:// URI', And(startswith(
                    c.s('did_or_at_uri'), AT), FA([_s], Implies(okp(_s), c.s(
                        'did_or_at_uri') != STR.cat_(AT, _s)), STR.cat_(AT, _s))))]),
                ('AssertionError', None, lambda c: [('only for an empty one', STR.len_(
                    TG(c)) == 0)])])

    def record_at(view, cid):
        b = mget(view.blocks(), cid)
        d = bdec(rv(b))
        return And(b != VAbsent, RECOG['VDict'](d), SEQ.len_(mkeys(dv(d))) > 0)
    rkey_ = lambda c: STR.cat(c.s('collection'), slit('/'), c.s('rkey'))
    rm = lambda c: c.h(RF('mst'), c.ref('self'))
    rst = lambda c: View(c)
    reg.add(REPO + '.get_record', params={'self': 'ref:' + REPO, 'collection': 'str',
                                          'rkey': 'str'}, returns='any', requires=lambda c: [
        ('its tree', And(RECOG['VRef'](rm(c)), top(c, rv(rm(c))))),
        ('its storage', c.h(RF('storage'), c.ref('self')) == VRef(GST)),
        ('stored blocks', v(c).blocks_ok()),
        ('that record is stored', Or(tget(rv(rm(c)), rkey_(c)) == VNone, record_at(v(c), tget(
            rv(rm(c)), rkey_(c)))))],
        ensures=lambda c, r: [('the record at that path, or None', r == If(
            tget(rv(rm(c)), rkey_(c)) == VNone, VNone, bdec(rv(mget(v(c).blocks(), tget(
                rv(rm(c)), rkey_(c)))))))])

    # -- what the methods below take for granted about the storage
    def state(c):
        h = lambda f, r: Select(c.h_arr(RF(f)), r)
        x = e(c)
        r = rv(x)
        mm = rv(h('mst', r))
        st = c.h(RF('storage'), _o)
        per = {'trees': And(RECOG['VRef'](h('mst', r)), top(c, mm), stg(mm) == GST),
               'keys': Or(*[cls_(curveref(rv(h('signing_key', r)))) == cls_id(n)
                            for n in (K1, R1)]),
               'callbacks': Or(h('callback', r) == VNone, RECOG['VOpq'](h('callback', r))),
               'storage': h('storage', r) == VRef(GST)}
        per['DIDs'] = And(RECOG['VStr'](_k), STR.len_(sv(_k)) > 0)
        x2 = mget(v(c).repos(), _k2)
        return [('stored blocks', v(c).blocks_ok()), ('stored repos', v(c).repos_ok()),
                ('stored nodes are complete', closed(v(c).blocks())),
                ('call log', RECOG['VInt'](c.h(CALLS))),
                ('numbers are below 2**55', v(c).next() < 2**55 - 1)] + [
            (f"stored repos' {n}", FA([_k], Implies(x != VAbsent, f), x)) for n, f in per.items()
        ] + [('no handle is the DID of a stored repo', FA([_k, _k2], Implies(
                And(x != VAbsent, x2 != VAbsent), h('handle', r) != _k2), [x, x2])),
             ('records are stored', FA([_k, _s], Implies(And(x != VAbsent, tget(
                 mm, _s) != VNone), record_at(v(c), tget(mm, _s))), [x, tget(mm, _s)]))]

    def one_match(c, t):
        return [('handles are unique', FA([_k, _k2], Implies(And(matches(c, _k, t), matches(
            c, _k2, t)), _k == _k2), [mget(v(c).repos(), _k), mget(v(c).repos(), _k2)]))]
    inp = lambda c, k: g(c.map('input'), k)
    opt_str = lambda x: Or(x == VAbsent, RECOG['VStr'](x))
    RP = lambda c: target(sv(inp(c, 'repo')))
    named_rp = lambda c: named(c, 'target', RP(c))

    def input_ok(*names):
        return lambda c: [(f'{n} is a string', RECOG['VStr'](inp(c, n)) if n != 'repo' else
                           opt_str(inp(c, n))) for n in names]

    def record_ok(c):
        x = inp(c, 'record')
        return [('record is an object', And(RECOG['VDict'](x), SEQ.len_(mkeys(dv(x))) > 0))]
    KEYS = [BLOCKSF, REPOSF, RF('head'), RF('mst'), SEQF, CALLS]

    def same_state(c):
        return [('no block was added', v(c).blocks() == v(c).blocks(True)),
                ('stored repos are the same', v(c).repos() == v(c).repos(True))] + [
            (f'no repo has another {f}', c.h_arr(RF(f)) == c.oldarr(RF(f)))
            for f in ('head', 'mst', 'status', 'handle')]

    def refused(c):
        return same_state(c) + [
            ('without the token nothing is allocated or announced', Implies(Not(AUTHED), And(
                v(c).seqs() == v(c).seqs(True), c.h(CALLS) == c.old(CALLS))))]
    ERR = [('Exception', None, refused)]
    CM = reg.contracts[ST + '.commit'].modifies
    CFR = lambda c: [(BLOCKSF, [GST]), (REPOSF, [GST]), (SEQF, [rv(c.old(STSEQ, GST))])]
    pth = lambda c: STR.cat(sv(inp0(c, 'collection')), slit('/'), sv(inp0(c, 'rkey')))
    inp0 = lambda c, k: g(acc('VDict', 0, c.oldv['input']), k)

    def trees(c, p, val):
        """in every stored repo with that DID or handle, exactly path p now has this value"""
        m1 = lambda: rv(Select(c.h_arr(RF('mst')), rv(e(c, True))))
        m0 = lambda: rv(Select(c.oldarr(RF('mst')), rv(e(c, True))))
        return FA([_k, _s], Implies(matches(c, _k, c.g['target'], True), tget(m1(), _s) == If(
            _s == p, val, tget(m0(), _s))), [e(c, True), tget(m1(), _s)])
    active_ = lambda c: Not(FA([_k], Not(And(matches(c, _k, c.g['target'], True), Not(truthy(
        Select(c.oldarr(RF('status')), rv(e(c, True))))))), e(c, True)))

    def put_post(c, r):
        rec = inp0(c, 'record')
        d = dv(r)
        cid = HASHC(ENC(rec))
        return [
            ('only with the configured token', AUTHED),
            ('only an active repo', active_(c)),
            ('the record is at that path and nothing else changes', trees(c, pth(c), VCid(cid))),
            ('the request is not changed', c.map('input') == dv(c.oldv['input'])),
            ('its CID is returned', g(d, 'cid') == VStr(CIDSTR(cid))),
            ('the record is stored', mget(v(c).blocks(), VCid(cid)) != VAbsent)]

    def ready(c):
        named_rp(c)
        return state(c) + one_match(c, c.g['target'])
    reg.add('xrpc_repo.validate', params={'input': 'dict', 'collection': 'any'}, inline=True)
    PUT = dict(params={'input': 'dict'}, mutates=['input'], modifies=CM, frame=CFR, raises=ERR)
    reg.add('xrpc_repo.put_record', **PUT, returns='dict', ensures=put_post,
            requires=lambda c: ready(c) + input_ok('repo', 'collection', 'rkey')(c) +
            record_ok(c))
    reg.add('xrpc_repo.delete_record', **PUT, returns='none',
            requires=lambda c: ready(c) + input_ok('repo', 'collection', 'rkey')(c),
            ensures=lambda c, r: [
                ('only with the configured token', AUTHED),
                ('only an active repo', active_(c)),
                ('no record is at that path and nothing else changes', trees(
                    c, pth(c), VNone))])

    # -- creating a record: put under the given key, or a new TID
    reg.add('xrpc_repo.create_record', params={'input': 'dict'}, mutates=['input'],
            modifies=CM + reg.contracts['util.next_tid'].modifies, frame=CFR, raises=ERR,
            returns='dict', ensures=lambda c, r: [
                ('only with the configured token', AUTHED),
                ('only an active repo', active_(c)),
                ('the record is at that path and nothing else changes', trees(c, STR.cat(
                    sv(inp0(c, 'collection')), slit('/'), sv(inp(c, 'rkey'))), VCid(HASHC(ENC(
                        inp0(c, 'record')))))),
                ('under the given key, if any', Implies(inp0(c, 'rkey') != VAbsent, inp(
                    c, 'rkey') == inp0(c, 'rkey'))),
                ('its CID is returned', g(dv(r), 'cid') == VStr(CIDSTR(HASHC(ENC(inp0(
                    c, 'record')))))),
                ('the record is stored', mget(v(c).blocks(), VCid(HASHC(ENC(inp0(
                    c, 'record'))))) != VAbsent)],
            requires=lambda c: ready(c) + input_ok('repo', 'collection')(c) + record_ok(c) + [
                ('the record has a type or none', opt_str(g(dv(inp(c, 'record')), '$type'))),
                ('a key, if given', opt_str(inp(c, 'rkey')))] + [
                    x for f in [reg.contracts['util.next_tid'].requires] for x in f(c)])

    # -- not implemented, behind the same gate
    nothing = lambda c, r: [('only with the configured token', AUTHED)]
    reg.add('xrpc_repo.apply_writes', params={'input': 'dict'}, mutates=['input'],
            returns='any', ensures=nothing, raises=[('Exception', None, None)])
    reg.add('xrpc_repo.upload_blob', params={'input': 'any'}, returns='any', ensures=nothing,
            raises=[('Exception', None, None)])

    # -- sessions
    def server_repo(ex):
        o = Int('server_repo')
        ex.ref_cls[o.sexpr()] = REPO
        return VRef(o)
    axiom('server', 'server.repo is a repo', And(Int('server_repo') < 0, cls_(
        Int('server_repo')) == cls_id(REPO)))
    reg.globals['server.repo'] = server_repo
    has_repo = lambda c: [('server.repo has a head or none', head_ok(c.h(RF('head'), Int(
        'server_repo'))))]
    tok = ENVIRON(slit('REPO_TOKEN'))
    pw = ENVIRON(slit('REPO_PASSWORD'))
    reg.add('xrpc_server.get_session', params={'input': 'any'}, returns='dict', ensures=nothing,
            requires=has_repo, raises=[('Exception', lambda c: Not(AUTHED))])
    reg.add('xrpc_server.refresh_session', params={'input': 'any', 'did': 'any', 'commit': 'any'},
            returns='dict', requires=has_repo, ensures=lambda c, r: nothing(c, r) + [
                ('the token', And(g(dv(r), 'accessJwt') == tok, g(dv(r), 'refreshJwt') == tok))],
            raises=[('Exception', lambda c: Not(AUTHED))])
    ident = lambda c: inp(c, 'identifier')
    reg.add('xrpc_server.create_session', params={'input': 'dict'}, returns='dict',
            requires=lambda c: okr(c) + [('an identifier', And(RECOG['VStr'](ident(c)), STR.len_(
                sv(ident(c))) > 0))],
            ensures=lambda c, r: [
                ('only for a known repo', Not(none_(c, sv(ident(c))))),
                ('only with the configured password', And(truthy(pw), inp(
                    c, 'password') == pw)),
                ('the token', And(tok != VNone, g(dv(r), 'accessJwt') == tok, g(
                    dv(r), 'refreshJwt') == tok)),
                ('a repo with that DID or handle', Or(g(dv(r), 'did') == ident(c), g(
                    dv(r), 'handle') == ident(c)))],
            raises=[('ValueError', None, lambda c: [('only for an unknown repo or a wrong '
                     'password', Or(none_(c, sv(ident(c))), Not(truthy(pw)), inp(
                         c, 'password') != pw))]),
                    ('KeyError', None, lambda c: [('only without a token', tok == VNone)])])

    # -- status and paging
    def dpar(c):
        return target(c.s('did'))

    def status_post(c, r):
        d = dv(r)
        return [
            ('its DID', g(d, 'did') == c.v('did')),
            ('active or deactivated', Or(
                And(g(d, 'active') == T, mget(d, vs('status')) == VAbsent),
                And(g(d, 'active') == F, g(d, 'status') == vs('deactivated')))),
            ('active only if such a repo is', Implies(g(d, 'active') == T, Not(FA([_k], Not(And(
                matches(c, _k, c.g['target']), Not(truthy(status(c, e(c)))))), e(c))))),
            ('deactivated only if such a repo is', Implies(g(d, 'active') == F, inactive(
                c, c.g['target'])))]

    def okd(c):
        named(c, 'target', dpar(c))
        return okr(c)
    NOREPO = [('XrpcError', None, lambda c: [('only if no repo has that DID or handle', none_(
                  c, c.g['target']))], {'name': vs('RepoNotFound')}),
              ('XrpcError', None, lambda c: [('only if one with it is inactive', inactive(
                  c, c.g['target']))], {'name': vs('RepoDeactivated')})]
    BADURI = [('ValueError', None, lambda c: [('only for a malformed at:// URI', And(startswith(
        c.s('did'), AT), FA([_s], Implies(okp(_s), c.s('did') != STR.cat_(AT, _s)), STR.cat_(
            AT, _s))))]),
              ('AssertionError', None, lambda c: [('only for an empty one', STR.len_(
                  c.g['target']) == 0)])]
    D = {'input': 'any', 'did': 'str'}
    reg.add('xrpc_sync.get_repo_status', params=D, returns='dict', requires=okd,
            ensures=status_post, raises=NOREPO[:1] + BADURI)

    # -- reading one record
    rpath = lambda c: STR.cat(sv(c.v('collection')), slit('/'), sv(c.v('rkey')))
    RT = lambda c: c.g['target']
    mst_of = lambda c: rv(Select(c.h_arr(RF('mst')), rv(e(c))))
    bits = [('ValueError', None, lambda c: [('only for a parameter that is not supported, a '
             'missing one or a malformed one', Or(
        truthy(c.v('cid')) if 'cid' in c.vars else BoolVal(False),
        Not(truthy(c.v('repo'))),
        truthy(inp0(c, 'swapCommit')), truthy(inp0(c, 'swapRecord')),
        And(SEQ.len_(mkeys(Const('SUPPORTED_COLLECTIONS', Map))) > 0, mget(Const(
            'SUPPORTED_COLLECTIONS', Map), c.v('collection')) == VAbsent),
        And(SEQ.len_(mkeys(Const('SUPPORTED_COLLECTIONS', Map))) > 0, truthy(inp0(
            c, 'collection')), mget(Const('SUPPORTED_COLLECTIONS', Map), inp0(
                c, 'collection')) == VAbsent),
        And(startswith(sv(c.v('repo')), AT), FA([_s], Implies(okp(_s), sv(c.v(
            'repo')) != STR.cat_(AT, _s)), STR.cat_(AT, _s)))))])]

    def okread(c):
        named(c, 'target', target(sv(c.v('repo'))))
        return state(c) + one_match(c, c.g['target'])

    def holds(c, p):
        """(exactly) one repo with this DID or handle is active and has this path"""
        return FA([_k], Implies(matches(c, _k, RT(c)), And(Not(truthy(status(c, e(c)))), tget(
            mst_of(c), p) != VNone)), e(c))

    def read_post(c, r):
        d = dv(ATJ(r))
        cid = tget(mst_of(c), rpath(c))
        return [('the repo has that path', holds(c, rpath(c))),
                ('and there is one', Not(none_(c, RT(c)))),
                ('its record', FA([_k], Implies(matches(c, _k, RT(c)), And(
                    g(d, 'value') == bdec(rv(mget(v(c).blocks(), cid))), g(d, 'cid') == VStr(
                        CIDSTR(acc('VCid', 0, cid))), g(d, 'uri') == VStr(uri(sv(_k), sv(c.v(
                            'collection')), sv(c.v('rkey')))))), e(c)))]
    missing = ('XrpcError', None, lambda c: [('only if no active repo has that path', FA(
        [_k], Implies(matches(c, _k, RT(c)), tget(mst_of(c), rpath(c)) == VNone), e(c)))],
        {'name': vs('RecordNotFound')})
    NF = [('XrpcError', None, lambda c: [('only if no repo has that DID or handle', none_(
              c, RT(c)))], {'name': vs('RepoNotFound')}),
          ('XrpcError', None, lambda c: [('only if one with it is inactive', inactive(
              c, RT(c)))], {'name': vs('RepoDeactivated')}),
          ('AssertionError', None, lambda c: [('only for an empty one', STR.len_(RT(c)) == 0)])]
    nonempty = lambda c: [('the key is not empty', And(STR.len_(sv(c.v('collection'))) > 0,
                                                       STR.len_(sv(c.v('rkey'))) > 0))]
    reg.add('xrpc_repo.get_record', params={
        'input': 'dict', 'repo': 'opt:str', 'collection': 'str', 'rkey': 'str',
        'cid': 'opt:str'}, mutates=['input'], returns='any',
        requires=lambda c: okread(c) + nonempty(c), ensures=read_post, raises=[missing] + NF + bits)

    # -- paging through repos
    def entry(c, d, x, h):
        """what listRepos says about repo x"""
        m = dv(d)
        st_, hd = Select(h(RF('status')), rv(x)), Select(h(RF('head')), rv(x))
        return And(RECOG['VDict'](d), g(m, 'did') == repo_did(hd),
                   g(m, 'head') == VStr(CIDSTR(bcid(rv(hd)))),
                   g(m, 'active') == VBool(st_ == VNone), mget(m, vs('status')) == If(
                       truthy(st_), If(st_ == vs('tombstoned'), vs('deactivated'), st_), VAbsent))

    def list_loop(L):
        if L.seq is None:
            return
        for nm, t0, t in L.lists():
            x = SEQ.at_(t, _j)
            yield f'{nm} has one for each so far', SEQ.len(t) == L.i
            yield f'{nm} describes them', FA([_j], Implies(And(0 <= _j, _j < L.i), entry(
                None, x, SEQ.at_(L.seq, _j), L.ex.hkey)), x, SEQ.at_(L.seq, _j))

    def list_post(c, r):
        d = dv(r)
        s = acc('VList', 0, g(d, 'repos'))
        n = SEQ.len_(s)
        m = v(c).repos()
        did_ = lambda x: g(dv(x), 'did')
        x, y = SEQ.at_(s, _j), SEQ.at_(s, _i)
        cur = c.v('cursor')
        past = lambda k: Or(Not(truthy(cur)), sord(sv(cur)) < sord(sv(k)))
        lim = c.i('limit')
        return [
            ('at most limit', And(RECOG['VList'](g(d, 'repos')), n <= lim)),
            ('a stored repo after the cursor, with its head and status', FA([_j], Implies(
                And(0 <= _j, _j < n), And(entry(c, x, mget(m, did_(x)), c.h_arr), mget(m, did_(
                    x)) != VAbsent, past(did_(x)))), x)),
            ('ascending by DID', FA([_i, _j], Implies(And(0 <= _i, _i < _j, _j < n), sord(sv(
                did_(y))) < sord(sv(did_(x)))), [x, y])),
            ('none is left out', FA([_k], Implies(
                And(e(c) != VAbsent, RECOG['VStr'](_k), past(_k)), Or(
                    c.g['nth'](s, n, did_),
                    And(n == lim, FA([_j], Implies(And(0 <= _j, _j < n), sord(sv(did_(
                        x))) < sord(sv(_k))), x)))), e(c))),
            ('a cursor exactly if there may be more', mget(d, vs('cursor')) == If(
                n == lim, did_(SEQ.at_(s, n - 1)), VAbsent))]

    def list_ready(c):
        # (exists j. s[j] is the entry of _k), as the negation of a universal
        c.g['nth'] = lambda s, n, did_: Not(FA([_j], Implies(And(0 <= _j, _j < n), did_(
            SEQ.at_(s, _j)) != _k), SEQ.at_(s, _j)))
        x = e(c)
        hd = c.h(RF('head'), rv(x))
        return okr(c) + [('limit is at least 1', c.i('limit') >= 1), (
            'heads have numbers', FA([_k], Implies(x != VAbsent, And(
                RECOG['VInt'](c.h(BF('seq'), rv(hd))), iv(c.h(BF('seq'), rv(hd))) >= 0, iv(c.h(
                    BF('seq'), rv(hd))) < 2**55 - 1)), x))]
    reg.add('xrpc_sync.list_repos', params={'input': 'any', 'limit': 'nat', 'cursor': 'opt:str'},
            returns='dict', requires=list_ready, loops=[list_loop], ensures=list_post)

    # following cursors. A page from cursor k0 holds exactly the repos up to where it ends
    lastd, k0 = Consts('last_did cursor0', Str)
    PG = Function('on_page', Val, Int_, Bool_)      # repo with this DID, page number
    STD = Function('is_stored', Val, Bool_)
    CUR = Function('page_cursor', Int_, Str)        # page p starts after CUR(p)
    pp, p2 = Ints('page page2')
    ok_page = lambda p: FA([_k], And(
        Implies(PG(_k, p), And(STD(_k), sord(CUR(p)) < sord(sv(_k)), sord(sv(_k)) <= sord(CUR(
            p + 1)))),
        Implies(And(STD(_k), sord(CUR(p)) < sord(sv(_k)), Not(PG(_k, p))), sord(CUR(
            p + 1)) < sord(sv(_k)))), PG(_k, p), STD(_k))
    seen = lambda p: FA([_k], Implies(And(STD(_k), sord(sv(_k)) > 0, sord(sv(_k)) <= sord(CUR(
        p))), Not(FA([p2], Not(And(0 <= p2, p2 < p, PG(_k, p2))), PG(_k, p2)))), STD(_k))
    reg.lemma('paging', [
        ('no repo is on two consecutive pages', [ok_page(pp), ok_page(pp + 1), PG(_k, pp)],
         Not(PG(_k, pp + 1))),
        ('the first pages together hold every repo up to the cursor', [
            0 <= pp, ok_page(pp), seen(pp)], seen(pp + 1))],
        'pages partition the repos, by induction over the page number')

    # -- importing a repo
    _v, _v2 = Consts('v v2', Val)
    RESOLVED = Function('resolved_to', Str, Val, Bool_)     # DID, document
    KEYOF = Function('signing_key_of', Val, Int_)           # document
    CARB = lambda x: acc('VOpq', 0, x)
    ccid, cdata = lambda x: CBCID(CARB(x)), lambda x: CBDATA(CARB(x))
    dk = reg.contracts['did.resolve']
    old_da = dk.after

    def resolved(ex, c, r):
        if old_da:
            old_da(ex, c, r)
        ex.assume(RESOLVED(c.s('did'), ex.peek(r)))
        ex.assume(doc_ok(ex.peek(r)))
    dk.after = resolved

    def doc_ok(d):
        """assumed: a resolved document is well-formed JSON of the right shape"""
        m = dv(d)
        vm, aka = g(m, 'verificationMethod'), g(m, 'alsoKnownAs')
        x, y = SEQ.at_(lv(vm), _j), SEQ.at_(lv(aka), _j)
        k = g(dv(x), 'publicKeyMultibase')
        return And(RECOG['VDict'](d), opt_str(g(m, 'id')), Or(vm == VAbsent, And(
            RECOG['VList'](vm), FA([_j], Implies(And(0 <= _j, _j < SEQ.len_(lv(vm))), And(
                RECOG['VDict'](x), Or(k == VAbsent, k == VNone, RECOG['VStr'](k)))), x))),
            Or(aka == VAbsent, And(RECOG['VList'](aka), FA([_j], Implies(And(
                0 <= _j, _j < SEQ.len_(lv(aka))), RECOG['VStr'](y)), y))))
    gk = reg.contracts['did.get_signing_key']
    old_ga = gk.after

    def keyof(ex, c, r):
        if old_ga:
            old_ga(ex, c, r)
        ex.assume(Implies(r != VNone, rv(r) == KEYOF(c.v('did_doc'))))
    gk.after = keyof

    def verified(d):
        """commit d verifies with the signing key in its DID's document"""
        m = dv(d)
        return Not(FA([_v], Not(And(RESOLVED(sv(g(m, 'did')), _v), valid(KEYOF(_v), ENC(VDict(
            mdel(m, vs('sig')))), acc('VByt', 0, g(m, 'sig'))))), RESOLVED(sv(g(
                m, 'did')), _v)))

    def read_car(ex, a, kw):
        b = ex.want(a[0], 'VByt')
        if not ex.branch(Function('is_car', Byt, Bool_)(b)):
            ex.raise_('ValueError')
        r, q = CARROOTS(b), CARBLKS(b)
        x, y = SEQ.at_(r, _j), SEQ.at_(q, _j)
        d = DEC(cdata(y))
        cblk_ok = And(RECOG['VOpq'](y), ccid(y) == HASHC(cdata(y)), IS_CBOR(cdata(y)),
                      CBOR_OK(d), ENC(d) == cdata(y), BYT.len_(cdata(y)) > 0)
        ex.assume(FA([_j], Implies(And(0 <= _j, _j < SEQ.len_(r)), RECOG['VCid'](x)), x))
        ex.assume(FA([_j], Implies(And(0 <= _j, _j < SEQ.len_(q)), cblk_ok), y))
        root = SEQ.at_(r, IntVal(0))
        m = dv(d)
        ex.assume(FA([_j], Implies(And(0 <= _j, _j < SEQ.len_(q), VCid(ccid(y)) == root), And(
            RECOG['VDict'](d), opt_str(g(m, 'did')), Or(g(m, 'sig') == VAbsent, RECOG['VByt'](
                g(m, 'sig'))))), y))
        return PTuple([VList(r), VList(q)])
    reg.libs['carbox.read_car'] = reg.libs['carbox.car.read_car'] = read_car
    inb = lambda c: acc('VByt', 0, c.v('input'))
    RTS, QBL = lambda c: CARROOTS(inb(c)), lambda c: CARBLKS(inb(c))

    def unused(ex, did_):
        """no stored repo has this DID"""
        rp = dv(Select(ex.hkey(REPOSF), GST))
        return mget(rp, did_) == VAbsent

    def imp_loop(L):
        ex = L.ex
        if L.seq is None:
            return
        for k, h0, h in L.fields():
            if k.startswith(BLK):
                yield f'{k} of old blocks', FA([_o], Implies(_o <= 0, Select(h, _o) == Select(
                    h0, _o)), Select(h, _o), Select(h0, _o))
        b = ex.cut_params['b']
        root = SEQ.at_(CARROOTS(b), IntVal(0))
        y = SEQ.at_(L.seq, _j)
        for nm, t0, t in L.lists():
            x = SEQ.at_(t, _j)
            yield f'{nm} has one for each so far', SEQ.len(t) == L.i
            yield f'{nm} are the blocks', FA([_j], Implies(And(0 <= _j, _j < L.i), And(
                is_block(x), bcid(rv(x)) == ccid(y), CBOR_OK(bdec(rv(x))), Select(
                    ex.hkey(BF('seq')), rv(x)) == VInt(0), rv(x) > 0)), x, y)
        vals = list(L.vals())
        for nm, x0, x in vals:
            d = bdec(rv(x))
            headl = And(is_block(x), VCid(bcid(rv(x))) == root, RECOG['VDict'](d), opt_str(g(
                dv(d), 'did')), CBOR_OK(d), Select(ex.hkey(BF('seq')), rv(x)) == VInt(0))
            yield f'{nm} is the head or nothing', Or(x == VNone, And(headl, unused(ex, g(dv(
                d), 'did'))))
            yield f'{nm} is verified', Or(x == VNone, verified(d))
            yield f'{nm} is nothing only if there is no head so far', Implies(x == VNone, FA(
                [_j], Implies(And(0 <= _j, _j < L.i), VCid(ccid(y)) != root), y))
            yield f'{nm} is there only if a head was seen', Implies(x != VNone, Not(FA([_j], Or(
                _j < 0, _j >= L.i, VCid(ccid(y)) != root), y)))
            yield f'{nm} is what was seen', Implies(x != VNone, FA([_j], Implies(And(
                0 <= _j, _j < L.i, VCid(ccid(y)) == root), DEC(cdata(y)) == d), y))
            for nm2, _, x2 in vals:
                if nm2 != nm:
                    yield f"{nm2} is {nm}'s DID", Implies(And(x != VNone, RECOG['VRef'](x)), And(
                        x2 == g(dv(d), 'did'), RECOG['VStr'](x2)))
                    yield f"{nm2} is {nm}'s document", Implies(x != VNone, doc_ok(x2))

    def imp_setup(ex, c):
        ex.cut_params = {'b': inb(c)}
        for t in (mget(v(c).blocks(), _k), mget(v(c).repos(), _k)):     # these exist already
            ex.assume(FA([_k], Implies(t != VAbsent, rv(t) <= 0), t))

    def imported(c, r):
        b = SEQ.at_(QBL(c), _j)
        root = SEQ.at_(RTS(c), IntVal(0))
        d = DEC(cdata(b))
        m = dv(d)
        isroot = And(0 <= _j, _j < SEQ.len_(QBL(c)), VCid(ccid(b)) == root)
        new = mget(v(c).repos(), g(m, 'did'))
        F_ = lambda f: Select(c.h_arr(RF(f)), rv(new))
        return [
            ('only with the configured token', AUTHED),
            ('the first root is one of the blocks', And(SEQ.len_(RTS(c)) > 0, Not(FA(
                [_j], Not(isroot), b)))),
            ('no repo existed for its DID', FA([_j], Implies(isroot, mget(v(c).repos(
                True), g(m, 'did')) == VAbsent), b)),
            ('the commit verifies with the key in its DID document', FA([_j], Implies(
                isroot, verified(d)), b)),
            ('every block is stored', FA([_j], Implies(And(0 <= _j, _j < SEQ.len_(QBL(
                c))), mget(v(c).blocks(), VCid(ccid(b))) != VAbsent), b)),
            ('the repo is stored, deactivated, with that head', FA([_j], Implies(isroot, And(
                is_repo(new), F_('status') == vs('deactivated'), is_block(F_('head')),
                VCid(bcid(rv(F_('head')))) == root)), b)),
            ('its tree is the one the commit names', FA([_j], Implies(isroot, And(
                RECOG['VRef'](F_('mst')), Select(c.h_arr(MF('pointer')), rv(F_(
                    'mst'))) == g(m, 'data'))), b)),
            ('with new keys', FA([_j], Implies(isroot, And(*[rv(F_(f)) > 0 for f in (
                'signing_key', 'rotation_key')])), b)),
            ('other repos are kept', FA([_k], Implies(e(c, True) != VAbsent, And(e(c) == e(
                c, True), *[Select(c.h_arr(RF(f)), rv(e(c, True))) == Select(c.oldarr(RF(
                    f)), rv(e(c, True))) for f in ('head', 'mst', 'status', 'handle')])), e(
                        c), e(c, True))),
            ('stored blocks are kept', v(c).kept()),
            ('nothing is emitted', And(v(c).seqs() == v(c).seqs(True), c.h(CALLS) == c.old(
                CALLS)))]

    def not_imported(c):
        b = SEQ.at_(QBL(c), _j)
        root = SEQ.at_(RTS(c), IntVal(0))
        d = DEC(cdata(b))
        isroot = And(0 <= _j, _j < SEQ.len_(QBL(c)), VCid(ccid(b)) == root)
        same = v(c).blocks() == v(c).blocks(True)
        return [
            ('no repo is stored', v(c).repos() == v(c).repos(True)),
            ('stored blocks are kept', v(c).kept()),
            ('nothing is emitted', And(v(c).seqs() == v(c).seqs(True), c.h(CALLS) == c.old(
                CALLS))),
            ('a block is stored only with the token', Or(same, AUTHED)),
            ('and if the root is one of them', Or(same, Not(FA([_j], Not(isroot), b)))),
            ('and verifies', Or(same, FA([_j], Implies(isroot, verified(d)), b))),
            ('and no repo exists for its DID', Or(same, FA([_j], Implies(isroot, mget(v(c).repos(
                True), g(dv(d), 'did')) == VAbsent), b)))]
    reg.add('xrpc_repo.import_repo', params={'input': 'byt'}, returns='none', setup=imp_setup,
            loops=[imp_loop], modifies=[BLOCKSF, REPOSF] + reg.contracts['did.resolve'].modifies,
            requires=lambda c: okr(c) + [('stored blocks', v(c).blocks_ok())],
            ensures=imported, raises=[('Exception', None, not_imported)])
