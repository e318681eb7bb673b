"""Commits (Storage._commit and Storage.commit in arroba/storage.py), over in-memory storage."""
import z3
from theory import *
from values import *
from lib import setof
from z3 import Select
from c_crypto import PRIV, K1, R1, curveref
from c_util import TSNUM
from c_storage import (MEM, BLK, REPO, ST, STSEQ, SEQF, REPOSF, BLOCKSF, NSID, bcid, bdec, rv, dv,
                       lv, iv, sv, g, View, CBOR_OK, is_block, BF, RF, HASHC, ENC, repo_did,
                       head_ok, truthy, CALLS, CALLF, is_repo)
from c_mst import MST, MF, ents, stg, cidm, tget, VALIDKEY, ISNODE, top, closed, lay_rely

WR, OP, CD, ACT = 'repo.Write', 'storage.CommitOp', 'storage.CommitData', 'storage.Action'
_k, _k2 = Consts('k k2', Val)
_s = Const('s', Str)
_c = Const('c', Cid)
_q = Const('q', Seq)
_i, _j, _m, _o = Ints('i j m o')
VALID = Function('valid_record', Val, Val, Bool_)       # type, record
AG = Function('after_writes', Int_, Seq, Int_, Str, Val)    # tree, writes, number done, path
OPS = Function('commit_ops', Int_, Seq, Int_, Seq)
MAXREC, MAXOPS = 1_000_000, 200
axiom('commit', 'no writes: the tree', FA([_m, _q, _s], AG(_m, _q, 0, _s) == tget(_m, _s),
                                          AG(_m, _q, 0, _s)))
axiom('commit', 'no writes: no operations', FA([_m, _q], OPS(_m, _q, 0) == SEQ.empty,
                                               OPS(_m, _q, 0)))
wf_ = lambda w, f: ntf(WR, f, w)
is_act = lambda w, a: wf_(w, 'action') == enumv(ACT, a)
path = lambda w: STR.cat(sv(wf_(w, 'collection')), slit('/'), sv(wf_(w, 'rkey')))
newcid = lambda w: VCid(HASHC(ENC(wf_(w, 'record'))))


def step(m, W, i, w):
    """the definitions of AG and OPS for one more write"""
    p = path(w)
    noop = And(is_act(w, 'UPDATE'), AG(m, W, i, p) == newcid(w))
    op = nt(OP)(wf_(w, 'action'), VStr(p), If(is_act(w, 'DELETE'), VNone, newcid(w)),
                If(is_act(w, 'CREATE'), VNone, AG(m, W, i, p)))
    return And(
        FA([_s], AG(m, W, i + 1, _s) == If(_s == p, If(is_act(w, 'DELETE'), VNone, newcid(w)),
                                           AG(m, W, i, _s)), AG(m, W, i + 1, _s)),
        OPS(m, W, i + 1) == If(noop, OPS(m, W, i), SEQ.cat_(OPS(m, W, i), SEQ.unit_(op))))


def rtype(rec):
    t = g(dv(rec), '$type')
    return If(t == VAbsent, VNone, t)


def bad(m, W, i, w):
    """this write has to be refused"""
    p = path(w)
    rec = wf_(w, 'record')
    return Or(
        And(Not(is_act(w, 'CREATE')), AG(m, W, i, p) == VNone),
        And(is_act(w, 'CREATE'), AG(m, W, i, p) != VNone),
        And(Not(is_act(w, 'DELETE')), Or(
            Not(VALIDKEY(p)), Not(VALID(rtype(rec), rec)), Not(CBOR_OK(rec)),
            BYT.len_(ENC(rec)) > MAXREC)))


def write_ok(w):
    """a well-formed Write"""
    return And(is_(WR, w), RECOG['VStr'](wf_(w, 'collection')), RECOG['VStr'](wf_(w, 'rkey')),
               Or(*[is_act(w, a) for a in ('CREATE', 'UPDATE', 'DELETE')]),
               Or(is_act(w, 'DELETE'), And(RECOG['VDict'](wf_(w, 'record')), SEQ.len_(mkeys(dv(
                   wf_(w, 'record')))) > 0)))


def register(reg):
    reg.field_spec[RF('signing_key')] = {'kind': 'ref:' + PRIV}
    reg.globals['storage.server'] = lambda ex: LibV('lexserver')

    def validate(ex, a, kw):
        if lit_of(ex.as_str(a[1])) != 'record':
            ex.unsupported('server.validate')
        t = ex.tov(a[0])
        if not ex.branch(VALID(t, ex.tov(a[2]))):
            ex.raise_('ValueError')
        return VNone
    reg.libs['lexserver.validate'] = validate

    v = View
    P = lambda c: c.ref('repo')

    def ghosts(c):
        """named once, on entry"""
        if not c.g:
            ex = c.ex
            first_ = truthy(c.v('repo_did'))
            pdid_ = repo_did(c.h(RF('head'), P(c)))
            S_ = If(first_, P(c), rv(mget(v(c).repos(), pdid_)))
            c.g.update(first=first_)
            for nm, t in (('pdid', pdid_), ('S', S_)):
                c.g[nm] = ex.fresh(nm, t.sort())
                ex.assume(c.g[nm] == t)
            for nm, t in (('did', If(first_, c.v('repo_did'), c.g['pdid'])),
                          ('head0', c.h(RF('head'), c.g['S'])),
                          ('m0', rv(c.h(RF('mst'), c.g['S'])))):
                c.g[nm] = ex.fresh(nm, t.sort())
                ex.assume(c.g[nm] == t)
        return c.g
    first = lambda c: ghosts(c)['first']
    pdid = lambda c: ghosts(c)['pdid']
    did = lambda c: ghosts(c)['did']
    S = lambda c: ghosts(c)['S']
    head0 = lambda c: ghosts(c)['head0']
    m0 = lambda c: ghosts(c)['m0']

    def W(c):
        x = c.raw('writes')
        if isinstance(x, Cont):
            return x.t
        x = c.v('writes')
        if con_of(x) == 'VList':
            return x.arg(0)
        return SEQ.unit(x)
    n = lambda c: SEQ.len(W(c))

    def pre(c):
        st = v(c).st()
        e = mget(v(c).repos(), _k)
        s = S(c)
        mm = c.h(RF('mst'), s)
        f = first(c)
        w = SEQ.at_(W(c), _j)
        return [
            ('stored blocks', v(c).blocks_ok()), ('stored repos', v(c).repos_ok()),
            ('stored nodes are complete', closed(v(c).blocks())),
            ('writes are well-formed', FA([_j], Implies(And(0 <= _j, _j < n(c)), write_ok(w)),
                                          w)),
            ('a new repo has no head', Implies(f, c.h(RF('head'), P(c)) == VNone)),
            ('an existing repo is stored', Implies(Not(f), And(
                head_ok(c.h(RF('head'), P(c))), c.h(RF('head'), P(c)) != VNone,
                mget(v(c).repos(), pdid(c)) != VAbsent))),
            ('its DID is not the handle of a stored repo', Implies(Not(f), FA([_k], Implies(
                e != VAbsent, c.h(RF('handle'), rv(e)) != pdid(c)), e))),
            ('it has a tree in this storage', And(RECOG['VRef'](mm), top(c, rv(mm)),
                                                  stg(rv(mm)) == st)),
            ('its key is on a supported curve', Or(*[cls_(curveref(rv(c.h(
                RF('signing_key'), s)))) == cls_id(x) for x in (K1, R1)])),
        ]

    def unchanged(c):
        """repos and blocks are as they were"""
        return [('no block was added', v(c).blocks() == v(c).blocks(True)),
                ('stored repos are the same', v(c).repos() == v(c).repos(True))] + [
            (f'no repo has another {f}', c.h_arr(RF(f)) == c.oldarr(RF(f)))
            for f in ('head', 'mst', 'status', 'handle')] + [
            (f'stored blocks keep their {f}', FA([_k], Implies(
                mget(v(c).blocks(True), _k) != VAbsent, Select(c.h_arr(BF(f)), rv(mget(
                    v(c).blocks(True), _k))) == Select(c.oldarr(BF(f)), rv(mget(
                        v(c).blocks(True), _k)))), mget(v(c).blocks(True), _k)))
            for f in ('seq', 'ops')]

    def inactive(c):
        return Or(truthy(c.old(RF('status'), P(c))), And(
            Not(first(c)), truthy(c.old(RF('status'), S(c)))))

    def some_bad(c):
        w = SEQ.at_(W(c), _j)
        return Not(FA([_j], Implies(And(0 <= _j, _j < n(c)), Not(bad(m0(c), W(c), _j, w))), w))

    def done(c, r, seq):
        """r is the CommitData of a successful commit with this sequence number"""
        cb, blocks, prev = (ntf(CD, f, r) for f in ('commit', 'blocks', 'prev'))
        cr = rv(cb)
        d = dv(bdec(cr))
        B = dv(blocks)
        b = mget(B, _k)
        w = SEQ.at_(W(c), _j)
        tree = c.h(RF('mst'), P(c))
        m = m0(c)
        stored = v(c).blocks()
        return [
            ('the status was active', Not(inactive(c))),
            ('at most 200 operations', n(c) <= MAXOPS),
            ('no write had to be refused', FA([_j], Implies(And(0 <= _j, _j < n(c)), Not(bad(
                m, W(c), _j, w))), w)),
            ('the tree holds the old records as changed by the writes', FA([_s], tget(
                rv(tree), _s) == AG(m, W(c), n(c), _s), tget(rv(tree), _s))),
            ('the tree is well-formed', And(RECOG['VRef'](tree), top(c, rv(tree)), stg(
                rv(tree)) == v(c).st())),
            ('the stored repo has that tree', c.h(RF('mst'), S(c)) == tree),
            ('the head is the new commit', And(is_block(cb), c.h(RF('head'), P(c)) == cb, c.h(
                RF('head'), S(c)) == cb)),
            ('the commit is a dict', RECOG['VDict'](bdec(cr))),
            ("the commit's fields", And(
                g(d, 'did') == did(c), g(d, 'version') == VInt(3), g(d, 'data') == VCid(
                    cidm(rv(tree))), g(d, 'prev') == prev, RECOG['VStr'](g(d, 'rev')))),
            ('it links to the previous head', prev == If(first(c), VNone, VCid(bcid(rv(
                head0(c)))))),
            ('its revision encodes its number', TSNUM(sv(g(d, 'rev'))) == seq),
            ('it is signed', RECOG['VByt'](g(d, 'sig'))),
            ('its operations are the writes that changed something', c.h(
                BF('ops'), cr) == VList(OPS(m, W(c), n(c)))),
            ('its blocks are encodable, under their CIDs, with its number, for its repo',
             FA([_k], Implies(b != VAbsent, And(
                 is_block(b), _k == VCid(bcid(rv(b))), CBOR_OK(bdec(rv(b))), c.h(
                     BF('seq'), rv(b)) == VInt(seq), c.h(BF('repo'), rv(b)) == did(c))), b)),
            ('they include the commit', mget(B, VCid(bcid(cr))) == cb),
            ('they include every created or updated record', FA([_j], Implies(
                And(0 <= _j, _j < n(c), Not(is_act(w, 'DELETE'))),
                mget(B, newcid(w)) != VAbsent), w)),
            ('they include every new tree node', FA([_c], Implies(
                ISNODE(rv(tree), _c), Or(mget(B, VCid(_c)) != VAbsent, mget(v(c).blocks(
                    True), VCid(_c)) != VAbsent)), ISNODE(rv(tree), _c))),
            ('all of them are stored', FA([_k], Implies(b != VAbsent, mget(stored, _k) != VAbsent),
                                          b)),
            ('nothing else is stored', FA([_k], Implies(mget(stored, _k) != VAbsent, Or(
                mget(stored, _k) == mget(v(c).blocks(True), _k), mget(B, _k) == mget(
                    stored, _k))), mget(stored, _k))),
            ('stored blocks are kept', v(c).kept()), ('stored blocks', v(c).blocks_ok()),
            ('stored repos', v(c).repos_ok()),
            ('the same repos are stored', FA([_k], mget(v(c).repos(), _k) == mget(
                v(c).repos(True), _k), mget(v(c).repos(), _k))),
            ('other repos are unaffected', And(*[FA([_o], Implies(
                And(_o != P(c), _o != S(c)), Select(c.h_arr(RF(f)), _o) == Select(c.oldarr(
                    RF(f)), _o)), Select(c.h_arr(RF(f)), _o)) for f in ('head', 'mst')])),
        ]

    def raises(extra=lambda c: []):
        return [
            ('util.InactiveRepo', None, lambda c: [('only if not active', inactive(c))] +
             unchanged(c) + extra(c)),
            ('ValueError', None, lambda c: [('only for a refused write or too many', Or(
                n(c) > MAXOPS, some_bad(c))), ('only if active', Not(inactive(c)))] +
             unchanged(c) + extra(c))]

    def loop(L):
        ex, cut = L.ex, L.ex.data.get('commit')
        if L.seq is None or cut is None:
            return
        sq, did_, blocks, m = cut['seq'], cut['did'], cut['blocks'], cut['m0']
        if L.seq.eq(cut['W']):
            Ws = cut['W']
            for nm, x0, x in L.vals():
                if con_of(x0) == 'VRef' or RECOG['VRef'](x0) is not None:
                    r = rv(x)
                    yield f'{nm} is a tree', And(RECOG['VRef'](x), top(L_ctx(ex), r),
                                                stg(r) == cut['st'])
                    yield f'{nm} holds what the writes so far made', FA([_s], tget(
                        r, _s) == AG(m, Ws, L.i, _s), tget(r, _s))
            for nm, t0, t in L.lists():
                yield f'{nm} has the operations', t == OPS(m, Ws, L.i)
            w = SEQ.at_(Ws, _j)
            yield 'no bad write so far', FA([_j], Implies(And(0 <= _j, _j < L.i), Not(bad(
                m, Ws, _j, w))), w)
            for nm, t0, t in L.maps():
                b = mget(t, _k)
                yield f'{nm} has encodable blocks', FA([_k], Implies(b != VAbsent, And(
                    is_block(b), _k == VCid(bcid(rv(b))), CBOR_OK(bdec(rv(b))))), b)
                yield f'{nm} has new blocks', FA([_k], Implies(b != VAbsent, mget(
                    blocks, _k) != b), b)
                yield f'{nm} has the number', FA([_k], Implies(b != VAbsent, And(
                    Select(ex.hkey(BF('seq')), rv(b)) == sq,
                    Select(ex.hkey(BF('repo')), rv(b)) == did_)), b)
                yield f'{nm} has all records', FA([_j], Implies(And(
                    0 <= _j, _j < L.i, Not(is_act(w, 'DELETE'))), mget(
                        t, newcid(w)) != VAbsent), w)
        for key, h0, h in L.fields():
            if key.startswith(BLK) and key not in ex.reg.cache_fields:
                b = mget(blocks, _k)
                yield f'stored blocks keep {key}', FA([_k], Implies(b != VAbsent, Select(
                    h, rv(b)) == Select(h0, rv(b))), b)
                yield f'new or from the list: {key}', FA([_o], Implies(_o <= 0, Or(
                    Select(h, _o) == Select(h0, _o), mget(setof(L.seq), VRef(
                        _o)) != VAbsent)), Select(h, _o))
                for val in ({'seq': sq, 'repo': did_}.get(key.split('.')[-1]),):
                    if val is None:
                        continue
                    e = SEQ.at_(L.seq, _j)
                    yield f'{key} set so far', FA([_j], Implies(And(0 <= _j, _j < L.i), Select(
                        h, rv(e)) == val), e)
                    yield f'{key} set or as before', FA([_o], Or(
                        Select(h, _o) == Select(h0, _o), And(Select(h, _o) == val, Or(
                            _o > 0, mget(setof(L.seq), VRef(_o)) != VAbsent))), Select(h, _o))
            if key.startswith(REPO):
                yield f'{key} kept', h == h0

    class L_ctx:
        def __init__(self, ex):
            self.ex = ex

        def h(self, key, ref):
            return Select(self.ex.hkey(key), ref)

    def setup(ex, c):
        if ex.choose(2) == 1:
            w = fresh(ex, 'nt:' + WR, 'write')
            c.vars['writes'] = w
        cut_data(ex, c)

    def fresh(ex, kind, name):
        from contract import fresh_of
        return fresh_of(ex, kind, name)

    def cut_data(ex, c):
        mm = m0(c)
        W_ = W(c)
        ex.data['commit'] = {'seq': c.v('seq') if 'seq' in c.vars else None, 'did': did(c),
                             'blocks': v(c).blocks(), 'm0': mm, 'W': W_, 'st': v(c).st()}
        ex.elem_fact(W_, lambda w, i: And(write_ok(w), step(mm, W_, i, w)))
        if not isinstance(c.raw('writes'), Cont):
            ex.assume(And(write_ok(c.v('writes')), step(mm, W_, IntVal(0), c.v('writes'))))
    CM = [BLOCKSF, REPOSF, RF('head'), RF('mst')] + [BF(f) for f in ('seq', 'ops', 'time', 'repo')]
    CFR = lambda c: [(BLOCKSF, [v(c).st()]), (REPOSF, [v(c).st()])]
    PAR = {'self': 'ref:' + MEM, 'repo': 'ref:' + REPO, 'writes': 'list'}
    seq_ok = lambda c: [('a positive number below 2**55', And(c.i('seq') > 0, c.i(
        'seq') < 2**55))]
    reg.add(ST + '._commit', params={**PAR, 'seq': 'int', 'repo_did': 'opt:str'},
            returns='nt:' + CD, setup=setup, modifies=CM, frame=CFR, loops=[loop],
            requires=lambda c: pre(c) + seq_ok(c),
            ensures=lambda c, r: done(c, r, c.i('seq')), raises=raises())

    # -- commit: allocates the number and reports the outcome to the callback
    cb = lambda c: c.old(RF('callback'), P(c))

    def commit_pre(c):
        return pre(c) + [
            ('callback is a function or nothing', Or(
                c.h(RF('callback'), P(c)) == VNone, RECOG['VOpq'](c.h(RF('callback'), P(c))))),
            ('call log', RECOG['VInt'](c.h(CALLS))),
            ('numbers are below 2**55', v(c).next() < 2**55 - 1)]

    def one_number(c):
        return [('exactly one number is allocated', And(v(c).allocated(1),
                                                        v(c).other_streams()))]

    def lost(c):
        return one_number(c) + [('its number is reported as lost once', If(
            cb(c) == VNone, v(c).calls() == 0, And(
                v(c).calls() == 1, v(c).last_call('.lost') == VInt(v(c).next(True)),
                v(c).last_call('.data') == VNone, v(c).last_call('.fn') == cb(c))))]

    def commit_post(c, r):
        return done(c, r, v(c).next(True)) + one_number(c) + [
            ('the commit is given to the callback once', If(
                cb(c) == VNone, v(c).calls() == 0, And(
                    v(c).calls() == 1, v(c).last_call('.data') == r,
                    v(c).last_call('.lost') == VNone, v(c).last_call('.fn') == cb(c))))]

    def commit_setup(ex, c):
        if ex.choose(2) == 1:
            c.vars['writes'] = fresh(ex, 'nt:' + WR, 'write')
        ex.data['callbacks'] = True
    reg.add(ST + '.commit', params={**PAR, 'repo_did': 'opt:str'}, returns='nt:' + CD,
            setup=commit_setup, modifies=CM + [SEQF, CALLS] + [CALLS + f for f in CALLF],
            frame=lambda c: CFR(c) + [(SEQF, [rv(c.old(STSEQ, v(c).st()))])],
            requires=commit_pre, ensures=commit_post, raises=raises(lost))
