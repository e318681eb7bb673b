"""Blocks, sequence numbers and the in-memory storage (arroba/storage.py).

A block is described by rigid ghosts: bdec(ref) is its decoded value, and its bytes and CID are
the encoding and the hash of that. Its `_cid`, `_encoded` and `_decoded` attributes are caches
of them (class invariant), which any call may fill in."""
import z3
from lib import setof
from theory import midx
from lib import mover
from interp import simplify_get
from theory import *
from values import *
from z3 import Select
from c_crypto import ENC, DEC, CBOR_OK, IS_CBOR

ST, MEM, SEQS, BLK, REPO = ('storage.Storage', 'storage.MemoryStorage',
                            'storage.MemorySequences', 'storage.Block', 'repo.Repo')
NSID = 'com.atproto.sync.subscribeRepos'
bdec = Function('bdec', Int_, Val)
SHA2 = Function('sha2_256', Byt, Byt)
MKCID = Function('mkcid', Byt, Cid)         # base58btc, version 1, dag-cbor, with this digest
HASHC = lambda b: MKCID(SHA2(b))
benc = lambda r: ENC(bdec(r))
bcid = lambda r: HASHC(benc(r))
CALLS = 'ghost.calls'                       # calls of repo callbacks
CALLF = ['.data', '.lost', '.fn']
zero = IntVal(0)
iv = lambda v: acc('VInt', 0, v)
sv = lambda v: acc('VStr', 0, v)
rv = lambda v: acc('VRef', 0, v)
dv = lambda v: acc('VDict', 0, v)
lv = lambda v: acc('VList', 0, v)
g = lambda m, k: mget(m, vs(k))
SEQF, REPOSF, BLOCKSF = f'{SEQS}.sequences', f'{MEM}.repos', f'{MEM}.blocks'
STSEQ = f'{ST}.sequences'
BF = lambda n: f'{BLK}.{n}'
RF = lambda n: f'{REPO}.{n}'
_k, _k2 = Consts('k k2', Val)
_o, _i, _j = Ints('o i j')
_x = Const('x', Val)
_b = Const('b', Byt)
CIDBYTES = Function('cidbytes', Cid, Byt)
_hb = Const('hb', Byt)
axiom('hash', 'different bytes have different CIDs', FA([_hb], Function('unhash', Cid, Byt)(
    MKCID(SHA2(_hb))) == _hb, MKCID(SHA2(_hb))))
axiom('cbor', 'encodings are not empty', FA([_x], BYT.len_(ENC(_x)) > 0, ENC(_x)))
_m, _m2 = Consts('m m2', Map)
_s = Const('s', Str)
_v = Const('v', Val)
scalar = lambda v: Or(v == VNone, *[RECOG[n](v) for n in ('VBool', 'VInt', 'VStr', 'VByt', 'VCid')])
axiom('cbor', 'an empty map can be encoded', CBOR_OK(VDict(mempty)))
axiom('cbor', 'maps of what can be encoded', FA([_m, _s, _v], Implies(
    And(CBOR_OK(VDict(_m)), Or(scalar(_v), CBOR_OK(_v))), CBOR_OK(VDict(mput(
        _m, VStr(_s), _v)))), CBOR_OK(VDict(mput(_m, VStr(_s), _v)))))
axiom('cbor', 'merged maps', FA([_m, _m2], Implies(
    And(CBOR_OK(VDict(_m)), CBOR_OK(VDict(_m2))), CBOR_OK(VDict(mover(_m, _m2)))),
    CBOR_OK(VDict(mover(_m, _m2)))))
axiom('map', 'merging keeps keys', FA([_m, _m2], SEQ.len_(mkeys(mover(_m, _m2))) >= SEQ.len_(
    mkeys(_m)), mkeys(mover(_m, _m2))))


def truthy(v):
    return Not(Or(v == VNone, v == VAbsent, And(RECOG['VStr'](v), STR.len_(sv(v)) == 0)))


def is_block(v):
    return And(RECOG['VRef'](v), cls_(rv(v)) == cls_id(BLK))


def is_repo(v):
    return And(RECOG['VRef'](v), cls_(rv(v)) == cls_id(REPO))


def stored_ok(blocks, seqs):
    """every stored block is filed under its own CID and has a sequence number"""
    b = mget(blocks, _k)
    return FA([_k], Implies(b != VAbsent, And(
        is_block(b), _k == VCid(bcid(rv(b))), CBOR_OK(bdec(rv(b))),
        RECOG['VInt'](Select(seqs, rv(b))), iv(Select(seqs, rv(b))) >= 0)), b)


def repo_did(head):
    """Val: the DID that a repo's head commit gives it"""
    return If(head == VNone, VNone, mget(dv(bdec(rv(head))), vs('did')))


def head_ok(h):
    """nothing or a commit block"""
    d = bdec(rv(h))
    return Or(h == VNone, And(is_block(h), CBOR_OK(d), RECOG['VDict'](d),
                              RECOG['VStr'](g(dv(d), 'did')), STR.len_(sv(g(dv(d), 'did'))) > 0))


def repos_ok(repos, heads, handles):
    """repos are filed under their DIDs"""
    r = mget(repos, _k)
    h = Select(heads, rv(r))
    return FA([_k], Implies(r != VAbsent, And(
        is_repo(r), head_ok(h), h != VNone, g(dv(bdec(rv(h))), 'did') == _k,
        Or(Select(handles, rv(r)) == VNone, RECOG['VStr'](Select(handles, rv(r)))))), r)


def seq_ok(entries):
    v = mget(entries, _k)
    return FA([_k], Implies(v != VAbsent, And(RECOG['VInt'](v), iv(v) >= 2)), v)


class View:
    """shorthands over a call context"""

    def __init__(self, c):
        self.c = c

    def st(self):
        return self.c.ref('self')

    def blocks(self, old=False, st=None):
        st = self.st() if st is None else st
        return dv((self.c.old if old else self.c.h)(BLOCKSF, st))

    def repos(self, old=False, st=None):
        st = self.st() if st is None else st
        return dv((self.c.old if old else self.c.h)(REPOSF, st))

    def seqs(self, old=False, st=None):
        """the storage's map of next sequence numbers"""
        st = self.st() if st is None else st
        f = self.c.old if old else self.c.h
        return dv(f(SEQF, rv(f(STSEQ, st))))

    def next(self, old=False, st=None):
        v = mget(self.seqs(old, st), vs(NSID))
        return If(v == VAbsent, IntVal(1), iv(v))

    def allocated(self, n):
        """exactly n numbers of the firehose's stream were allocated"""
        n0 = self.next(True)
        return And(self.next() == n0 + n) if not isinstance(n, int) or n else And(
            self.seqs() == self.seqs(True))

    def other_streams(self):
        return FA([_k], Implies(_k != vs(NSID), mget(self.seqs(), _k) == mget(
            self.seqs(True), _k)), mget(self.seqs(), _k))

    def blocks_ok(self, old=False):
        return stored_ok(self.blocks(old), (self.c.oldarr if old else self.c.h_arr)(BF('seq')))

    def repos_ok(self):
        return repos_ok(self.repos(), self.c.h_arr(RF('head')), self.c.h_arr(RF('handle')))

    def kept(self):
        """no stored block was replaced, removed or changed"""
        b0 = mget(self.blocks(True), _k)
        r = rv(b0)
        return FA([_k], Implies(b0 != VAbsent, And(
            mget(self.blocks(), _k) == b0,
            *[Select(self.c.h_arr(BF(f)), r) == Select(self.c.oldarr(BF(f)), r)
              for f in ('seq', 'ops')])), mget(self.blocks(), _k), b0)

    def calls(self):
        return iv(self.c.h(CALLS)) - iv(self.c.old(CALLS))

    def last_call(self, f):
        return Select(self.c.h_arr(CALLS + f), iv(self.c.h(CALLS)) - 1)


def register(reg):
    reg.known_classes |= {SEQS, MEM, BLK, REPO, 'mst.MST'}
    reg.mutable_globals |= {CALLS} | {CALLS + f for f in CALLF}
    reg.field_spec[CALLS] = {'kind': 'int'}
    reg.field_spec[SEQF] = {'kind': 'dict'}
    reg.field_spec[REPOSF] = {'kind': 'dict'}
    reg.field_spec[BLOCKSF] = {'kind': 'dict'}
    reg.field_spec[STSEQ] = {'kind': 'ref:' + SEQS}
    reg.field_spec[RF('storage')] = {'kind': 'ref:' + MEM}
    reg.field_spec[RF('head')] = {'kind': 'opt:ref:' + BLK}
    reg.field_spec[RF('status')] = {'kind': 'opt:str'}
    reg.field_spec[RF('handle')] = {'kind': 'opt:str'}
    reg.field_spec[RF('mst')] = {'kind': 'opt:ref:mst.MST'}
    reg.field_spec[RF('callback')] = {'kind': 'any'}
    reg.cache_fields += [BF('_cid'), BF('_encoded'), BF('_decoded')]

    # -- hashing
    reg.libs['multihash.digest'] = reg.libs['multiformats.multihash.digest'] = digest
    reg.libs['multiformats.CID'] = mkcid
    reg.libs['multiformats.CID.decode'] = lambda ex, a, kw: VCid(ex.data['cid_of_bytes'](
        ex, a[0])) if 'cid_of_bytes' in ex.data else cid_decode(ex, a, kw)
    reg.val_methods[('VOpq', 'isoformat')] = lambda ex, o, a, kw: VStr(Function(
        'isoformat', Opq, Str)(acc('VOpq', 0, o)))

    # -- blocks
    def binv(ex, ref):
        c, e, d = (ex.heap_get(BF(n), ref) for n in ('_cid', '_encoded', '_decoded'))
        return [('cid', Or(c == VNone, And(c == VCid(bcid(ref)), CBOR_OK(bdec(ref))))),
                ('encoded', Or(e == VNone, And(e == VByt(benc(ref)), CBOR_OK(bdec(ref))))),
                ('decoded', Or(d == VNone, d == bdec(ref))),
                ('one of them is set', Or(e != VNone, d != VNone))]

    def bghost(ex, ref):
        d, e = ex.heap_get(BF('_decoded'), ref), ex.heap_get(BF('_encoded'), ref)
        ex.assume(bdec(ref) == If(d != VNone, d, DEC(acc('VByt', 0, e))))
        # a new object is in no existing data structure
        st = ex.hkey(BLOCKSF)
        t = mget(dv(Select(st, _o)), _k)
        ex.assume(FA([_o, _k], t != VRef(ref), t))
    reg.classes[BLK] = {'inv': binv, 'fields': {BF('_cid'), BF('_encoded'), BF('_decoded')},
                        'ghost_init': bghost}
    B = lambda c: c.ref('self')
    bad = [('ValueError', lambda c: Not(CBOR_OK(bdec(B(c)))))]
    BCACHE = [BF(n) for n in ('_cid', '_encoded', '_decoded')]
    P = {'self': 'ref:' + BLK}
    reg.add(BLK + '.cid', params=P, caches=BCACHE, returns='cid', raises=bad,
            ensures=lambda c, r: [('the hash of its bytes', r == VCid(bcid(B(c))))])
    reg.add(BLK + '.encoded', params=P, caches=BCACHE, returns='byt', raises=bad,
            ensures=lambda c, r: [('the encoding of its value', r == VByt(benc(B(c))))])
    reg.add(BLK + '.decoded', params=P, caches=BCACHE, returns='any',
            result=lambda ex, c: ex.unobj(bdec(B(c))),
            ensures=lambda c, r: [('its value', r == bdec(B(c)))])
    reg.add(BLK + '.__eq__', params={'self': 'ref:' + BLK, 'other': 'ref:' + BLK},
            returns='bool', raises=[('ValueError', lambda c: Or(
                Not(CBOR_OK(bdec(B(c)))), Not(CBOR_OK(bdec(c.ref('other'))))))],
            ensures=lambda c, r: [('same CID', acc('VBool', 0, r) == (
                bcid(B(c)) == bcid(c.ref('other'))))])

    # -- sequence numbers
    reg.classes[SEQS] = {
        'inv': lambda ex, ref: [('every entry is at least 2', seq_ok(dv(ex.heap_get(SEQF, ref))))],
        'fields': {SEQF}}
    ent = lambda c, old=False: dv((c.old if old else c.h)(SEQF, c.ref('self')))
    e0 = lambda c: mget(ent(c, True), c.v('nsid'))
    nonempty = [('AssertionError', lambda c: STR.len_(c.s('nsid')) == 0, lambda c: [
        ('nothing changes', ent(c) == ent(c, True))])]
    SP = {'self': 'ref:' + SEQS, 'nsid': 'str'}
    reg.add(SEQS + '.__init__', params={'self': 'ref:' + SEQS}, returns='none', modifies=[SEQF],
            frame=lambda c: [(SEQF, [c.ref('self')])],
            ensures=lambda c, r: [('nothing was allocated', ent(c) == mempty)])
    reg.add(SEQS + '.allocate', params=SP, returns='int', modifies=[SEQF],
            frame=lambda c: [(SEQF, [c.ref('self')])], raises=nonempty,
            ensures=lambda c, r: [
                ('positive', iv(r) >= 1),
                ('starts at 1', Implies(e0(c) == VAbsent, r == VInt(1))),
                ('one more than the last', Implies(e0(c) != VAbsent, r == e0(c))),
                ('the next will be one more', mget(ent(c), c.v('nsid')) == VInt(iv(r) + 1)),
                ('other streams are unaffected', FA([_k], Implies(
                    _k != c.v('nsid'), mget(ent(c), _k) == mget(ent(c, True), _k)),
                    mget(ent(c), _k)))])
    reg.add(SEQS + '.last', params=SP, returns='opt:int', raises=nonempty,
            ensures=lambda c, r: [
                ('nothing before the first', Implies(e0(c) == VAbsent, r == VNone)),
                ('the latest allocated', Implies(e0(c) != VAbsent, r == VInt(iv(e0(c)) - 1)))])

    # -- the in-memory storage
    M = {'self': 'ref:' + MEM}
    v = View

    def entry(ex, c, *names):
        """objects named by the heap on entry exist already"""
        pass
    okb = lambda c: [('stored blocks', v(c).blocks_ok())]
    okr = lambda c: [('stored repos', v(c).repos_ok())]
    reg.add(MEM + '.__init__', params={'self': 'ref:' + MEM, 'sequences': 'opt:ref:' + SEQS},
            returns='none', modifies=[BLOCKSF, REPOSF, STSEQ, SEQF],
            frame=lambda c: [(BLOCKSF, [v(c).st()]), (REPOSF, [v(c).st()]), (STSEQ, [v(c).st()])],
            ensures=lambda c, r: [
                ('no blocks', v(c).blocks() == mempty), ('no repos', v(c).repos() == mempty),
                ('the given sequences', Implies(c.v('sequences') != VNone,
                                                c.h(STSEQ, v(c).st()) == c.v('sequences'))),
                ('existing sequences are untouched', FA([_o], Implies(_o <= 0, Select(
                    c.h_arr(SEQF), _o) == Select(c.oldarr(SEQF), _o)), Select(
                        c.h_arr(SEQF), _o)))])
    did = lambda c, n='repo': repo_did(c.h(RF('head'), c.ref(n)))
    for m in ('create_repo', 'store_repo'):
        reg.add(f'{MEM}.{m}', params={**M, 'repo': 'ref:' + REPO}, returns='none',
                requires=lambda c: [('repo has a head', And(
                    head_ok(c.h(RF('head'), c.ref('repo'))),
                    c.h(RF('head'), c.ref('repo')) != VNone))],
                modifies=[REPOSF], frame=lambda c: [(REPOSF, [v(c).st()])],
                ensures=lambda c, r: [('filed under its DID', FA([_k], mget(
                    v(c).repos(), _k) == If(_k == did(c), c.v('repo'), mget(
                        v(c).repos(True), _k)), mget(v(c).repos(), _k)))])

    def loaded(c, r):
        """r is what load_repo returns"""
        x = c.v('did_or_handle')
        e = mget(v(c).repos(), _k)
        h = lambda o: c.h(RF('handle'), o)
        return [
            ('nothing only if no repo has that DID or handle', Implies(r == VNone, FA(
                [_k], Implies(e != VAbsent, And(_k != x, Select(
                    c.h_arr(RF('handle')), rv(e)) != x)), e))),
            ('a stored repo with that DID or handle', Implies(r != VNone, And(
                is_repo(r), mget(v(c).repos(), repo_did(Select(c.h_arr(RF('head')), rv(r)))) == r,
                head_ok(c.h(RF('head'), rv(r))), c.h(RF('head'), rv(r)) != VNone,
                Or(repo_did(c.h(RF('head'), rv(r))) == x, h(rv(r)) == x))))]

    def load_loop(L):
        if L.seq is None or L.seq.decl().name() != 'mvals':
            return
        ex = L.ex
        x = ex.cut_params['did_or_handle']
        m = L.seq.arg(0)
        e = mget(m, _k)
        heads, handles = ex.hkey(RF('head')), ex.hkey(RF('handle'))
        yield 'none so far matches', FA([_k], Implies(
            And(e != VAbsent, midx(m, _k) < L.i, SEQ.len_(mkeys(m)) >= 0),
            And(_k != x, Select(handles, rv(e)) != x)), e)

    def load_setup(ex, c):
        ex.cut_params = {'did_or_handle': c.v('did_or_handle')}
    reg.add(MEM + '.load_repo', params={**M, 'did_or_handle': 'str'}, returns='opt:ref:' + REPO,
            setup=load_setup, requires=okr, loops=[load_loop], ensures=loaded,
            raises=[('AssertionError', lambda c: STR.len_(c.s('did_or_handle')) == 0)])
    reg.add(MEM + '._set_repo_status', params={**M, 'repo': 'ref:' + REPO, 'status': 'opt:str'},
            returns='none', modifies=[RF('status')],
            frame=lambda c: [(RF('status'), [c.ref('repo')])],
            ensures=lambda c, r: [('the status is set', c.h(RF('status'), c.ref('repo')) ==
                                   c.v('status'))])
    at = lambda c, k: mget(v(c).blocks(), k)
    reg.add(MEM + '.read', params={**M, 'cid': 'cid'}, caches=[], returns='opt:ref:' + BLK, requires=okb,
            ensures=lambda c, r: [
                ('the stored block, if any', r == If(at(c, c.v('cid')) == VAbsent, VNone,
                                                     at(c, c.v('cid'))))])
    reg.add(MEM + '.has', params={**M, 'cid': 'cid'}, caches=[], returns='bool',
            ensures=lambda c, r: [('whether it is stored', acc('VBool', 0, r) == (
                at(c, c.v('cid')) != VAbsent))])

    def many_loop(L):
        if L.seq is None:
            return
        for nm, t0, t in L.maps():
            e = mget(t, _k)
            ex = L.ex
            st = ex.cut_params.get('self')
            if st is None:
                continue
            b = mget(dv(Select(ex.hkey(BLOCKSF), st)), _k)
            yield f'{nm} holds what is stored', FA([_k], Implies(
                e != VAbsent, e == If(b == VAbsent, VNone, b)), e)
            yield f'{nm} has every one so far', FA([_j], Implies(
                And(0 <= _j, _j < L.i), mget(t, SEQ.at_(L.seq, _j)) != VAbsent), SEQ.at_(
                    L.seq, _j))
            yield f'{nm} has only those', FA([_k], Implies(e != VAbsent, mget(
                setof(L.seq), _k) != VAbsent), e)

    def self_setup(ex, c):
        ex.cut_params = {'self': c.ref('self')}
    cidseq = lambda c: c.seq('cids')
    res = lambda r, k=_k: mget(dv(r), k)
    reg.add(MEM + '.read_many', params={**M, 'cids': 'list'}, returns='dict', setup=self_setup,
            requires=okb, loops=[many_loop], ensures=lambda c, r: [
                ('every requested CID', FA([_j], Implies(
                    And(0 <= _j, _j < SEQ.len_(cidseq(c))),
                    res(r, SEQ.at_(cidseq(c), _j)) != VAbsent), SEQ.at_(cidseq(c), _j))),
                ('only those', FA([_k], Implies(res(r) != VAbsent, mget(
                    setof(cidseq(c)), _k) != VAbsent), res(r))),
                ('what a single read returns', FA([_k], Implies(res(r) != VAbsent, res(r) == If(
                    at(c, _k) == VAbsent, VNone, at(c, _k))), res(r)))])

    def newblock(c, obj):
        """the block just created"""
        return VCid(HASHC(ENC(obj)))

    def write_post(c, r):
        obj = c.v('obj')
        given = c.v('seq') != VNone
        s = c.h(BF('seq'), rv(r))
        k = VCid(bcid(rv(r)))
        return [
            ('holds the object', bdec(rv(r)) == obj),
            ('can be encoded', CBOR_OK(obj)),
            ('with the given number', Implies(given, And(s == c.v('seq'), v(c).allocated(0)))),
            ('or a new one', Implies(Not(given), And(s == VInt(v(c).next(True)),
                                                     v(c).allocated(1)))),
            ('for the repo', c.h(BF('repo'), rv(r)) == c.v('repo_did')),
            ('without operations', c.h(BF('ops'), rv(r)) == VNone),
            ('other streams are unaffected', v(c).other_streams()),
            ('stored unless its CID already was', FA([_k], mget(v(c).blocks(), _k) == If(
                And(_k == k, mget(v(c).blocks(True), _k) == VAbsent), r, mget(
                    v(c).blocks(True), _k)), mget(v(c).blocks(), _k))),
            ('stored blocks are kept', v(c).kept()),
            ('stored blocks', v(c).blocks_ok())]
    BNEW = [BF(n) for n in ('seq', 'ops', 'time', 'repo')]
    reg.add(MEM + '.write', params={**M, 'repo_did': 'any', 'obj': 'dict', 'seq': 'opt:nat'},
            returns='fresh:' + BLK, modifies=[BLOCKSF, SEQF] + BNEW,
            frame=lambda c: [(BLOCKSF, [v(c).st()]),
                             (SEQF, [rv(c.old(STSEQ, v(c).st()))])] + [(k, []) for k in BNEW],
            requires=okb, ensures=write_post,
            raises=[('AssertionError', None, lambda c: [
                ('only for an empty object', SEQ.len_(mkeys(c.map('obj'))) == 0),
                ('no block is stored', v(c).blocks() == v(c).blocks(True))]),
                    ('ValueError', None, lambda c: [
                ('only if it cannot be encoded', Not(CBOR_OK(c.v('obj')))),
                ('no block is stored', v(c).blocks() == v(c).blocks(True))])])
    blks = lambda c: c.seq('blocks')

    def blist_ok(c):
        e = SEQ.at_(blks(c), _j)
        return [('encodable blocks with numbers', FA([_j], Implies(
            And(0 <= _j, _j < SEQ.len_(blks(c))),
            And(is_block(e), CBOR_OK(bdec(rv(e))), RECOG['VInt'](Select(
                c.h_arr(BF('seq')), rv(e))), iv(Select(c.h_arr(BF('seq')), rv(e))) >= 0)), e))]

    def wb_loop(L):
        if L.seq is None:
            return
        ex = L.ex
        for k, h0, h in L.fields():
            if k != BLOCKSF:
                continue
            st = ex.cut_params['self']
            t0, t = dv(Select(h0, st)), dv(Select(h, st))
            yield 'still a dict', RECOG['VDict'](Select(h, st))
            yield 'other storages', FA([_o], Implies(_o != st, Select(h, _o) == Select(h0, _o)),
                                       Select(h, _o))
            yield 'kept', FA([_k], Implies(mget(t0, _k) != VAbsent, mget(t, _k) == mget(t0, _k)),
                             mget(t, _k), mget(t0, _k))
            e = SEQ.at_(L.seq, _j)
            yield 'all so far', FA([_j], Implies(And(0 <= _j, _j < L.i), mget(
                t, VCid(bcid(rv(e)))) != VAbsent), e)
            yield 'only those', FA([_k], Implies(mget(t, _k) != VAbsent, Or(
                mget(t, _k) == mget(t0, _k), mget(setof(L.seq), mget(t, _k)) != VAbsent)),
                mget(t, _k))
            yield 'filed under its CID', stored_ok(t, ex.hkey(BF('seq')))
    reg.add(MEM + '.write_blocks', params={**M, 'blocks': 'list'}, returns='none',
            setup=self_setup, modifies=[BLOCKSF], frame=lambda c: [(BLOCKSF, [v(c).st()])],
            requires=lambda c: okb(c) + blist_ok(c), loops=[wb_loop],
            ensures=lambda c, r: [
                ('stored blocks are kept', v(c).kept()),
                ('all are stored', FA([_j], Implies(
                    And(0 <= _j, _j < SEQ.len_(blks(c))), mget(v(c).blocks(), VCid(bcid(rv(
                        SEQ.at_(blks(c), _j))))) != VAbsent), SEQ.at_(blks(c), _j))),
                ('only those are added', FA([_k], Implies(mget(v(c).blocks(), _k) != VAbsent, Or(
                    mget(v(c).blocks(), _k) == mget(v(c).blocks(True), _k), mget(setof(
                        blks(c)), mget(v(c).blocks(), _k)) != VAbsent)),
                    mget(v(c).blocks(), _k))),
                ('stored blocks', v(c).blocks_ok())])

    # -- events and status changes. Callbacks only record what they are given, or raise
    old_call = reg.hooks.get('call_value')

    def call_value(ex, f, a, kw):
        if con_of(f) is None or not f.decl().eq(CONS['VOpq']):
            if ex.con(f) != 'VOpq' and not (isinstance(f, ExprRef) and ex.data.get(
                    'callbacks') and ex.branch(RECOG['VOpq'](f))):
                if old_call:
                    return old_call(ex, f, a, kw)
                ex.unsupported('call of a value')
        if a or set(kw) - {'data', 'lost_seq'}:
            ex.unsupported('callback arguments')
        n = iv(ex.heap_get(CALLS, zero))
        ex.heap_set(CALLS, zero, VInt(n + 1))
        for fl, x in (('.data', kw.get('data', VNone)), ('.lost', kw.get('lost_seq', VNone)),
                      ('.fn', f)):
            ex.heap_set(CALLS + fl, n, ex.tov(x))
        if ex.data.get('callback_raises') and ex.choose(2) == 1:
            ex.raise_('Exception')
        return VNone
    reg.hooks['call_value'] = call_value
    CALLK = [CALLS] + [CALLS + f for f in CALLF]

    def cb_setup(ex, c):
        ex.data['callbacks'] = True
    R = lambda c, f, old=False: (c.old if old else c.h)(RF(f), c.ref('repo'))
    cb_ok = lambda c: [('callback is a function or nothing', Or(
        R(c, 'callback') == VNone, RECOG['VOpq'](R(c, 'callback')))),
        ('call log', RECOG['VInt'](c.h(CALLS)))]
    has_head = lambda c: [('repo has a head', And(head_ok(R(c, 'head')), R(c, 'head') != VNone))]

    def one_event(c, r, typ, fields, seq_ok=True):
        """exactly one event with these fields was written and given to the callback"""
        d = bdec(rv(r))
        n = v(c).next(True)
        m = dv(d)
        cb = R(c, 'callback', True)
        if not isinstance(typ, str) and lit_of(typ) is not None:
            typ = lit_of(typ)
        return [
            ('one number is allocated', And(v(c).allocated(1), v(c).other_streams())),
            ('the event has it', And(RECOG['VDict'](d), g(m, 'seq') == VInt(n), c.h(
                BF('seq'), rv(r)) == VInt(n))),
            ('the event type', g(m, '$type') == VStr(STR.cat(slit(NSID + '#'), typ) if not
                                                    isinstance(typ, str) else slit(
                                                        f'{NSID}#{typ}'))),
            ("the repo's DID", And(g(m, 'did') == did(c), c.h(BF('repo'), rv(r)) == did(c))),
            ('its fields', And(*[g(m, k) == x for k, x in fields.items()])),
            ('stored', And(mget(v(c).blocks(), VCid(bcid(rv(r)))) != VAbsent, Implies(mget(
                v(c).blocks(True), VCid(bcid(rv(r)))) == VAbsent, mget(v(c).blocks(), VCid(bcid(
                    rv(r)))) == r))),
            ('nothing else is stored', FA([_k], Implies(_k != VCid(bcid(rv(r))), mget(
                v(c).blocks(), _k) == mget(v(c).blocks(True), _k)), mget(v(c).blocks(), _k))),
            ('stored blocks are kept', v(c).kept()), ('stored blocks', v(c).blocks_ok()),
            ('given to the callback once', If(cb == VNone, v(c).calls() == 0, And(
                v(c).calls() == 1, v(c).last_call('.data') == d,
                v(c).last_call('.lost') == VNone, v(c).last_call('.fn') == cb)))]
    EVM = [BLOCKSF, SEQF] + BNEW + CALLK
    EVF = lambda c: [(BLOCKSF, [v(c).st()]), (SEQF, [rv(c.old(STSEQ, v(c).st()))])] + [
        (k, []) for k in BNEW]
    TYPES = ('account', 'identity', 'sync', 'tombstone')

    def we_fields(c):
        kw = c.map('kwargs')
        ks = c.ex.concrete_keys(Cont(c.ex, 'dict', kw))
        if ks is not None:
            return And(*[mget(dv(bdec(rv(c.res))), k) == simplify_get(c.ex, kw, k) for k in ks])
        return FA([_k], Implies(mget(kw, _k) != VAbsent, mget(dv(bdec(rv(c.res))), _k) == mget(
            kw, _k)), mget(kw, _k))

    def we_post(c, r):
        c.res = r
        fixed = [vs(n) for n in ('$type', 'seq', 'did', 'time')]
        return one_event(c, r, c.s('type'), {}) + [('the other fields', we_fields(c))]
    reg.add(MEM + '.write_event', params={**M, 'repo': 'ref:' + REPO, 'type': 'str'},
            returns='fresh:' + BLK, setup=cb_setup, modifies=EVM, frame=EVF,
            requires=lambda c: okb(c) + cb_ok(c) + has_head(c) + [
                ('no standard field is replaced', And(*[mget(c.map('kwargs'), vs(n)) == VAbsent
                                                        for n in ('$type', 'seq', 'did',
                                                                  'time')])),
                ('can be encoded', CBOR_OK(VDict(c.map('kwargs'))))],
            ensures=we_post,
            raises=[('AssertionError', lambda c: And(*[c.v('type') != vs(t) for t in TYPES]),
                     lambda c: [('nothing is allocated', v(c).allocated(0))])])
    reg.alias[ST + '.write_event'] = MEM + '.write_event'

    def status_change(c, status, typ, fields):
        n = v(c).next(True)
        # the only new block
        blk = c.ex.data['written'] if 'written' in c.ex.data else None
        return [('the status is set', R(c, 'status') == status)]

    def evt(c, typ, fields):
        """the event given to the callback, and stored"""
        k = c.g['blk']
        return one_event(c, k, typ, fields)

    def change(m, status, typ, fields, skip=None):
        def post(c, r):
            done = lambda: one_event(c, c.g['blk'], typ, fields) + [
                ('the status is set', R(c, 'status') == status)]
            nothing = [R(c, 'status') == R(c, 'status', True), v(c).allocated(0),
                       v(c).blocks() == v(c).blocks(True), v(c).calls() == 0]
            if skip is None:
                return done()
            s = skip(c)
            return [(lab, Implies(Not(s), f)) for lab, f in done()] + [
                ('otherwise nothing changes', Implies(s, And(*nothing)))]

        def post2(c, r):
            if 'blk' not in c.g:
                # the block stored under the number that was allocated
                b = c.ex.data.get('event_block')
                if b is None or c.con is not c.ex.cut:
                    b = VRef(c.ex.fresh('event', Int_))
                    c.ex.data['event_blocks'] = b
                c.g['blk'] = b
            return post(c, r)
        reg.add(f'{MEM}.{m}', params={**M, 'repo': 'ref:' + REPO}, returns='none', setup=cb_setup,
                modifies=EVM + [RF('status')],
                frame=lambda c: EVF(c) + [(RF('status'), [c.ref('repo')])],
                requires=lambda c: okb(c) + cb_ok(c) + has_head(c), ensures=post2)
        reg.alias[f'{ST}.{m}'] = f'{MEM}.{m}'
    T, F = VBool(BoolVal(True)), VBool(BoolVal(False))
    change('deactivate_repo', vs('deactivated'), 'account', {'active': F,
                                                             'status': vs('deactivated')})
    change('activate_repo', VNone, 'account', {'active': T},
           skip=lambda c: R(c, 'status', True) == vs('tombstoned'))
    change('tombstone_repo', vs('tombstoned'), 'tombstone', {})
    base_we = reg.contracts[MEM + '.write_event'].after

    def we_after(ex, c, r):
        ex.data['event_block'] = r
    reg.contracts[MEM + '.write_event'].after = we_after

    # -- reading in order
    def by_seq_loop(L):
        if L.seq is None or L.seq.decl().name() != 'mvals':
            return
        ex = L.ex
        m = L.seq.arg(0)
        cut = ex.cut_params
        sq, rp = ex.hkey(BF('seq')), ex.hkey(BF('repo'))
        wanted = lambda b: And(iv(Select(sq, rv(b))) >= cut['start'], Or(
            Not(truthy(cut['repo'])), Select(rp, rv(b)) == cut['repo']))
        key = lambda b: VCid(bcid(rv(b)))
        for nm, t0, t in L.lists():
            x, y = SEQ.at_(t, _j), SEQ.at_(t, _i)
            yield f'{nm} holds wanted stored blocks', FA([_j], Implies(
                And(0 <= _j, _j < SEQ.len_(t)), And(is_block(x), mget(m, key(x)) == x,
                                                   wanted(x), midx(m, key(x)) < L.i)), x)
            yield f'{nm} in dict order', FA([_i, _j], Implies(
                And(0 <= _i, _i < _j, _j < SEQ.len_(t)), midx(m, key(y)) < midx(m, key(x))),
                [x, y])
            b = mget(m, _k)
            yield f'{nm} holds all wanted', FA([_k], Implies(
                And(b != VAbsent, midx(m, _k) < L.i, SEQ.len_(mkeys(m)) >= 0, wanted(b)),
                mget(setof(t), b) != VAbsent), b)

    def by_seq_setup(ex, c):
        ex.cut_params = {'start': c.i('start'), 'repo': c.v('repo'), 'self': c.ref('self')}

    def by_seq_post(c, r):
        s = acc('VList', 0, r)
        m = v(c).blocks()
        n = SEQ.len_(s)
        sq, rp = c.h_arr(BF('seq')), c.h_arr(BF('repo'))
        x, y, b = SEQ.at_(s, _j), SEQ.at_(s, _i), mget(m, _k)
        wanted = lambda b: And(iv(Select(sq, rv(b))) >= c.i('start'), Or(
            Not(truthy(c.v('repo'))), Select(rp, rv(b)) == c.v('repo')))
        return [
            ('only stored blocks from start on, of the repo', FA([_j], Implies(
                And(0 <= _j, _j < n), And(is_block(x), mget(m, VCid(bcid(rv(x)))) == x,
                                          wanted(x))), x)),
            ('ascending', FA([_i, _j], Implies(And(0 <= _i, _i <= _j, _j < n), iv(Select(
                sq, rv(y))) <= iv(Select(sq, rv(x)))), [x, y])),
            ('each once', FA([_i, _j], Implies(And(0 <= _i, _i < _j, _j < n), x != y), [x, y])),
            ('every such block', FA([_k], Implies(And(b != VAbsent, wanted(b)), mget(
                setof(s), b) != VAbsent), b))]
    reg.add(MEM + '.read_blocks_by_seq', params={**M, 'start': 'int', 'repo': 'opt:str'},
            returns='list', requires=okb, setup=by_seq_setup, loops=[by_seq_loop],
            ensures=by_seq_post, raises=[('AssertionError', lambda c: c.i('start') < 0)])

    # -- paging through repos
    def repos_post(c, r):
        s = acc('VList', 0, r)
        m = v(c).repos()
        n = SEQ.len_(s)
        heads = c.h_arr(RF('head'))
        didof = lambda x: repo_did(Select(heads, rv(x)))
        x, y, e = SEQ.at_(s, _j), SEQ.at_(s, _i), mget(m, _k)
        after = c.v('after')
        past = lambda d: Or(Not(truthy(after)), sord(sv(after)) < sord(sv(d)))
        return [
            ('at most limit', n <= c.i('limit')),
            ('stored repos after the cursor', FA([_j], Implies(
                And(0 <= _j, _j < n), And(is_repo(x), mget(m, didof(x)) == x,
                                          past(didof(x)))), x)),
            ('ascending by DID', FA([_i, _j], Implies(And(0 <= _i, _i < _j, _j < n), sord(sv(
                didof(y))) < sord(sv(didof(x)))), [x, y])),
            ('none is left out', FA([_k], Implies(
                And(e != VAbsent, RECOG['VStr'](_k), past(_k), mget(setof(s), e) == VAbsent),
                And(n == c.i('limit'), FA([_j], Implies(
                    And(0 <= _j, _j < n), sord(sv(didof(x))) < sord(sv(_k))), x))), e))]

    def repos_setup(ex, c):
        self_setup(ex, c)
        m = v(c).repos()
        h = ex.hkey(RF('head'))

        def fact(x, i):
            k = SEQ.at_(mkeys(m), i)
            hd = Select(h, rv(x))
            return And(x == mget(m, k), x != VAbsent, is_repo(x), hd != VNone, is_block(hd),
                       RECOG['VDict'](bdec(rv(hd))), g(dv(bdec(rv(hd))), 'did') == k,
                       RECOG['VStr'](k))
        ex.elem_fact(mvals(m), fact)
    reg.add(MEM + '.load_repos', params={**M, 'after': 'opt:str', 'limit': 'nat',
                                         'minimal': 'bool'}, returns='list',
            setup=repos_setup, requires=okr, ensures=repos_post)


def digest(ex, a, kw):
    if lit_of(ex.as_str(a[1])) != 'sha2-256':
        ex.unsupported('multihash')
    return VByt(SHA2(ex.want(a[0], 'VByt')))


def mkcid(ex, a, kw):
    if kw or len(a) != 4 or [lit_of(ex.as_str(a[0])), ex.as_int(a[1]), lit_of(ex.as_str(
            a[2]))] != ['base58btc', 1, 'dag-cbor']:
        ex.unsupported('CID')
    return VCid(MKCID(ex.want(a[3], 'VByt')))


def cid_decode(ex, a, kw):
    ex.unsupported('CID.decode')
