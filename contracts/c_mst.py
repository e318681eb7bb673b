"""Merkle search trees (arroba/mst.py).

A tree node m is described by rigid ghosts: ents(m) is its list of entries (leaves and subtrees,
loaded or not), stg(m) its storage, and cidm(m) the CID of its serialized form. The object's
`entries`, `pointer`, `outdated_pointer` and `layer` attributes are caches of these, except that
the layer of a node without entries is only in `layer`.

Over lists of entries, these functions are homomorphisms (defined on the empty list, one entry,
and concatenations): GETS (value of a key), LO and HI (least and greatest key, as reals), SRT
(keys ascend), NOK (all leaves are on one layer, with valid keys; subtrees are not empty, not next
to each other, and one layer further down), SKEL (entries with subtrees' CIDs). The functions that
use trees (Storage.commit and so on) see only WFS and GET, which are defined by those."""
import z3
from theory import *
from values import *
from lib import setof, UTF8, UNUTF8, IS_UTF8, ASCII, BYTESEQ, re_pred
from c_did import SHA256
from c_uri import SPLIT
from z3 import Select, substitute
from c_storage import (MEM, BLK, bcid, bdec, rv, dv, lv, iv, sv, View, CBOR_OK, is_block, BF,
                       BLOCKSF, HASHC, ENC, stored_ok)
from c_crypto import DEC

MST = 'mst.MST'
LEAF = 'mst.Leaf'
MF = lambda n: f'{MST}.{n}'
ents = Function('ents', Int_, Seq)
stg = Function('mststorage', Int_, Int_)
cidm = Function('cidm', Int_, Cid)
WFS = Function('mstwf', Int_, Bool_)
GET = Function('mstget', Seq, Str, Val)
VALIDKEY = Function('validkey', Str, Bool_)
ISNODE = Function('isnode', Int_, Cid, Bool_)
_k, _k2, _x = Consts('k k2 x', Val)
_s, _t = Consts('s t', Str)
_c = Const('c', Cid)
_y = Const('y', Byt)
_a, _b = Consts('a b', Seq)
_o, _L, _g, _j = Ints('o L g j')
tget = lambda m, k: GET(ents(m), k)

# -- lists of entries
GETS = Function('mst_get', Seq, Str, Val)
LO, HI = Function('mst_lo', Seq, z3.RealSort()), Function('mst_hi', Seq, z3.RealSort())
SRT = Function('mst_sorted', Seq, Bool_)
NOK = Function('mst_nodes', Seq, Int_, Int_, Bool_)         # entries, layer, storage
SR, ER = Function('starts_ref', Seq, Bool_), Function('ends_ref', Seq, Bool_)
LAYS = Function('mst_layer', Seq, Int_)
SKEL = Function('mst_skel', Seq, Seq)
CIDN = Function('mst_cid', Seq, Cid)
LZ = Function('leading_zeros', Str, Int_)
U, CAT, E0 = SEQ.unit_, SEQ.cat_, SEQ.empty
leaf = lambda x: is_(LEAF, x)
lkey = lambda x: sv(ntf(LEAF, 'key', x))
lval = lambda x: ntf(LEAF, 'value', x)
isref = lambda x: And(RECOG['VRef'](x), cls_(rv(x)) == cls_id(MST))
sub_ = lambda x: ents(rv(x))
leaf_typed = lambda x: Implies(leaf(x), RECOG['VStr'](ntf(LEAF, 'key', x)))
leaf_ok = lambda x: And(RECOG['VStr'](ntf(LEAF, 'key', x)), RECOG['VCid'](lval(x)))
mx = lambda a, b: If(a >= b, a, b)
mn = lambda a, b: If(a <= b, a, b)
M_ = 'mst'
axiom(M_, 'get: none', FA([_s], GETS(E0, _s) == VNone, GETS(E0, _s)))
axiom(M_, 'get: one', FA([_x, _s], GETS(U(_x), _s) == If(leaf(_x), If(
    lkey(_x) == _s, lval(_x), VNone), GETS(sub_(_x), _s)), GETS(U(_x), _s)))
axiom(M_, 'get: more', FA([_a, _b, _s], GETS(CAT(_a, _b), _s) == If(
    GETS(_a, _s) != VNone, GETS(_a, _s), GETS(_b, _s)), GETS(CAT(_a, _b), _s)))
axiom(M_, 'bounds: none', And(LO(E0) == 2, HI(E0) == -1))
for F_, mm in ((LO, mn), (HI, mx)):
    n_ = 'least' if F_ is LO else 'greatest'
    axiom(M_, f'{n_}: one', FA([_x], F_(U(_x)) == If(leaf(_x), sord(lkey(_x)), F_(sub_(_x))),
                               F_(U(_x))))
    axiom(M_, f'{n_}: more', FA([_a, _b], F_(CAT(_a, _b)) == mm(F_(_a), F_(_b)),
                                F_(CAT(_a, _b))))
axiom(M_, 'sorted: none', SRT(E0))
axiom(M_, 'sorted: one', FA([_x], SRT(U(_x)) == Or(leaf(_x), SRT(sub_(_x))), SRT(U(_x))))
axiom(M_, 'sorted: more', FA([_a, _b], SRT(CAT(_a, _b)) == And(
    SRT(_a), SRT(_b), HI(_a) < LO(_b)), SRT(CAT(_a, _b))))
for F_ in (SR, ER):
    n_ = 'start' if F_ is SR else 'end'
    axiom(M_, f'{n_}: none', Not(F_(E0)))
    axiom(M_, f'{n_}: one', FA([_x], F_(U(_x)) == Not(leaf(_x)), F_(U(_x))))
axiom(M_, 'start: more', FA([_a, _b], SR(CAT(_a, _b)) == If(SEQ.len_(_a) == 0, SR(_b), SR(_a)),
                            SR(CAT(_a, _b))))
axiom(M_, 'end: more', FA([_a, _b], ER(CAT(_a, _b)) == If(SEQ.len_(_b) == 0, ER(_a), ER(_b)),
                          ER(CAT(_a, _b))))
axiom(M_, 'nodes: none', FA([_L, _g], NOK(E0, _L, _g), NOK(E0, _L, _g)))
axiom(M_, 'nodes: one', FA([_x, _L, _g], NOK(U(_x), _L, _g) == Or(
    And(leaf(_x), leaf_ok(_x), LZ(lkey(_x)) == _L, VALIDKEY(lkey(_x)), _L >= 0),
    And(Not(leaf(_x)), isref(_x), SEQ.len_(sub_(_x)) > 0, NOK(sub_(_x), _L - 1, _g), stg(rv(
        _x)) == _g, _L >= 1)), NOK(U(_x), _L, _g)))
axiom(M_, 'nodes: more', FA([_a, _b, _L, _g], NOK(CAT(_a, _b), _L, _g) == And(
    NOK(_a, _L, _g), NOK(_b, _L, _g), Not(And(ER(_a), SR(_b)))), NOK(CAT(_a, _b), _L, _g)))
axiom(M_, 'layer: one', FA([_x], LAYS(U(_x)) == If(leaf(_x), LZ(lkey(_x)), LAYS(sub_(_x)) + 1),
                           LAYS(U(_x))))
axiom(M_, 'layer: more', FA([_a, _b], LAYS(CAT(_a, _b)) == If(
    SEQ.len_(_a) == 0, LAYS(_b), LAYS(_a)), LAYS(CAT(_a, _b))))
axiom(M_, 'valid keys are not empty', FA([_s], Implies(VALIDKEY(_s), STR.len_(_s) > 0), VALIDKEY(
    _s)))
axiom(M_, 'leading zeros', FA([_s], LZ(_s) >= 0, LZ(_s)))
# pairs of zero bits at the start of bytes
LZB = Function('leading_zero_pairs', Byt, Int_)
axiom('mstlz', 'zeros: none', LZB(BYT.empty) == 0)
axiom('mstlz', 'zeros: more', FA([_y, _o, _j], Implies(
    And(0 <= _o, _o < _j, _j == BYT.len_(_y)), LZB(BYT.sub_(_y, _o, _j)) == If(
        BYT.at_(_y, _o) == 0, 4 + LZB(BYT.sub_(_y, _o + 1, _j)), If(
            BYT.at_(_y, _o) < 4, 3, If(BYT.at_(_y, _o) < 16, 2, If(
                BYT.at_(_y, _o) < 64, IntVal(1), IntVal(0)))))),
    [LZB(BYT.sub_(_y, _o, _j)), SEQ.at_(BYTESEQ(_y), _o)]))
axiom('mstlz', 'zeros of a key', FA([_s], LZ(_s) == LZB(SHA256(UTF8(_s))), LZ(_s)))
axiom('mstlz', 'zeros >= 0', FA([_y], LZB(_y) >= 0, LZB(_y)))
# CIDs
axiom(M_, 'skeleton: none', SKEL(E0) == E0)
axiom(M_, 'skeleton: one', FA([_x], SKEL(U(_x)) == U(If(leaf(_x), _x, VCid(cidm(rv(_x))))),
                              SKEL(U(_x))))
axiom(M_, 'skeleton: more', FA([_a, _b], SKEL(CAT(_a, _b)) == CAT(SKEL(_a), SKEL(_b)),
                               SKEL(CAT(_a, _b))))
UNCIDN = Function('mst_uncid', Cid, Seq)


FIRST = Function('mst_first', Seq, Str)
axiom(M_, 'first: one', FA([_x], FIRST(U(_x)) == If(leaf(_x), lkey(_x), FIRST(sub_(_x))),
                           FIRST(U(_x))))
axiom(M_, 'first: more', FA([_a, _b], FIRST(CAT(_a, _b)) == If(
    SEQ.len_(_a) == 0, FIRST(_b), FIRST(_a)), FIRST(CAT(_a, _b))))


# lists of leaves
ALLL = Function('mst_leaves', Seq, Bool_)
axiom(M_, 'leaves: none', ALLL(E0))
axiom(M_, 'leaves: one', FA([_x], ALLL(U(_x)) == And(
    leaf(_x), leaf_ok(_x), VALIDKEY(lkey(_x))), ALLL(U(_x))))
axiom(M_, 'leaves: more', FA([_a, _b], ALLL(CAT(_a, _b)) == And(ALLL(_a), ALLL(_b)),
                             ALLL(CAT(_a, _b))))


# CIDs of the nodes under entries
UNDER = Function('mst_under', Seq, Cid, Bool_)
axiom(M_, 'under: none', FA([_c], Not(UNDER(E0, _c)), UNDER(E0, _c)))
axiom(M_, 'under: one', FA([_x, _c], UNDER(U(_x), _c) == And(Not(leaf(_x)), Or(_c == cidm(rv(
    _x)), UNDER(sub_(_x), _c))), UNDER(U(_x), _c)))
axiom(M_, 'under: more', FA([_a, _b, _c], UNDER(CAT(_a, _b), _c) == Or(UNDER(_a, _c), UNDER(
    _b, _c)), UNDER(CAT(_a, _b), _c)))
axiom(M_, 'None is not a storage', cls_(rv(VNone)) != cls_id(MEM))
# -- the serialized form of nodes, by their last entries
C_ = 'mstcodec'
DATA, ENTRY = 'mst.Data', 'mst.Entry'
PFX = Function('common_prefix', Str, Str, Int_)
ENTR = Function('mst_enc', Seq, Seq)            # skeleton -> list of entry dictionaries
LK = Function('mst_lastkey', Seq, Str)
DECE = Function('mst_dec', Seq, Seq)            # and back
LASTK = Function('mst_dec_lastkey', Seq, Str)
EOK = Function('mst_enc_ok', Seq, Bool_)
SEROK = Function('mst_encodable', Seq, Bool_)   # over skeletons
take = lambda s, n: STR.sub_(s, 0, n)
drop = lambda s, n: STR.sub_(s, n, STR.len_(s))


def entry_dict(p, k, v, t):
    m = mempty
    for n, x in (('p', p), ('k', k), ('v', v), ('t', t)):
        m = mput(m, vs(n), x)
    return VDict(m)


def ED(prev, x, t):
    """the dictionary of a leaf after this key"""
    p = PFX(prev, lkey(x))
    return entry_dict(VInt(p), VByt(UTF8(drop(lkey(x), p))), lval(x), t)


def LFT(s):
    return If(And(SEQ.len_(s) > 0, Not(leaf(SEQ.at_(s, 0)))), SEQ.at_(s, 0), VNone)


def LSEQ(l):
    return If(l == VNone, E0, U(l))


def NODEV(sk):
    return VDict(mput(mput(mempty, vs('l'), LFT(sk)), vs('e'), VList(ENTR(sk))))


eget = lambda x, n: mget(dv(x), vs(n))
ekey = lambda e, x: STR.cat_(take(LASTK(e), mn(iv(eget(x, 'p')), STR.len_(LASTK(e)))), UNUTF8(acc('VByt', 0, eget(x, 'k'))))
_p = Int('p')
axiom(C_, 'common prefixes', FA([_s, _t], And(
    0 <= PFX(_s, _t), PFX(_s, _t) <= STR.len_(_s), PFX(_s, _t) <= STR.len_(_t),
    take(_s, PFX(_s, _t)) == take(_t, PFX(_s, _t)),
    Or(PFX(_s, _t) == STR.len_(_s), PFX(_s, _t) == STR.len_(_t),
       STR.at_(_s, PFX(_s, _t)) != STR.at_(_t, PFX(_s, _t)))), PFX(_s, _t)))
axiom(C_, 'two parts of a text', FA([_s, _p], Implies(And(0 <= _p, _p <= STR.len_(_s)), STR.cat_(
    take(_s, _p), drop(_s, _p)) == _s), drop(_s, _p)))
axiom(C_, 'valid keys are ASCII', FA([_s, _o, _j], Implies(VALIDKEY(_s), ASCII(STR.sub_(
    _s, _o, _j))), [ASCII(STR.sub_(_s, _o, _j))]))
axiom(C_, 'encode: none', And(ENTR(E0) == E0, LK(E0) == slit('')))
axiom(C_, 'encode: a first subtree', FA([_x], Implies(Not(leaf(_x)), And(
    ENTR(U(_x)) == E0, LK(U(_x)) == slit(''))), ENTR(U(_x)), LK(U(_x))))
axiom(C_, 'encode: a leaf', FA([_a, _x], Implies(leaf(_x), And(
    ENTR(CAT(_a, U(_x))) == CAT(ENTR(_a), U(ED(LK(_a), _x, VNone))),
    LK(CAT(_a, U(_x))) == lkey(_x))), ENTR(CAT(_a, U(_x))), LK(CAT(_a, U(_x)))))
axiom(C_, 'encode: a leaf and a subtree', FA([_a, _x, _k], Implies(And(leaf(_x), Not(leaf(
    _k))), And(ENTR(CAT(CAT(_a, U(_x)), U(_k))) == CAT(ENTR(_a), U(ED(LK(_a), _x, _k))),
               LK(CAT(CAT(_a, U(_x)), U(_k))) == lkey(_x))),
    ENTR(CAT(CAT(_a, U(_x)), U(_k))), LK(CAT(CAT(_a, U(_x)), U(_k)))))
axiom(C_, 'decode: none', And(DECE(E0) == E0, LASTK(E0) == slit('')))
axiom(C_, 'decode: one more', FA([_a, _x], And(
    DECE(CAT(_a, U(_x))) == CAT(CAT(DECE(_a), U(CONS[LEAF](VStr(ekey(_a, _x)), eget(
        _x, 'v')))), LSEQ(eget(_x, 't'))),
    LASTK(CAT(_a, U(_x))) == ekey(_a, _x)), DECE(CAT(_a, U(_x))), LASTK(CAT(_a, U(_x)))))
axiom(C_, 'entries: none', EOK(E0))
axiom(C_, 'entries: one', FA([_x], EOK(U(_x)) == And(
    RECOG['VDict'](_x), RECOG['VInt'](eget(_x, 'p')), iv(eget(_x, 'p')) >= 0,
    RECOG['VByt'](eget(_x, 'k')), IS_UTF8(acc('VByt', 0, eget(_x, 'k'))),
    RECOG['VCid'](eget(_x, 'v')),
    Or(eget(_x, 't') == VNone, RECOG['VCid'](eget(_x, 't')))), EOK(U(_x))))
axiom(C_, 'entries: more', FA([_a, _b], EOK(CAT(_a, _b)) == And(EOK(_a), EOK(_b)), EOK(CAT(
    _a, _b))))
LDOK = Function('mst_loaded_ok', Seq, Int_, Bool_)      # leaves, and nodes in this storage
axiom(C_, 'loaded: none', FA([_g], LDOK(E0, _g), LDOK(E0, _g)))
axiom(C_, 'loaded: one', FA([_x, _g], LDOK(U(_x), _g) == Or(And(leaf(_x), leaf_ok(_x)), And(
    Not(leaf(_x)), isref(_x), stg(rv(_x)) == _g)), LDOK(U(_x), _g)))
axiom(C_, 'loaded: more', FA([_a, _b, _g], LDOK(CAT(_a, _b), _g) == And(LDOK(_a, _g), LDOK(
    _b, _g)), LDOK(CAT(_a, _b), _g)))
axiom(C_, 'encodable: none', SEROK(E0))
axiom(C_, 'encodable: one', FA([_x], SEROK(U(_x)) == Or(
    And(leaf(_x), leaf_ok(_x), VALIDKEY(lkey(_x))), RECOG['VCid'](_x)), SEROK(U(_x))))
axiom(C_, 'encodable: more', FA([_a, _b], SEROK(CAT(_a, _b)) == And(
    SEROK(_a), SEROK(_b), Not(And(ER(_a), SR(_b)))), SEROK(CAT(_a, _b))))
axiom('mstcid', 'the CID of a node', FA([_a], CIDN(_a) == HASHC(ENC(NODEV(_a))), [CIDN(_a), ENTR(_a)]))
axiom('cbor', 'lists that can be encoded', And(CBOR_OK(VList(E0)), FA([_a, _x], Implies(
    And(CBOR_OK(VList(_a)), CBOR_OK(_x)), CBOR_OK(VList(CAT(_a, U(_x))))), CBOR_OK(VList(CAT(
        _a, U(_x)))))))


def single(s):
    """only one subtree"""
    return And(SEQ.len_(s) == 1, SR(s))


def lemmas(reg):
    """By induction over the size of trees: no entries, one leaf, one subtree, two lists."""
    a, b, a1, b1 = Consts('a0 b0 a1 b1', Seq)
    x, y, z = Consts('x0 y0 z0', Val)
    s, c = Const('s0', Str), Const('c0', Cid)
    L, g, j, L2, g2, o = Ints('L0 g0 j0 L2 g2 o0')
    N = SEQ.len_

    def induct(name, P, doc, nl=None):
        """P(list) for all lists of entries"""
        reg.lemma(name, [
            ('no entries', [], P(E0)),
            ('a leaf', [leaf(x)], P(U(x))),
            ('a subtree', [Not(leaf(x)), P(sub_(x))], P(U(x))),
            ('more', [P(a), P(b)], P(CAT(a, b)))], doc)
    atm = lambda x: [SEQ.at_(CAT(a, CAT(U(x), b)), N(a)) == SEQ.at_(CAT(U(x), b), 0),
                     SEQ.at_(CAT(U(x), b), 0) == SEQ.at_(U(x), 0), SEQ.at_(U(x), 0) == x]
    reg.lemma('seq_middle', [
        ('its first element', [SEQ.len_(U(x)) == 1, N(CAT(U(x), b)) == 1 + N(b)], And(*atm(x)[1:])),
        ('its element', [SEQ.len_(U(x)) == 1, N(CAT(U(x), b)) == 1 + N(b), N(b) >= 0, N(a) >= 0],
         atm(x)[0]),
        ('at its index', [CAT(a, CAT(U(x), b)) == CAT(a, CAT(U(y), b))] + atm(x) + atm(y), x == y)],
        'lists that differ only in one element')
    axiom('lemma:seq_middle', 'the middle of a list', FA([_a, _b, _x, _k], Implies(
        CAT(_a, CAT(U(_x), _b)) == CAT(_a, CAT(U(_k), _b)), _x == _k),
        [CAT(_a, CAT(U(_x), _b)), CAT(_a, CAT(U(_k), _b))]))

    # the codec: every encodable list is nothing, a subtree, or ends with a leaf or with a leaf
    # and a subtree
    def snoc(name, P, doc, hyps=()):
        reg.lemma(name, [
            ('nothing', list(hyps), P(E0)), ('a subtree', list(hyps) + [Not(leaf(y))], P(U(y))),
            ('ends with a leaf', list(hyps) + [P(a), leaf(x)], P(CAT(a, U(x)))),
            ('ends with a leaf and a subtree', list(hyps) + [P(a), leaf(x), Not(leaf(y))], P(CAT(
                CAT(a, U(x)), U(y))))], doc)

    def enc_ok(t):
        return Implies(SEROK(t), And(EOK(ENTR(t)), CBOR_OK(VList(ENTR(t))), Or(
            LFT(t) == VNone, RECOG['VCid'](LFT(t)))))
    snoc('mst_enc', enc_ok, 'entries are encoded as such')
    axiom('lemma:mst_enc', 'encoded entries', FA([_a], Implies(SEROK(_a), And(
        EOK(ENTR(_a)), CBOR_OK(VList(ENTR(_a))), Or(LFT(_a) == VNone, RECOG['VCid'](LFT(
            _a))))), [SEROK(_a), ENTR(_a)]))
    reg.lemma('mst_enc_node', [('all of it', [enc_ok(a), SEROK(a)], CBOR_OK(NODEV(a)))],
              'nodes can be encoded')
    axiom('lemma:mst_enc_node', 'a node can be encoded', FA([_a], Implies(SEROK(_a), CBOR_OK(NODEV(
        _a))), [SEROK(_a), ENTR(_a)]))

    def codec(t):
        return Implies(SEROK(t), And(CAT(LSEQ(LFT(t)), DECE(ENTR(t))) == t,
                                     LASTK(ENTR(t)) == LK(t)))
    snoc('mst_codec', codec, 'decoding an encoded node gives the same node')
    axiom('lemma:mst_codec', 'decoding an encoded node', FA([_a], codec(_a), [SEROK(_a), ENTR(
        _a)]))
    fst = lambda t: If(leaf(SEQ.at_(t, 0)), SEQ.at_(t, 0), SEQ.at_(t, 1))

    def enc_first(t):
        f = fst(t)
        return Implies(And(SEROK(t), N(ENTR(t)) > 0), And(
            N(t) > 0, leaf(f), Or(leaf(SEQ.at_(t, 0)), N(t) > 1),
            eget(SEQ.at_(ENTR(t), 0), 'k') == VByt(UTF8(lkey(f)))))
    whole = [FA([_s], And(PFX(slit(''), _s) == 0, drop(_s, 0) == _s), PFX(slit(''), _s))]
    reg.lemma('pfx_empty', [('of nothing', [s == s], And(PFX(slit(''), s) == 0, drop(s, 0) == s))],
              'the prefix of the first key')
    axiom('lemma:pfx_empty', 'of nothing', whole[0])
    snoc('mst_enc_first', lambda t: And(enc_first(t), Implies(And(SEROK(t), N(ENTR(t)) == 0), And(
        LK(t) == slit(''), N(t) <= 1, Or(N(t) == 0, Not(leaf(SEQ.at_(t, 0))))))),
        'the first entry is the first leaf')
    axiom('lemma:mst_enc_first', 'the first entry', FA([_a], enc_first(_a), [
        SEROK(_a), SEQ.at_(ENTR(_a), 0)]))
    eent = lambda a: Implies(And(0 <= j, j < N(a), EOK(a)), EOK(U(SEQ.at_(a, j))))
    reg.lemma('mst_enc_entries', [
        ('no entries', [], eent(E0)), ('one', [], eent(U(x))),
        ('more', [FA([_j], substitute(eent(a), (j, _j)), SEQ.at_(a, _j)),
                  FA([_j], substitute(eent(b), (j, _j)), SEQ.at_(b, _j))], eent(CAT(a, b)))],
        'every encoded entry is one')
    axiom('lemma:mst_enc_entries', 'every encoded entry', FA([_a, _j], Implies(And(
        EOK(_a), 0 <= _j, _j < N(_a)), EOK(U(SEQ.at_(_a, _j)))), [EOK(_a), SEQ.at_(_a, _j)]))

    def serok(t):
        return And(Implies(NOK(t, L, g), SEROK(SKEL(t))), ER(SKEL(t)) == ER(t), SR(SKEL(
            t)) == SR(t), SEQ.len_(SKEL(t)) == SEQ.len_(t))
    reg.lemma('mst_serok', [('no entries', [], serok(E0)), ('one', [], serok(U(x))),
                            ('more', [serok(a), serok(b)], serok(CAT(a, b)))],
              'well-formed nodes can be encoded')
    axiom('lemma:mst_serok', 'well-formed nodes can be encoded', FA([_a, _L, _g], Implies(
        NOK(_a, _L, _g), SEROK(SKEL(_a))), [NOK(_a, _L, _g), SKEL(_a)]))
    axiom('lemma:mst_serok', 'shape of the skeleton', FA([_a], And(
        ER(SKEL(_a)) == ER(_a), SR(SKEL(_a)) == SR(_a), SEQ.len_(SKEL(_a)) == SEQ.len_(_a)),
        SKEL(_a)))

    one = lambda x: If(leaf(x), x, VCid(cidm(rv(x))))
    skel_at = lambda a: Implies(And(0 <= j, j < N(a)), SEQ.at_(SKEL(a), j) == one(SEQ.at_(a, j)))
    reg.lemma('mst_skel_at', [
        ('no entries', [], skel_at(E0)), ('one', [], skel_at(U(x))),
        ('more', [FA([_j], substitute(skel_at(a), (j, _j)), SEQ.at_(a, _j)), N(SKEL(a)) == N(a),
                  FA([_j], substitute(skel_at(b), (j, _j)), SEQ.at_(b, _j)), N(SKEL(b)) == N(b)],
         skel_at(CAT(a, b)))], "a skeleton's entries")
    axiom('lemma:mst_skel_at', "a skeleton's entries", FA([_a, _j], substitute(
        skel_at(_a), (j, _j)), [SKEL(_a), SEQ.at_(_a, _j)], SEQ.at_(SKEL(_a), _j)))
    adj = lambda a: Implies(And(SEROK(a), 0 <= j, j < N(a)), And(
        SEROK(U(SEQ.at_(a, j))), Implies(And(j > 0, Not(leaf(SEQ.at_(a, j)))), leaf(SEQ.at_(
            a, j - 1))), SR(a) == Not(leaf(SEQ.at_(a, 0))), ER(a) == Not(leaf(SEQ.at_(
                a, N(a) - 1)))))
    reg.lemma('mst_serok_at', [
        ('no entries', [], adj(E0)), ('one', [], adj(U(x))),
        ('more', [FA([_j], substitute(adj(a), (j, _j)), SEQ.at_(a, _j)),
                  FA([_j], substitute(adj(b), (j, _j)), SEQ.at_(b, _j))], adj(CAT(a, b)))],
        'entries of a node that can be encoded')
    axiom('lemma:mst_serok_at', 'entries of a node that can be encoded', FA([_a, _j], substitute(
        adj(_a), (j, _j)), [SEROK(_a), SEQ.at_(_a, _j)]))
    reg.lemma('mst_cid', [('the same node', [
        SEROK(a), SEROK(b), CIDN(a) == CIDN(b), ENTR(a) == ENTR(a), ENTR(b) == ENTR(b),
        DEC(ENC(NODEV(a))) == DEC(ENC(NODEV(b))), mget(dv(NODEV(a)), vs('l')) == mget(dv(NODEV(
            b)), vs('l')), mget(dv(NODEV(a)), vs('e')) == mget(dv(NODEV(b)), vs('e'))], a == b),
        ('the same bytes', [CIDN(a) == CIDN(b)], ENC(NODEV(a)) == ENC(NODEV(b))),
        ('the same data', [SEROK(a), SEROK(b), ENC(NODEV(a)) == ENC(NODEV(b)), CBOR_OK(NODEV(
            a)), CBOR_OK(NODEV(b))], NODEV(a) == NODEV(b))],
        'different nodes have different CIDs, since encoding loses nothing')
    axiom('lemma:mst_cid', 'different nodes have different CIDs', FA([_a], Implies(
        SEROK(_a), UNCIDN(CIDN(_a)) == _a), CIDN(_a)))

    ent = lambda a: Implies(And(0 <= j, j < N(a)), And(
        Implies(NOK(a, L, g), NOK(U(SEQ.at_(a, j)), L, g)),
        Implies(SRT(a), SRT(U(SEQ.at_(a, j))))))
    reg.lemma('mst_entries', [
        ('no entries', [], ent(E0)), ('one', [], ent(U(x))),
        ('more', [FA([_j], substitute(ent(a), (j, _j)), SEQ.at_(a, _j)),
                  FA([_j], substitute(ent(b), (j, _j)), SEQ.at_(b, _j))], ent(CAT(a, b)))],
        'every entry of a well-formed node is well-formed')
    und = lambda a: Implies(And(0 <= j, j < N(a), UNDER(U(SEQ.at_(a, j)), c)), UNDER(a, c))
    reg.lemma('mst_under', [
        ('no entries', [], und(E0)), ('one', [], und(U(x))),
        ('more', [FA([_j], substitute(und(a), (j, _j)), SEQ.at_(a, _j)),
                  FA([_j], substitute(und(b), (j, _j)), SEQ.at_(b, _j))], und(CAT(a, b)))],
        "nodes under a node's entries are under the node")
    axiom('lemma:mst_under', "nodes under a node's entries", FA([_a, _j, _c], substitute(
        und(_a), (j, _j), (c, _c)), [UNDER(_a, _c), SEQ.at_(_a, _j)]))
    G = 'lemma:mst_entries'
    axiom(G, 'every entry', FA([_a, _L, _g, _j], Implies(
        And(NOK(_a, _L, _g), 0 <= _j, _j < N(_a)), NOK(U(SEQ.at_(_a, _j)), _L, _g)),
        [NOK(_a, _L, _g), SEQ.at_(_a, _j)]))
    axiom(G, 'every entry is sorted', FA([_a, _j], Implies(
        And(SRT(_a), 0 <= _j, _j < N(_a)), SRT(U(SEQ.at_(_a, _j)))), [SRT(_a), SEQ.at_(_a, _j)]))

    def layer(a, L=L, g=g):
        return Implies(And(NOK(a, L, g), N(a) > 0), And(
            LAYS(a) == L, L >= 0, 0 < LO(a), LO(a) <= HI(a), HI(a) < 1))
    lay_all = lambda t: FA([_L, _g], layer(t, _L, _g), NOK(t, _L, _g))
    reg.lemma('mst_layer', [
        ('no entries', [], layer(E0)), ('a leaf', [leaf(x)], layer(U(x))),
        ('a subtree', [Not(leaf(x)), lay_all(sub_(x))], layer(U(x))),
        ('more', [layer(a), layer(b)], layer(CAT(a, b)))],
        'the layer and the bounds of well-formed nodes')
    axiom('lemma:mst_layer', 'the layer', FA([_a, _L, _g], layer(_a, _L, _g), NOK(_a, _L, _g)))

    bound = lambda a: Implies(GETS(a, s) != VNone, And(LO(a) <= sord(s), sord(s) <= HI(a)))
    induct('mst_bounds', bound, 'keys are within the bounds')
    axiom('lemma:mst_bounds', 'keys are within the bounds', FA([_a, _s], Implies(
        GETS(_a, _s) != VNone, And(LO(_a) <= sord(_s), sord(_s) <= HI(_a))), GETS(_a, _s)))

    def keys(a, L=L, g=g):
        return Implies(And(GETS(a, s) != VNone, NOK(a, L, g)), And(
            LZ(s) <= L, VALIDKEY(s), RECOG['VCid'](GETS(a, s))))
    reg.lemma('mst_keys', [
        ('no entries', [], keys(E0)), ('a leaf', [leaf(x)], keys(U(x))),
        ('a subtree', [Not(leaf(x)), FA([_L, _g], keys(sub_(x), _L, _g), NOK(
            sub_(x), _L, _g))], keys(U(x))),
        ('more', [keys(a), keys(b)], keys(CAT(a, b)))], 'keys are valid, on or below the layer')
    axiom('lemma:mst_keys', 'keys are valid and on their layer', FA([_a, _s, _L, _g], Implies(
        And(GETS(_a, _s) != VNone, NOK(_a, _L, _g)), And(LZ(_s) <= _L, VALIDKEY(_s), RECOG[
            'VCid'](GETS(_a, _s)))), [GETS(_a, _s), NOK(_a, _L, _g)]))

    def first(a, L=L, g=g):
        return Implies(And(SRT(a), NOK(a, L, g), N(a) > 0), And(
            GETS(a, FIRST(a)) != VNone, sord(FIRST(a)) == LO(a)))
    reg.lemma('mst_first', [
        ('no entries', [], first(E0)), ('a leaf', [leaf(x)], first(U(x))),
        ('a subtree', [Not(leaf(x)), FA([_L, _g], first(sub_(x), _L, _g), NOK(
            sub_(x), _L, _g)), NOK(sub_(x), L - 1, g) == NOK(sub_(x), L - 1, g)], first(U(x))),
        ('more', [first(a), first(b), NOK(a, L, g) == NOK(a, L, g)], first(CAT(a, b)))],
        'the least key is there')
    axiom('lemma:mst_first', 'the least key is there', FA([_a, _L, _g], Implies(
        And(SRT(_a), NOK(_a, _L, _g), N(_a) > 0), And(
            GETS(_a, FIRST(_a)) != VNone, sord(FIRST(_a)) == LO(_a))),
        [NOK(_a, _L, _g), FIRST(_a)], [NOK(_a, _L, _g), SKEL(_a)]))

    # two trees with the same contents
    same = lambda t, u: FA([_s], GETS(t, _s) == GETS(u, _s), GETS(t, _s), GETS(u, _s))
    wf = lambda t, L, g: And(SRT(t), NOK(t, L, g))
    eq = lambda t, u: SKEL(t) == SKEL(u)

    def step(p, q):
        return [wf(CAT(p, a1), L, g), wf(CAT(q, b1), L, g2), same(CAT(p, a1), CAT(q, b1)),
                GETS(CAT(p, a1), FIRST(CAT(q, b1))) == GETS(CAT(q, b1), FIRST(CAT(q, b1))),
                GETS(CAT(q, b1), FIRST(CAT(p, a1))) == GETS(CAT(p, a1), FIRST(CAT(p, a1)))]
    ux, uy = U(x), U(y)
    GE = lambda t, k: GETS(t, k)
    tails = [Or(N(a1) == 0, And(a1 == CAT(U(z), b), leaf(z)))]
    reg.lemma('mst_unique', [
        ('nothing', [wf(a, L, g), wf(E0, L, g2), same(a, E0), N(a) > 0, GETS(
            E0, FIRST(a)) == GETS(a, FIRST(a))], BoolVal(False)),
        ('leaves first: same key', step(ux, uy) + [leaf(x), leaf(y)], x == y),
        ('leaves first: same rest, its key', step(ux, uy) + [
            leaf(x), x == y, s == lkey(x), GETS(a1, s) == GETS(a1, s), GETS(b1, s) == GETS(b1, s)],
         And(GETS(a1, s) == VNone, GETS(b1, s) == VNone)),
        ('leaves first: same rest, other keys', step(ux, uy) + [
            leaf(x), x == y, s != lkey(x), GETS(ux, s) == VNone, GETS(uy, s) == VNone,
            GETS(CAT(ux, a1), s) == GETS(CAT(uy, b1), s)],
         GETS(a1, s) == GETS(b1, s)),
        ('leaves first', step(ux, uy) + [leaf(x), leaf(y), x == y, eq(a1, b1)],
         eq(CAT(ux, a1), CAT(uy, b1))),
        ('leaf and subtree first', step(ux, uy) + [leaf(x), Not(leaf(y)), FIRST(sub_(y)) == FIRST(
            CAT(uy, b1))], BoolVal(False)),
        ('subtrees first: same keys in them', step(ux, uy) + [
            Not(leaf(x)), Not(leaf(y)), Or(N(b1) == 0, And(b1 == CAT(U(z), b), leaf(z))),
            GE(sub_(x), s) != VNone, GE(CAT(ux, a1), s) != VNone, GE(CAT(uy, b1), s) != VNone,
            GE(CAT(uy, b1), lkey(z)) == GE(CAT(ux, a1), lkey(z))],
         GE(sub_(y), s) == GE(sub_(x), s)),
        ('subtrees first: same rest', step(ux, uy) + [
            Not(leaf(x)), Not(leaf(y)), same(sub_(x), sub_(y)), GETS(CAT(ux, a1), s) == GETS(
                CAT(uy, b1), s)], GETS(a1, s) == GETS(b1, s)),
        ('subtrees first', step(ux, uy) + [
            Not(leaf(x)), Not(leaf(y)), eq(sub_(x), sub_(y)), eq(a1, b1),
            cidm(rv(x)) == CIDN(SKEL(sub_(x))), cidm(rv(y)) == CIDN(SKEL(sub_(y)))],
         eq(CAT(ux, a1), CAT(uy, b1))),
    ], 'nodes on the same layer with the same keys and values have the same CIDs, by induction '
       'over their size; the cases are the kinds of their first entries')
    axiom('lemma:mst_unique', 'same contents, same node', FA([_a, _b, _L, _g, _j], Implies(
        And(wf(_a, _L, _g), wf(_b, _L, _j), same(_a, _b)), eq(_a, _b)),
        [NOK(_a, _L, _g), NOK(_b, _L, _j), SKEL(_a), SKEL(_b)]))
    root = lambda t, L, g: [wf(t, L, g), N(t) > 0, Not(single(t))]
    tk = If(leaf(x), lkey(x), lkey(y))
    lower = lambda t: Implies(N(t) > 1, t == CAT(ux, CAT(uy, a1)))
    reg.lemma('mst_root', [
        ('a root has a key on its layer', root(a, L, g) + [Or(a == ux, a == CAT(ux, CAT(uy, a1)))],
         And(GETS(a, tk) != VNone, LZ(tk) == L)),
        ('so its layer is not lower', root(a, L, g) + root(b, L2, g2) + [
            same(a, b), GETS(a, s) != VNone, LZ(s) == L, GETS(b, s) == GETS(a, s)], L <= L2),
        ('an empty root has no key', root(a, L, g) + [same(a, E0), GETS(a, FIRST(a)) == GETS(
            E0, FIRST(a))], BoolVal(False)),
        ('so the same contents have the same root CID', root(a, L, g) + root(b, L, g2) + [
            same(a, b)], CIDN(SKEL(a)) == CIDN(SKEL(b)))],
        'the root CID depends only on the contents')
    # and the other way round
    P = lambda t, u: Implies(eq(t, u), GETS(t, s) == GETS(u, s))
    cids = [cidm(rv(x)) == CIDN(SKEL(sub_(x))), cidm(rv(y)) == CIDN(SKEL(sub_(y)))]
    hd = [eq(CAT(ux, a1), CAT(uy, b1)), SEQ.at_(SKEL(CAT(ux, a1)), 0) == SEQ.at_(
        SKEL(CAT(uy, b1)), 0)]
    entry = lambda v: Or(leaf(v), isref(v))
    reg.lemma('mst_content', [
        ('first entries', hd + cids + [
            wf(CAT(ux, a1), L, g), wf(CAT(uy, b1), L2, g2), SKEL(sub_(x)) == SKEL(sub_(x)),
            SKEL(sub_(y)) == SKEL(sub_(y)), entry(x), entry(y), P(sub_(x), sub_(y))],
         GETS(ux, s) == GETS(uy, s)),
        ('rest', hd + [P(a1, b1), GETS(ux, s) == GETS(uy, s), SEQ.sub_(SKEL(CAT(ux, a1)), 1, N(
            SKEL(CAT(ux, a1)))) == SKEL(a1), SEQ.sub_(SKEL(CAT(uy, b1)), 1, N(
                SKEL(CAT(uy, b1)))) == SKEL(b1)],
         GETS(CAT(ux, a1), s) == GETS(CAT(uy, b1), s))],
        'nodes with the same CID have the same contents, by induction over their size')


    reg.lemma('mst_nodes', [('the layer of a node', [
        WFS(o) == And(SRT(ents(o)), NOK(ents(o), LAYS(ents(o)), stg(o))), WFS(o), N(ents(o)) > 0],
        LAYS(ents(o)) >= 0)], 'what users of trees need of layers')
    axiom('lemma:mst_nodes', 'the layer of a node', FA([_o], Implies(
        And(WFS(_o), N(ents(_o)) > 0), LAYS(ents(_o)) >= 0), [WFS(_o), LAYS(ents(_o))]))


def definitions(ex):
    """what WFS, GET and cidm mean (only within the tree functions)"""
    ex.assume(FA([_o], WFS(_o) == And(SRT(ents(_o)), NOK(ents(_o), LAYS(ents(_o)), stg(_o))),
                 WFS(_o)))
    ex.assume(FA([_a, _s], GET(_a, _s) == GETS(_a, _s), GET(_a, _s), GETS(_a, _s)))
    ex.assume(FA([_o], cidm(_o) == CIDN(SKEL(ents(_o))), cidm(_o)))
    ex.assume(FA([_o, _c], ISNODE(_o, _c) == Or(_c == cidm(_o), UNDER(ents(_o), _c)),
                 ISNODE(_o, _c), UNDER(ents(_o), _c)))


def cuts(ex, s, i):
    """s at i and around it: facts about sequences"""
    n = SEQ.len_(s)
    sub = SEQ.sub_
    one = lambda k: U(SEQ.at_(s, k))
    ex.assume(Implies(And(0 <= i, i <= n), And(
        s == CAT(sub(s, 0, i), sub(s, i, n)), SEQ.len_(sub(s, 0, i)) == i,
        SEQ.len_(sub(s, i, n)) == n - i)))
    for d in (0, 1):
        k = i + d
        ex.assume(Implies(And(0 <= k, k < n), sub(s, k, n) == CAT(one(k), sub(s, k + 1, n))))
        k = i - d
        ex.assume(Implies(And(1 <= k, k <= n), sub(s, 0, k) == CAT(sub(s, 0, k - 1), one(
            k - 1))))


def is_mst(v):
    return And(RECOG['VRef'](v), cls_(rv(v)) == cls_id(MST))


def top(c, m, h=None):
    """m is a well-formed tree root, as c's heap has it"""
    lay = (h or c.h)(MF('layer'), m)
    return And(cls_(m) == cls_id(MST), WFS(m), Not(single(ents(m))), Or(
        SEQ.len_(ents(m)) > 0, lay == VNone, lay == VInt(0)))


def lay_rely(a0, a, allowed, old_only=False):
    """caching keeps the layers of empty nodes"""
    z = lambda v: If(v == VNone, VInt(0), v)
    return FA([_o], Implies(And(SEQ.len_(ents(_o)) == 0, *[_o != x for x in allowed], *(
        [_o <= 0] if old_only else [])), z(Select(a, _o)) == z(Select(a0, _o))), Select(a, _o))


def closed(blocks):
    """stored nodes' descendants are stored"""
    return FA([_o, _c], Implies(And(mget(blocks, VCid(cidm(_o))) != VAbsent, ISNODE(_o, _c)),
                                mget(blocks, VCid(_c)) != VAbsent),
              [mget(blocks, VCid(cidm(_o))), ISNODE(_o, _c)])


def register(reg):
    reg.cache_fields += [MF(n) for n in ('entries', 'pointer', 'outdated_pointer', 'layer')]
    reg.rely[MF('layer')] = lay_rely
    reg.field_spec[MF('storage')] = {'kind': 'opt:ref:' + MEM}
    reg.field_spec[MF('layer')] = {'kind': 'opt:int'}
    reg.known_classes |= {MST}

    def inv(ex, m):
        e, p, o, l, st_ = (ex.heap_get(MF(n), m) for n in (
            'entries', 'pointer', 'outdated_pointer', 'layer', 'storage'))
        E = ents(m)
        return [
            ('entries', Or(e == VNone, e == VList(E))),
            ('storage', stg(m) == rv(st_)),
            ('layer', Or(l == VNone, And(RECOG['VInt'](l), Or(SEQ.len_(E) == 0, Not(WFS(m)), l == VInt(
                LAYS(E)))))),
            ('pointer', And(RECOG['VBool'](o), Or(o == VBool(BoolVal(True)), p == VCid(cidm(
                m))))),
            ('not loaded', Or(e != VNone, o == VBool(BoolVal(False))))]

    def ghost(ex, m):
        e, st_, p = (ex.heap_get(MF(n), m) for n in ('entries', 'storage', 'pointer'))
        if ex.branch(e == VNone):
            ex.assume(VCid(cidm(m)) == p)
        else:
            ex.assume(ents(m) == lv(ex.tov(e)))
            ex.data.setdefault('ents', {})[m.sexpr()] = lv(ex.tov(e))
        ex.assume(stg(m) == rv(st_))
        o = ex.data.get('loading')
        if o is not None:
            # prophecy: the nodes that loading o makes are its subtrees
            ex.assume(Implies(And(WFS(o), WFS(m)), LAYS(ents(m)) == LAYS(ents(o)) - 1))
    reg.classes[MST] = {'inv': inv, 'ghost_init': ghost, 'fields': {
        MF(n) for n in ('entries', 'pointer', 'outdated_pointer', 'layer', 'storage')}}

    lemmas(reg)
    m = lambda c: c.ref('self')
    S_ = {'self': 'ref:' + MST}
    P = {**S_, 'key': 'str'}
    R = 'ref:' + MST
    E = lambda c: ents(m(c))
    K = lambda c: c.s('key')
    od = lambda c: sord(K(c))
    n_ = lambda c: SEQ.len_(E(c))

    def HL(c, o, old=False):
        l = (c.old if old else c.h)(MF('layer'), o)
        return If(SEQ.len_(ents(o)) > 0, LAYS(ents(o)), If(l == VNone, 0, iv(l)))
    node = lambda c: [('well-formed node', WFS(m(c)))]
    layer_ok = lambda c: [('layer', HL(c, m(c)) >= 0)]

    def defs(ex, c):
        definitions(ex)

    # what the users of trees see (and not how trees are made up)
    EXPORT = {'same storage', 'exactly this key changes', 'well-formed node', 'a tree',
              'still a tree', 'the value of that key', 'the CID of the root node',
              'the same CID exactly if nothing changes'}

    # (lemmas about the codec, which are not needed for the shape of trees)
    CODEC_L = tuple('lemma:mst_' + n for n in (
        'enc', 'enc_node', 'codec', 'enc_first', 'enc_entries', 'serok', 'skel_at', 'serok_at',
        'cid', 'unique', 'first', 'under', 'nodes', 'root')) + ('lemma:pfx_empty', 'mstcodec',
                                                               'mstcid', 'cbor')

    def add(name, **kw):
        su, post = kw.pop('setup', None), kw.pop('ensures')
        kw.setdefault('hide', CODEC_L)

        def setup(ex, c):
            ex.data['mst'] = True
            definitions(ex)
            if su:
                su(ex, c)

        def ensures(c, r):
            return [x for x in post(c, r) if c.ex.data.get('mst') or x[0] in EXPORT]
        reg.add(name, setup=setup, ensures=ensures, **kw)

    # -- simple operations are verified where they are used
    for f in ('update_entry', 'remove_entry', 'append', 'prepend', 'at_index', 'slice',
              'splice_in', 'replace_with_split', 'new_tree', 'create', 'create_child',
              'create_parent'):
        reg.add(f'{MST}.{f}', inline=True)
    load = [MF('entries')] + [BF(n) for n in ('_cid', '_encoded', '_decoded')]
    hash_ = load + [MF('pointer'), MF('outdated_pointer')]
    # loading
    def is_ref_or_leaf(x):
        return Or(And(leaf(x), leaf_typed(x)), isref(x))

    def load_setup(ex, c):
        o = m(c)
        ex.data['mst'] = True
        definitions(ex)
        e, st_ = ex.heap_get(MF('entries'), o), ex.heap_get(MF('storage'), o)
        lazy = e == VNone
        v = View(c)
        # assumed: stored trees are complete, and blocks are what their CIDs say
        ex.assume(Implies(lazy, And(
            RECOG['VRef'](st_), stored_ok(v.blocks(st=rv(st_)), c.h_arr(BF('seq'))), mget(
                v.blocks(st=rv(st_)), VCid(cidm(o))) != VAbsent)))
        x = SKEL(E(c))
        ex.assume(And(SEQ.len_(ENTR(x)) >= 0, SEQ.len_(DECE(ENTR(x))) >= 0))
        ex.elem_fact(ENTR(x), lambda y, i: EOK(U(y)))
        ex.data['loading'] = o
        ex.cut_params = {'node': o}

    def load_loop(L):
        o = (getattr(L.ex, 'cut_params', None) or {}).get('node')
        if o is None or L.seq is None:
            return
        x = SKEL(ents(o))
        done = SEQ.sub_(ENTR(x), 0, L.i)
        yield 'these are its entries', L.seq == ENTR(x)
        for key, h0, h in L.fields():
            a = L.ex.heap0[key]
            yield f'{key}: of new nodes only', FA([_o], Implies(And(_o <= 0, _o != o), Select(
                h, _o) == Select(a, _o)), Select(a, _o))
            if key != MF('entries'):
                yield f'{key}: of this node', Select(h, o) == Select(a, o)
        for nm, t0, t in L.lists():
            yield f'{nm} decodes them', SKEL(t) == CAT(LSEQ(LFT(x)), DECE(done))
            yield f'{nm} has only leaves and nodes', LDOK(t, stg(o))
        for nm, x0, v in L.vals():
            yield f'{nm} is the last key', v == VStr(LASTK(done))

    def loading(ex, args, kw):
        """prophecy: the entries of a node are those that loading it makes"""
        r = ex.inline(ex.prog.func('mst.deserialize_node_data'), args, kw)
        o = ex.data.get('loading')
        if o is not None:
            t = lv(ex.tov(r))
            ex.prove(SKEL(t) == SKEL(ents(o)), 'loads what is stored')
            ex.prove(LDOK(t, stg(o)), 'loads leaves and nodes of the same storage')
            ex.assume(t == ents(o))
        return r
    reg.func_models['mst.deserialize_node_data'] = loading

    def from_map(ex, name, mt):
        """what stored nodes look like"""
        o = ex.data.get('loading')
        if o is None or name not in (DATA, ENTRY):
            return None
        if name == DATA:
            x = SKEL(ents(o))
            ex.prove(VDict(mt) == NODEV(x), 'the stored node is this one')
            return CONS[DATA](LFT(x), VList(ENTR(x)))
        d = VDict(mt)
        ex.prove(EOK(U(d)), 'a stored entry')
        return CONS[ENTRY](VInt(iv(eget(d, 'p'))), VByt(acc('VByt', 0, eget(d, 'k'))), eget(
            d, 'v'), eget(d, 't'))
    reg.hooks['nt_from_map'] = from_map

    reg.add('mst.common_prefix_len', params={'a': 'str', 'b': 'str'}, returns='int', caches=[],
            ensures=lambda c, r: [('the longest common prefix', r == VInt(PFX(c.s('a'), c.s(
                'b'))))])
    reg.libs['os.path.commonprefix'] = lambda ex, a, kw: VStr(take(
        sv(SEQ.at(ex.seq_of(a[0]), IntVal(0))), PFX(*[sv(SEQ.at(ex.seq_of(a[0]), IntVal(i)))
                                                     for i in (0, 1)])))
    reg.live_nts.add(DATA)
    LE = lambda c: c.seq('entries')

    def ser_setup(ex, c):
        ex.data['mst'] = True
        definitions(ex)
        cuts(ex, LE(c), IntVal(0))
        ex.cut_params = {'entries': LE(c)}
        ex.elem_fact(LE(c), lambda x, i: Or(leaf(x), isref(x)))

    def ser_loop(L):
        e = L.ex.cut_params['entries']
        n = SEQ.len_(e)
        for nm, x0, x in L.vals():
            i = iv(x)
            yield f'{nm} is an index', And(RECOG['VInt'](x), 0 <= i, i <= n)
            done = SEQ.sub_(e, 0, i)
            k = SKEL(done)
            a, b = SEQ.at_(e, i), SEQ.at_(e, i - 1)
            # (lemmas mst_serok_at and mst_skel_at for this entry)
            L.ex.assume(Implies(And(0 <= i, i < n, SEROK(SKEL(e))), And(
                Implies(leaf(a), VALIDKEY(lkey(a))), Implies(And(i > 0, Not(leaf(a))), leaf(b)))))
            yield f'{nm}: encodable so far', SEROK(k)
            yield f'{nm}: after a subtree', Implies(And(0 < i, i < n, Not(leaf(SEQ.at_(e, i)))),
                                                   Not(leaf(SEQ.at_(e, i - 1))))
            yield f'{nm}: no subtree first', Implies(n > 0, Or(i > 0, leaf(SEQ.at_(e, 0))))
            yield f'{nm}: the first', Implies(And(i > 0, n > 0), And(SEQ.at_(k, 0) == SEQ.at_(SKEL(
                e), 0), SEQ.len_(k) > 0))
            for nm2, x02, x2 in L.vals():
                yield f'{nm2} is the last key up to {nm}', x2 == VStr(LK(k))
            for nm2, t0, t in L.lists():
                yield f'{nm2} has the entries up to {nm}', t == ENTR(k)

    def nodes_ok(c):
        x = SEQ.at_(LE(c), _j)
        return [('well-formed nodes', FA([_j], Implies(And(0 <= _j, _j < SEQ.len_(LE(c))), Or(
            And(leaf(x), leaf_ok(x)), And(Not(leaf(x)), isref(x), WFS(rv(x))))), x))]

    def ser_post(c, r):
        k = SKEL(LE(c))
        return [('the first subtree', ntf(DATA, 'l', r) == LFT(k)),
                ('the other entries', ntf(DATA, 'e', r) == VList(ENTR(k))),
                ('encodable', SEROK(k))]
    reg.add('mst.serialize_node_data', params={'entries': 'list'}, returns='nt:' + DATA,
            caches=hash_, requires=nodes_ok, setup=ser_setup, loops=[ser_loop], ensures=ser_post,
            raises=[('ValueError', lambda c: Not(SEROK(SKEL(LE(c)))))])
    reg.add('mst.deserialize_node_data', inline=True, loops=[load_loop])
    reg.add(MST + '.get_entries', params=S_, returns='list', caches=load, setup=load_setup,
            requires=node, loops=[load_loop],
            result=lambda ex, c: VList(ex.data.get('ents', {}).get(m(c).sexpr(), E(c))),
            ensures=lambda c, r: [('its entries', r == VList(E(c)))])
    reg.libs['hashlib.sha256'] = lambda ex, a, kw: VOpq(Function('sha256obj', Byt, Opq)(
        ex.want(a[0], 'VByt')))
    reg.val_methods[('VOpq', 'digest')] = lambda ex, o, a, kw: VByt(SHA256(
        acc('VOpq', 0, o).arg(0)))

    def lz_loop(L):
        if L.seq is None or L.seq.decl().name() != 'byteseq':
            return
        h = L.seq.arg(0)
        for nm, x0, x in L.vals():
            yield f'{nm} counts', LZB(h) == iv(x) + LZB(BYT.sub_(h, L.i, BYT.len_(h)))

    def lz_spec(c):
        k = c.v('key')
        return LZ(acc('VStr', 0, k)) if con_of(k) == 'VStr' else LZB(SHA256(
            acc('VByt', 0, k))) if con_of(k) == 'VByt' else If(
                RECOG['VStr'](k), LZ(acc('VStr', 0, k)), LZB(SHA256(acc('VByt', 0, k))))
    reg.add('mst.leading_zeros_on_hash', params={'key': 'str|byt'}, returns='int', caches=[],
            loops=[lz_loop], ensures=lambda c, r: [('of the key', r == VInt(lz_spec(c)))])

    def validkey(k):
        p = SPLIT(k, slit('/'), IntVal(-1))
        part = lambda i: sv(SEQ.at_(p, IntVal(i)))
        return And(STR.len_(k) <= 256, SEQ.len_(p) == 2, *[f for i in (0, 1) for f in (
            STR.len_(part(i)) > 0, re_pred('fullmatch', r'[a-zA-Z0-9_\-:.]+')(part(i)))])
    reg.add('mst.ensure_valid_key', params={'key': 'str'}, returns='none', caches=[],
            setup=lambda ex, c: ex.assume(VALIDKEY(K(c)) == validkey(K(c))),
            raises=[('ValueError', lambda c: Not(VALIDKEY(K(c))))])
    reg.add('mst.cid_for_entries', params={'entries': 'list'}, returns='cid', caches=hash_,
            requires=lambda c: nodes_ok(c) + [('encodable', SEROK(SKEL(LE(c))))],
            setup=ser_setup, ensures=lambda c, r: [('of the node', r == VCid(CIDN(SKEL(LE(c)))))])

    def first_leaf(c, r):
        x = SEQ.at_(LE(c), _j)
        inr = And(0 <= _j, _j < SEQ.len_(LE(c)))
        return [('None or an int', Or(r == VNone, RECOG['VInt'](r))),
                ('None without leaves', Implies(r == VNone, FA([_j], Implies(inr, Not(leaf(x))),
                                                               x))),
                ("a leaf's layer", Implies(r != VNone, Not(FA([_j], Not(And(
                    inr, leaf(x), r == VInt(LZ(lkey(x))))), x))))]

    def leaf_loop(L):
        if L.seq is None:
            return
        x = SEQ.at_(L.seq, _j)
        yield 'no leaf so far', FA([_j], Implies(And(0 <= _j, _j < L.i), Not(leaf(x))), x)
        yield 'only leaves so far', FA([_j], Implies(And(0 <= _j, _j < L.i), leaf(x)), x)
    _q = Int('q')
    reg.add('mst.layer_for_entries', params={'entries': 'list'}, returns='opt:int', caches=[],
            loops=[leaf_loop], ensures=first_leaf, requires=lambda c: [('leaves have keys', FA(
                [_q], Implies(And(0 <= _q, _q < SEQ.len_(LE(c))), leaf_typed(SEQ.at_(LE(c), _q))),
                SEQ.at_(LE(c), _q)))])

    def lay_setup(ex, c):
        e = E(c)
        ex.elem_fact(e, lambda x, i: NOK(U(x), LAYS(e), stg(m(c))))
        cuts(ex, e, IntVal(0))
    add(MST + '.attempt_get_layer', params=S_, returns='opt:int', requires=node, setup=lay_setup,
        caches=load + [MF('layer')], loops=[leaf_loop], ensures=lambda c, r: [
            ('its layer, if known', r == If(n_(c) > 0, VInt(LAYS(E(c))), c.old(
                MF('layer'), m(c))))])
    add(MST + '.get_layer', params=S_, returns='int', requires=node,
        caches=load + [MF('layer')],
        ensures=lambda c, r: [('its layer', r == VInt(HL(c, m(c), True)))])

    def gt_loop(L):
        if L.seq is None:
            return
        k = L.ex.cut_params['key']
        x = SEQ.at_(L.seq, _j)
        yield 'all leaves so far are less', FA([_j], Implies(
            And(0 <= _j, _j < L.i), Not(And(leaf(x), sord(lkey(x)) >= sord(k)))), x)

    def gt_setup(ex, c):
        ex.cut_params = {'key': K(c)}
        e = E(c)
        ex.elem_fact(e, lambda x, i: NOK(U(x), LAYS(e), stg(m(c))))

    def gt_post(c, r):
        i, e, n = iv(r), E(c), n_(c)
        cuts(c.ex, e, i)
        sub = SEQ.sub_
        at = SEQ.at_
        return [
            ('an index', And(0 <= i, i <= n)),
            ('of a leaf from the key on', Implies(i < n, And(leaf(at(e, i)), sord(lkey(at(
                e, i))) >= od(c), LO(sub(e, i, n)) >= od(c)))),
            ('leaves before are less', Implies(Or(i == 0, leaf(at(e, i - 1))), HI(sub(
                e, 0, i)) < od(c))),
            ('leaves before a subtree are less', Implies(And(i > 0, Not(leaf(at(e, i - 1)))), HI(
                sub(e, 0, i - 1)) < od(c)))]
    add(MST + '.find_gt_or_equal_leaf_index', caches=load, params=P, returns='int', requires=node,
        setup=gt_setup, loops=[gt_loop], ensures=gt_post)

    same = lambda c, r: [('well-formed node', WFS(rv(r))), ('same storage', stg(rv(r)) == stg(
        m(c)))]
    wf = lambda c: [('well-formed tree', top(c, m(c)))]
    is_path = lambda c: VALIDKEY(K(c))
    absent = lambda c: tget(m(c), K(c)) == VNone

    def nodes(c, r, layer):
        x = ents(rv(r))
        return [('same storage', stg(rv(r)) == stg(m(c))),
                ('keys ascend', SRT(x)), ('on the layer', NOK(x, layer, stg(m(c))))]

    def changed(c, r, val, layer):
        return nodes(c, r, layer) + [('exactly this key changes', FA([_s], tget(rv(r), _s) == If(
            _s == K(c), val, tget(m(c), _s)), tget(rv(r), _s))),
            ('well-formed node', WFS(rv(r)))]
    add(MST + '.get', caches=load, params=P, returns='opt:cid', requires=node,
        ensures=lambda c, r: [('the value of that key', r == tget(m(c), K(c)))])

    def up_post(c, r):
        x = ents(rv(r))
        return changed(c, r, c.v('value'), LAYS(E(c))) + [
            ('the same bounds', And(LO(x) == LO(E(c)), HI(x) == HI(E(c)))),
            ('the same shape', And(SEQ.len_(x) == n_(c), SR(x) == SR(E(c)), ER(x) == ER(E(c)))),
            ('the same layer', LAYS(x) == LAYS(E(c))),
            ('still a tree', Implies(top(c, m(c), c.old), top(c, rv(r)))),
            ('the same CID exactly if nothing changes', (cidm(rv(r)) == cidm(m(c))) == (
                c.v('value') == tget(m(c), K(c))))]
    add(MST + '.update', caches=load, params={**P, 'value': 'cid'}, returns=R, requires=node, ensures=up_post,
        hide=tuple(x for x in CODEC_L if x not in ('lemma:mst_cid', 'lemma:mst_serok', 'mstcodec')),
        raises=[('ValueError', lambda c: Not(is_path(c))), ('KeyError', absent)])

    def part(v):
        if v.eq(VNone):
            return E0
        return ents(rv(v)) if con_of(v) == 'VRef' else If(v == VNone, E0, ents(rv(v)))
    lz = lambda c: LZ(K(c))

    # a parent's chain in add()
    def up_loop(L):
        for key, h0, h in L.fields():
            if key == MF('storage'):
                yield 'nodes keep their storage', FA([_o], Implies(_o <= 0, Select(h, _o) == Select(
                    h0, _o)), Select(h, _o))
        for nm, x0, x in L.vals():
            r0, r = rv(x0), rv(x)
            yield f'{nm} is None or not', (x == VNone) == (x0 == VNone)
            some = x0 != VNone
            yield f'{nm} is a node', Implies(some, And(is_mst(x), SEQ.len_(ents(r)) > 0))
            yield f'{nm} is well-formed', Implies(some, WFS(r))
            yield f'{nm} is in the same storage', Implies(some, stg(r) == stg(r0))
            yield f'{nm} has the same keys', Implies(some, FA([_s], GETS(ents(r), _s) == GETS(
                ents(r0), _s), GETS(ents(r), _s)))
            yield f'{nm} has the same bounds', Implies(some, And(LO(ents(r)) == LO(ents(r0)), HI(
                ents(r)) == HI(ents(r0))))
            yield f'{nm} is further up', Implies(some, LAYS(ents(r)) == LAYS(ents(r0)) + L.i)

    def add_post(c, r):
        x = ents(rv(r))
        l = HL(c, m(c), True)
        return changed(c, r, c.v('value'), mx(l, lz(c))) + [
            ('not empty', SEQ.len_(x) > 0), ('its layer', LAYS(x) == mx(l, lz(c))),
            ('the bounds', And(LO(x) == mn(LO(E(c)), od(c)), HI(x) == mx(HI(E(c)), od(c)))),
            ('still a tree', Implies(top(c, m(c), c.old), top(c, rv(r))))]
    add(MST + '.add', params={**P, 'value': 'cid', 'known_zeros': 'opt:int'}, returns=R,
        requires=lambda c: node(c) + layer_ok(c) + [('the layer of the key', Or(c.v(
            'known_zeros') == VNone, c.v('known_zeros') == VInt(lz(c))))],
        loops=[up_loop], ensures=add_post,
        raises=[('ValueError', lambda c: Or(Not(is_path(c)), Not(absent(c))))])

    def split_post(c, r):
        l, g = SEQ.at(lv(r), IntVal(0)), SEQ.at(lv(r), IntVal(1))
        pl, pr = part(l), part(g)
        out = [('two parts', And(RECOG['VList'](r), SEQ.len_(lv(r)) == 2))]
        for nm, x, t in (('left', l, pl), ('right', g, pr)):
            out += [(f'{nm}: a node or None', Or(x == VNone, And(is_mst(x), SEQ.len_(t) > 0)))]
            out += [(f'{nm}: same storage', Or(x == VNone, stg(rv(x)) == stg(m(c)))),
                    (f'{nm}: keys ascend', SRT(t)),
                    (f'{nm}: on the layer', NOK(t, LAYS(E(c)), stg(m(c)))),
                    (f'{nm}: well-formed', Or(x == VNone, And(WFS(rv(x)), LAYS(t) == LAYS(
                        E(c)))))]
        return out + [
            ('all keys are in them', FA([_s], GETS(E(c), _s) == If(
                GETS(pl, _s) != VNone, GETS(pl, _s), GETS(pr, _s)), GETS(E(c), _s))),
            ('left is less', HI(pl) < od(c)), ('right is greater', od(c) < LO(pr)),
            ('the bounds', And(LO(E(c)) == mn(LO(pl), LO(pr)), HI(E(c)) == mx(HI(pl), HI(pr))))]
    add(MST + '.split_around', caches=load, params=P, returns='list', requires=lambda c: node(c) + [
        ('a new key', absent(c))], ensures=split_post)

    O = lambda c: ents(c.ref('to_merge'))

    def merge_setup(ex, c):
        cuts(ex, E(c), n_(c) - 1)
        cuts(ex, O(c), IntVal(0))

    def merge_post(c, r):
        x = ents(rv(r))
        return nodes(c, r, LAYS(E(c))) + [
                ('well-formed node', WFS(rv(r))),
                ('not empty', SEQ.len_(x) > 0), ('same layer', LAYS(x) == LAYS(E(c))),
                ('the bounds', And(LO(x) == LO(E(c)), HI(x) == HI(O(c)))),
                ('the keys of both', FA([_s], GETS(x, _s) == If(
                    GETS(E(c), _s) != VNone, GETS(E(c), _s), GETS(O(c), _s)), GETS(x, _s)))]
    add(MST + '.append_merge', params={**S_, 'to_merge': R}, returns=R, requires=lambda c: node(
        c) + [('the other is well-formed', WFS(c.ref('to_merge'))),
              ('same storage', stg(c.ref('to_merge')) == stg(m(c))),
              ('not empty', And(n_(c) > 0, SEQ.len_(O(c)) > 0)),
              ('same layer', LAYS(E(c)) == LAYS(O(c))),
              ('the other is greater', HI(E(c)) < LO(O(c)))], ensures=merge_post,
        setup=merge_setup)

    def del_post(c, r):
        x = ents(rv(r))
        return changed(c, r, VNone, LAYS(E(c))) + [
            ('within the bounds', And(LO(x) >= LO(E(c)), HI(x) <= HI(E(c)))),
            ('same layer', Implies(SEQ.len_(x) > 0, LAYS(x) == LAYS(E(c))))]
    add(MST + '.delete_recurse', params=P, returns='fresh:' + MST, requires=node, ensures=del_post,
        raises=[('KeyError', absent)])

    add(MST + '.trim_top', params=S_, returns=R, requires=node,
        rely_except=lambda c: {MF('layer'): [m(c)]},
        setup=lambda ex, c: cuts(ex, E(c), IntVal(0)),
        ensures=lambda c, r: [
            ('the same keys', FA([_s], tget(rv(r), _s) == tget(m(c), _s), tget(rv(r), _s))),
            ('a tree', top(c, rv(r))), ('same storage', stg(rv(r)) == stg(m(c)))])
    add(MST + '.delete', params=P, returns=R, requires=node, raises=[('KeyError', absent)],
        ensures=lambda c, r: [
            ('same storage', stg(rv(r)) == stg(m(c))),
            ('exactly this key changes', FA([_s], tget(rv(r), _s) == If(
                _s == K(c), VNone, tget(m(c), _s)), tget(rv(r), _s))),
            ('a tree', top(c, rv(r)))])
    def ptr_setup(ex, c):
        e = E(c)
        ex.elem_fact(e, lambda x, i: And(Or(leaf(x), isref(x)), NOK(U(x), LAYS(e), stg(m(c)))))
    add(MST + '.get_pointer', params=S_, returns='cid', requires=node, caches=hash_,
        setup=ptr_setup, ensures=lambda c, r: [('the CID of the root node', r == VCid(
            cidm(m(c))))])

    NEWF = [BF(n) for n in ('seq', 'ops', 'time', 'repo')]

    def good(c, x, k, blocks):
        return And(is_block(x), k == VCid(bcid(rv(x))), CBOR_OK(bdec(rv(x))),
                   mget(blocks, k) == VAbsent, ISNODE(m(c), acc('VCid', 0, k)), rv(x) > 0)

    def un_setup(ex, c):
        e = E(c)
        ex.elem_fact(e, lambda x, i: And(Or(leaf(x), isref(x)), NOK(U(x), LAYS(e), stg(m(c))),
                                         Or(leaf(x), WFS(rv(x)))))
        ex.cut_params = {'un': c}

    def un_loop(L):
        c = (getattr(L.ex, 'cut_params', None) or {}).get('un')
        if c is None or L.seq is None:
            return
        blocks = View(c).blocks(st=stg(m(c)))
        done = SEQ.sub_(E(c), 0, L.i)
        yield 'these are its entries', L.seq == E(c)
        yield 'so far', SEQ.len_(done) == L.i
        L.ex.assume(Implies(L.i == n_(c), done == E(c)))
        L.ex.assume(Implies(And(0 <= L.i, L.i < n_(c)), SEQ.sub_(E(c), 0, L.i + 1) == CAT(done, U(
            SEQ.at_(E(c), L.i)))))
        for nm, t0, t in L.maps():
            x = mget(t, _k)
            yield f'{nm} has what is not stored', FA([_c], Implies(Or(_c == cidm(m(c)), UNDER(
                done, _c)), Or(mget(blocks, VCid(_c)) != VAbsent, mget(t, VCid(_c)) != VAbsent)),
                UNDER(done, _c))
            yield f'{nm} has this node', mget(t, VCid(cidm(m(c)))) != VAbsent
            yield f'{nm} has only those', FA([_k], Implies(x != VAbsent, good(c, x, _k, blocks)),
                                             x)

    def unstored(c, r):
        blocks = View(c).blocks(st=stg(m(c)))
        d = dv(SEQ.at(acc('VTup', 0, r), IntVal(1)))
        x = mget(d, _k)
        return [
            ('the root', SEQ.at(acc('VTup', 0, r), IntVal(0)) == VCid(cidm(m(c)))),
            ('every node not stored yet', FA([_c], Implies(ISNODE(m(c), _c), Or(
                mget(blocks, VCid(_c)) != VAbsent, mget(d, VCid(_c)) != VAbsent)),
                ISNODE(m(c), _c))),
            ('only those, under their CIDs', FA([_k], Implies(x != VAbsent, good(
                c, x, _k, blocks)), x))]
    EXPORT |= {'the root', 'every node not stored yet', 'only those, under their CIDs'}
    add(MST + '.get_unstored_blocks', params=S_, returns='tuple:cid,dict',
        hide=('lemma:mst_enc', 'lemma:mst_enc_node', 'lemma:mst_codec', 'lemma:mst_enc_first',
              'lemma:mst_enc_entries', 'lemma:mst_skel_at', 'lemma:mst_serok_at', 'lemma:mst_cid',
              'lemma:mst_unique', 'lemma:mst_bounds', 'lemma:mst_first', 'lemma:mst_keys'),
        requires=lambda c: node(c) + [('it has a storage', cls_(stg(m(c))) == cls_id(MEM)), (
            'stored nodes are complete', closed(View(c).blocks(
            st=stg(m(c)))))], modifies=NEWF, caches=hash_, setup=un_setup, loops=[un_loop],
        frame=lambda c: [(k, []) for k in NEWF], ensures=unstored)

    # -- listing
    def listed(t, E_, cond):
        return FA([_s], GETS(t, _s) == If(cond(_s), GETS(E_, _s), VNone), GETS(t, _s),
                  GETS(E_, _s))

    def from_setup(ex, c):
        e = E(c)
        ex.elem_fact(e, lambda x, i: And(Or(leaf(x), isref(x)), NOK(U(x), LAYS(e), stg(m(c))),
                                         SRT(U(x))))
        ex.cut_params = {'from': c}

    def from_loop(L):
        c = (getattr(L.ex, 'cut_params', None) or {}).get('from')
        if c is None or L.seq is None:
            return
        done, rest = SEQ.sub_(L.seq, 0, L.i), SEQ.sub_(L.seq, L.i, L.n)
        L.ex.assume(Implies(And(0 <= L.i, L.i <= L.n), L.seq == CAT(done, rest)))
        yield 'rest', SEQ.len_(rest) == L.n - L.i
        for nm, t0, t in L.lists():
            yield f'{nm}: only leaves', ALLL(t)
            yield f'{nm}: keys ascend', SRT(t)
            yield f'{nm}: before the rest', HI(t) < LO(rest)
            yield f'{nm}: bounds', And(LO(t) == mn(LO(t0), LO(done)), HI(t) == mx(HI(t0), HI(
                done)))
            yield f'{nm}: also lists those', FA([_s], GETS(t, _s) == If(GETS(
                t0, _s) != VNone, GETS(t0, _s), GETS(done, _s)), GETS(t, _s))

    def from_post(c, r):
        t = lv(r)
        return [('only leaves', ALLL(t)), ('keys ascend', SRT(t)),
                ('from the key on', LO(t) >= od(c)), ('within the bounds', HI(t) <= HI(E(c))),
                ('everything if the key is less', Implies(od(c) <= LO(E(c)), And(
                    LO(t) == LO(E(c)), HI(t) == HI(E(c))))),
                ('exactly the keys from there on', listed(t, E(c), lambda s: sord(s) >= od(c)))]
    add(MST + '.walk_leaves_from', params=P, returns='iter', requires=node, caches=load,
        setup=from_setup, loops=[from_loop], ensures=from_post)

    OB = lambda c, n: c.v(n)
    truthy = lambda v: And(RECOG['VStr'](v), STR.len_(sv(v)) > 0)

    def in_range(c, s):
        a, b = OB(c, 'after'), OB(c, 'before')
        return And(Or(Not(truthy(a)), sord(s) > sord(sv(a))),
                   Or(Not(truthy(b)), sord(s) < sord(sv(b))))

    def in_prefix(c, s):
        return startswith(s, c.s('prefix'))

    def list_loop(L):
        c = (getattr(L.ex, 'cut_params', None) or {}).get('list')
        if c is None or L.seq is None:
            return
        done, rest = SEQ.sub_(L.seq, 0, L.i), SEQ.sub_(L.seq, L.i, L.n)
        L.ex.assume(Implies(And(0 <= L.i, L.i <= L.n), L.seq == CAT(done, rest)))
        L.ex.assume(Implies(And(0 <= L.i, L.i < L.n), rest == CAT(U(SEQ.at_(
            L.seq, L.i)), SEQ.sub_(L.seq, L.i + 1, L.n))))
        yield 'rest', SEQ.len_(rest) == L.n - L.i
        keep = c.list_cond
        if keep is in_range:
            b = OB(c, 'before')
            yield 'all so far are before', Or(Not(truthy(b)), HI(done) < sord(sv(b)), And(
                truthy(OB(c, 'after')), HI(done) <= sord(sv(OB(c, 'after')))))
        for nm, t0, t in L.lists():
            yield f'{nm}: only leaves', ALLL(t)
            yield f'{nm}: keys ascend', SRT(t)
            yield f'{nm}: bounds', And(LO(t) >= LO(done), HI(t) <= HI(done))
            yield f'{nm}: lists those', FA([_s], GETS(t, _s) == If(keep(c, _s), GETS(
                done, _s), VNone), GETS(t, _s))

    def list_setup(cond):
        def f(ex, c):
            c.list_cond = cond
            ex.cut_params = {'list': c}
        return f

    def list_post(cond):
        def f(c, r):
            t = lv(r)
            return [('only leaves', ALLL(t)), ('keys ascend', SRT(t)),
                    ('exactly the keys within the bounds', listed(t, E(c), lambda s: cond(
                        c, s)))]
        return f
    EXPORT |= {'only leaves', 'keys ascend', 'exactly the keys within the bounds'}
    add(MST + '.list', params={**S_, 'after': 'opt:str', 'before': 'opt:str'}, returns='list',
        requires=node, caches=load, setup=list_setup(in_range), loops=[list_loop],
        ensures=list_post(in_range))
    add(MST + '.list_with_prefix', params={**S_, 'prefix': 'str'}, returns='list', requires=node,
        caches=load, setup=list_setup(in_prefix), loops=[list_loop],
        ensures=list_post(in_prefix))
