"""Sorts, the Python value datatype, and the background theories (axioms) the
verification conditions are discharged in.

Everything in AXIOMS is an assumption of the proofs; `axiom_catalog()` lists them
by group for the evidence files.
"""
import ast, os, functools
from z3 import (DeclareSort, Datatype, Function, IntSort, BoolSort, RealSort, Const,
                Consts, ForAll, Exists, Implies, And, Or, Not, If, IntVal, BoolVal, RealVal,
                Int, Ints, Bool, Real, MultiPattern, simplify, is_app, is_true, is_false,
                Z3_OP_UNINTERPRETED, substitute, ExprRef, is_quantifier, is_int_value)

REPO = os.environ.get('VERIF_REPO', '/repo')

Int_, Bool_, Real_ = IntSort(), BoolSort(), RealSort()
Str = DeclareSort('Str')
Byt = DeclareSort('Byt')
Cid = DeclareSort('Cid')
Seq = DeclareSort('Seq')
Map = DeclareSort('Map')
Opq = DeclareSort('Opq')


# ---------------------------------------------------------------------------
# source scan: namedtuples and enums become constructors of Val

def _scan():
    nts, enums = {}, {}
    d = os.path.join(REPO, 'arroba')
    for fn in sorted(os.listdir(d)):
        if not fn.endswith('.py'):
            continue
        mod = fn[:-3]
        try:
            tree = ast.parse(open(os.path.join(d, fn)).read())
        except SyntaxError:
            continue
        for st in tree.body:
            if (isinstance(st, ast.Assign) and isinstance(st.value, ast.Call)
                    and isinstance(st.value.func, ast.Name)
                    and st.value.func.id == 'namedtuple'):
                fields = ast.literal_eval(st.value.args[1])
                if isinstance(fields, str):
                    fields = fields.replace(',', ' ').split()
                defaults = ()
                for kw in st.value.keywords:
                    if kw.arg == 'defaults':
                        defaults = eval(compile(ast.Expression(kw.value), '<nt>', 'eval'), {})
                nts[f'{mod}.{st.targets[0].id}'] = (tuple(fields), tuple(defaults))
            if isinstance(st, ast.ClassDef) and any(
                    isinstance(b, ast.Name) and b.id == 'Enum' for b in st.bases):
                mem = [s.targets[0].id for s in st.body if isinstance(s, ast.Assign)]
                enums[f'{mod}.{st.name}'] = mem
    return nts, enums


NTS, ENUMS = _scan()

_dt = Datatype('Val')
_dt.declare('VNone')
_dt.declare('VAbsent')
_dt.declare('VBool', ('vbool', Bool_))
_dt.declare('VInt', ('vint', Int_))
_dt.declare('VReal', ('vreal', Real_))
_dt.declare('VStr', ('vstr', Str))
_dt.declare('VByt', ('vbyt', Byt))
_dt.declare('VCid', ('vcid', Cid))
_dt.declare('VRef', ('vref', Int_))
_dt.declare('VList', ('vlist', Seq))
_dt.declare('VTup', ('vtup', Seq))
_dt.declare('VDict', ('vdict', Map))
_dt.declare('VSet', ('vset', Map))
_dt.declare('VOpq', ('vopq', Opq))
_dt.declare('VEnum', ('venum_cls', Int_), ('venum_no', Int_))
for _n, (_f, _d) in NTS.items():
    _dt.declare(_n, *[(f'{_n}.{x}', _dt) for x in _f])
Val = _dt.create()

VNone, VAbsent = Val.VNone, Val.VAbsent
VBool, VInt, VReal, VStr, VByt, VCid = (Val.VBool, Val.VInt, Val.VReal, Val.VStr, Val.VByt,
                                        Val.VCid)
VRef, VList, VTup, VDict, VSet, VOpq, VEnum = (Val.VRef, Val.VList, Val.VTup, Val.VDict,
                                               Val.VSet, Val.VOpq, Val.VEnum)
CONS = {Val.constructor(i).name(): Val.constructor(i) for i in range(Val.num_constructors())}
RECOG = {Val.constructor(i).name(): Val.recognizer(i) for i in range(Val.num_constructors())}
ACC = {}
for i in range(Val.num_constructors()):
    c = Val.constructor(i)
    ACC[c.name()] = [Val.accessor(i, j) for j in range(c.arity())]

ENUM_IDS = {n: i for i, n in enumerate(sorted(ENUMS))}


def con_of(t):
    """Constructor name of a Val term, if syntactically known."""
    if is_app(t):
        n = t.decl().name()
        if n in CONS and t.sort() == Val and t.decl().eq(CONS[n]):
            return n
    return None


def is_(name, t):
    c = con_of(t)
    if c is not None:
        return BoolVal(c == name)
    return RECOG[name](t)


def acc(name, i, t):
    if con_of(t) == name:
        return t.arg(i)
    return ACC[name][i](t)


def nt(name):
    """Constructor function for a namedtuple, eg nt('mst.Leaf')."""
    return CONS[name]


def ntf(name, field, t):
    return acc(name, NTS[name][0].index(field), t)


def enumv(cls, member):
    return VEnum(IntVal(ENUM_IDS[cls]), IntVal(ENUMS[cls].index(member)))


# ---------------------------------------------------------------------------
AXIOMS = {}  # group -> list of (label, formula)


def axiom(group, label, f):
    if is_quantifier(f) and f.is_forall():
        # name the quantifier after its label
        n = f.num_vars()
        vs = [Const(f.var_name(i), f.var_sort(i)) for i in range(n)]
        sub = list(reversed(vs))
        from z3 import substitute_vars
        pats = [f.pattern(i) for i in range(f.num_patterns())]
        np = []
        for p in pats:
            ts = [substitute_vars(t, *sub) for t in p.children()]
            np.append(MultiPattern(*ts))
        f = ForAll(vs, substitute_vars(f.body(), *sub), patterns=np,
                   qid=(group + ':' + label).replace(' ', '_'))
    AXIOMS.setdefault(group, []).append((label, f))


def FA(vs, body, *pats, qid=''):
    pats = [MultiPattern(*p) if isinstance(p, (list, tuple)) else p for p in pats]
    return ForAll(vs, body, patterns=pats, qid=qid) if pats else ForAll(vs, body, qid=qid)


class SeqT:
    """Finite sequences over an element sort, with smart constructors."""

    def __init__(self, pre, S, E):
        self.pre, self.S, self.E = pre, S, E
        self.len_ = Function(pre + 'len', S, Int_)
        self.at_ = Function(pre + 'at', S, Int_, E)
        self.unit_ = Function(pre + 'unit', E, S)
        self.cat_ = Function(pre + 'cat', S, S, S)
        self.sub_ = Function(pre + 'sub', S, Int_, Int_, S)
        self.empty = Const(pre + 'empty', S)
        self._axioms()

    # -- smart constructors
    def len(self, s):
        d = s.decl()
        if s.eq(self.empty):
            return IntVal(0)
        if d.eq(self.unit_):
            return IntVal(1)
        if d.eq(self.cat_):
            return simplify(self.len(s.arg(0)) + self.len(s.arg(1)))
        if d.eq(self.sub_):     # only made where its bounds hold
            return simplify(s.arg(2) - s.arg(1))
        return self.len_(s)

    def unit(self, e):
        return self.unit_(e)

    def parts(self, s):
        if s.eq(self.empty):
            return []
        if s.decl().eq(self.cat_):
            return self.parts(s.arg(0)) + self.parts(s.arg(1))
        return [s]

    def of_parts(self, ps):
        if not ps:
            return self.empty
        r = ps[-1]
        for p in reversed(ps[:-1]):
            r = self.cat_(p, r)
        return r

    def cat(self, *ss):
        ps = []
        for s in ss:
            ps += self.parts(s)
        return self.of_parts(ps)

    def lit(self, items):
        return self.of_parts([self.unit_(x) for x in items])

    def concrete(self, s):
        """List of element terms if s is syntactically a concrete-length sequence."""
        ps = self.parts(s)
        if all(p.decl().eq(self.unit_) for p in ps):
            return [p.arg(0) for p in ps]
        return None

    def at(self, s, i):
        i = simplify(i) if isinstance(i, ExprRef) else IntVal(i)
        if is_int_value(i):
            n = i.as_long()
            for p in self.parts(s):
                if not p.decl().eq(self.unit_):
                    break
                if n == 0:
                    return p.arg(0)
                n -= 1
        return self.at_(s, i)

    def sub(self, s, i, j):
        """Unclamped: caller guarantees 0 <= i <= j <= len."""
        i = simplify(i) if isinstance(i, ExprRef) else IntVal(i)
        j = simplify(j) if isinstance(j, ExprRef) else IntVal(j)
        if i.eq(j):
            return self.empty
        if is_int_value(i) and i.as_long() == 0 and j.eq(simplify(self.len(s))):
            return s
        ps = self.parts(s)
        if is_int_value(i) and is_int_value(j) and all(p.decl().eq(self.unit_) for p in ps):
            return self.of_parts(ps[i.as_long():j.as_long()])
        # drop leading / trailing units when bounds are literal or len-k
        if is_int_value(i) and i.as_long() > 0 and ps and ps[0].decl().eq(self.unit_):
            k = i.as_long()
            if k <= len(ps) and all(p.decl().eq(self.unit_) for p in ps[:k]):
                return self.sub(self.of_parts(ps[k:]), IntVal(0), simplify(j - k))
        if s.decl().eq(self.sub_):
            return self.sub(s.arg(0), simplify(s.arg(1) + i), simplify(s.arg(1) + j))
        return self.sub_(s, i, j)

    def split_facts(self, s, i, j):
        """Ground facts relating s to its parts at 0 <= i <= j <= len."""
        n = simplify(self.len(s))
        ps = [self.sub(s, IntVal(0), i), self.sub(s, i, j), self.sub(s, j, n)]
        out = []
        for p in ps:
            if p.decl().eq(self.sub_) and p.arg(0).eq(s):
                out.append(self.len_(p) == p.arg(2) - p.arg(1))
        whole = self.cat(*ps)
        if not whole.eq(s):
            out.append(s == whole)
        return out

    def _axioms(self):
        g = self.pre + 'seq'
        a, b, c, s = Consts('a b c s', self.S)
        e, f = Consts('e f', self.E)
        i, j, k, m, n = Ints('i j k m n')
        L, AT, U, C, SUB, E0 = (self.len_, self.at_, self.unit_, self.cat_, self.sub_,
                                self.empty)
        rich = {'at cat', 'at cat 0', 'at sub', 'cat assoc', 'sub head', 'sub last', 'cat len0'}
        ax = lambda l, f: axiom(g + '1' * (l in rich), l, f)
        ax('len>=0', FA([s], L(s) >= 0, L(s)))
        ax('len empty', L(E0) == 0)
        ax('len0', FA([s], Implies(L(s) == 0, s == E0), L(s)))
        ax('unit', FA([e], And(L(U(e)) == 1, AT(U(e), 0) == e), U(e)))
        ax('len cat', FA([a, b], L(C(a, b)) == L(a) + L(b), C(a, b)))
        ax('at cat', FA([a, b, i], And(
            Implies(And(0 <= i, i < L(a)), AT(C(a, b), i) == AT(a, i)),
            Implies(And(L(a) <= i, i < L(a) + L(b)), AT(C(a, b), i) == AT(b, i - L(a)))),
            AT(C(a, b), i)))
        ax('at cat 0', FA([a, b], And(
            Implies(0 < L(a), AT(C(a, b), 0) == AT(a, 0)),
            Implies(And(L(a) == 0, 0 < L(b)), AT(C(a, b), 0) == AT(b, 0))),
            C(a, b)))
        ax('len sub', FA([s, i, j], Implies(And(0 <= i, i <= j, j <= L(s)),
                                            L(SUB(s, i, j)) == j - i), SUB(s, i, j)))
        ax('at sub', FA([s, i, j, k], Implies(And(0 <= i, i <= j, j <= L(s), 0 <= k, k < j - i),
                                              AT(SUB(s, i, j), k) == AT(s, i + k)),
                        AT(SUB(s, i, j), k)))
        ax('cat empty', FA([s], And(C(E0, s) == s), C(E0, s)))
        ax('cat empty r', FA([s], And(C(s, E0) == s), C(s, E0)))
        ax('cat len0', FA([a, b], And(Implies(L(a) == 0, C(a, b) == b),
                                      Implies(L(b) == 0, C(a, b) == a)), C(a, b)))
        ax('sub empty', FA([s, i, j], Implies(i == j, SUB(s, i, j) == E0), SUB(s, i, j)))
        ax('sub full', FA([s, j], Implies(j == L(s), SUB(s, 0, j) == s), SUB(s, 0, j)))
        ax('cat assoc', FA([a, b, c], C(C(a, b), c) == C(a, C(b, c)), C(C(a, b), c)))
        ax('sub head', FA([s, i, j], Implies(
            And(0 <= i, i < j, j <= L(s)),
            SUB(s, i, j) == C(U(AT(s, i)), SUB(s, i + 1, j))), [SUB(s, i, j), AT(s, i)]))
        ax('sub last', FA([s, i, j, k], Implies(
            And(0 <= i, i < j, j <= L(s), k == j - 1),
            SUB(s, i, j) == C(SUB(s, i, k), U(AT(s, k)))), [SUB(s, i, j), AT(s, k)]))
        ax2 = lambda l, f: axiom(g + '2', l, f)
        ax2('sub sub', FA([s, i, j, m, n], Implies(
            And(0 <= i, i <= j, j <= L(s), 0 <= m, m <= n, n <= j - i),
            SUB(SUB(s, i, j), m, n) == SUB(s, i + m, i + n)), SUB(SUB(s, i, j), m, n)))
        ax2('sub cat', FA([a, b, i, j], And(
            Implies(And(0 <= i, i <= j, j <= L(a)), SUB(C(a, b), i, j) == SUB(a, i, j)),
            Implies(And(L(a) <= i, i <= j, j <= L(a) + L(b)),
                    SUB(C(a, b), i, j) == SUB(b, i - L(a), j - L(a))),
            Implies(And(0 <= i, i <= L(a), L(a) <= j, j <= L(a) + L(b)),
                    SUB(C(a, b), i, j) == C(SUB(a, i, L(a)), SUB(b, 0, j - L(a))))),
            SUB(C(a, b), i, j)))


SEQ = SeqT('', Seq, Val)
STR = SeqT('s', Str, Int_)
BYT = SeqT('b', Byt, Int_)

# string order: an injective order embedding (lexicographic order on the countable set
# of strings embeds in the rationals); 0 < ord < 1
sord = Function('sord', Str, Real_)
_a, _b, _c = Consts('a b c', Str)
axiom('order', 'ord range', FA([_a], And(0 < sord(_a), sord(_a) < 1), sord(_a)))
axiom('order', 'ord injective', FA([_a, _b], Implies(sord(_a) == sord(_b), _a == _b),
                                   [sord(_a), sord(_b)]))
axiom('order', 'empty string least', FA([_a], sord(STR.empty) <= sord(_a), sord(_a)))

# prefixes
startswith = Function('startswith', Str, Str, Bool_)
axiom('prefix', 'prefix <= string', FA([_a, _b], Implies(startswith(_a, _b),
                                                      sord(_b) <= sord(_a)),
                                       startswith(_a, _b)))
axiom('prefix', 'prefix interval', FA([_a, _b, _c], Implies(
    And(startswith(_a, _c), sord(_c) <= sord(_b), sord(_b) <= sord(_a)),
    startswith(_b, _c)), [startswith(_a, _c), startswith(_b, _c)]))
axiom('prefix', 'empty prefix', FA([_a], startswith(_a, STR.empty), startswith(_a, STR.empty)))
axiom('prefix', 'prefix of concatenation', FA([_a, _b, _c], Implies(
    _a == _c, startswith(STR.cat_(_a, _b), _c)), startswith(STR.cat_(_a, _b), _c)))
axiom('prefix', 'prefix def', FA([_a, _b], And(
    Implies(startswith(_a, _b), And(STR.len_(_b) <= STR.len_(_a),
                                    STR.sub_(_a, 0, STR.len_(_b)) == _b)),
    Implies(And(STR.len_(_b) <= STR.len_(_a), STR.sub_(_a, 0, STR.len_(_b)) == _b),
            startswith(_a, _b))), startswith(_a, _b)))

# maps (dict / set)
mget = Function('mget', Map, Val, Val)
mput = Function('mput', Map, Val, Val, Map)
mdel = Function('mdel', Map, Val, Map)
mempty = Const('mempty', Map)
mkeys = Function('mkeys', Map, Seq)
mvals = Function('mvals', Map, Seq)
_m, _m2 = Consts('m m2', Map)
_k, _k2, _v = Consts('k k2 v', Val)
_i, _j = Ints('i j')
axiom('map', 'get empty', FA([_k], mget(mempty, _k) == VAbsent, mget(mempty, _k)))
axiom('map', 'get put', FA([_m, _k, _v, _k2], mget(mput(_m, _k, _v), _k2) ==
                           If(_k == _k2, _v, mget(_m, _k2)), mget(mput(_m, _k, _v), _k2)))
axiom('map', 'get del', FA([_m, _k, _k2], mget(mdel(_m, _k), _k2) ==
                           If(_k == _k2, VAbsent, mget(_m, _k2)), mget(mdel(_m, _k), _k2)))
axiom('map', 'keys empty', mkeys(mempty) == SEQ.empty)
axiom('map', 'keys put', FA([_m, _k, _v], mkeys(mput(_m, _k, _v)) ==
                            If(mget(_m, _k) == VAbsent, SEQ.cat_(mkeys(_m), SEQ.unit_(_k)),
                               mkeys(_m)), mkeys(mput(_m, _k, _v))))
axiom('map', 'keys present', FA([_m, _i], Implies(And(0 <= _i, _i < SEQ.len_(mkeys(_m))),
                                               mget(_m, SEQ.at_(mkeys(_m), _i)) != VAbsent),
                                SEQ.at_(mkeys(_m), _i)))
midx = Function('midx', Map, Val, Int_)
axiom('map', 'present key has an index', FA([_m, _k], Implies(
    mget(_m, _k) != VAbsent,
    And(0 <= midx(_m, _k), midx(_m, _k) < SEQ.len_(mkeys(_m)),
        SEQ.at_(mkeys(_m), midx(_m, _k)) == _k)), [mget(_m, _k), mkeys(_m)]))
axiom('map', 'keys distinct', FA([_m, _i], Implies(And(0 <= _i, _i < SEQ.len_(mkeys(_m))),
                                                midx(_m, SEQ.at_(mkeys(_m), _i)) == _i),
                                 SEQ.at_(mkeys(_m), _i)))
axiom('map', 'vals', FA([_m, _i], And(
    Implies(And(0 <= _i, _i < SEQ.len_(mkeys(_m))),
            SEQ.at_(mvals(_m), _i) == mget(_m, SEQ.at_(mkeys(_m), _i)))),
    SEQ.at_(mvals(_m), _i)))
axiom('map', 'value of a key', FA([_m, _k], Implies(
    mget(_m, _k) != VAbsent, SEQ.at_(mvals(_m), midx(_m, _k)) == mget(_m, _k)),
    [mget(_m, _k), mvals(_m)]))
axiom('map', 'vals len', FA([_m], SEQ.len_(mvals(_m)) == SEQ.len_(mkeys(_m)), mvals(_m)))

# ---------------------------------------------------------------------------
# literals
_lits = {}
litid = Function('litid', Str, Int_)
blitid = Function('blitid', Byt, Int_)


def slit(s):
    """Str term for a Python literal."""
    if s == '':
        return STR.empty
    k = ('s', s)
    if k not in _lits:
        _lits[k] = Const(f'lit!{len(_lits)}!{s[:24]}', Str)
    return _lits[k]


def blit(b):
    if b == b'':
        return BYT.empty
    k = ('b', b)
    if k not in _lits:
        _lits[k] = Const(f'blit!{len(_lits)}', Byt)
    return _lits[k]


_litnames = {}


def lit_of(t):
    """Python literal for a Str/Byt constant term, or None."""
    if t.eq(STR.empty):
        return ''
    if t.eq(BYT.empty):
        return b''
    for (k, s), c in _lits.items():
        if c.eq(t):
            return s
    return None


def literal_facts(used=None, codes=False):
    """Ground facts about the literals in use: length, pairwise distinctness, relative
    order and (optionally) characters."""
    out = []
    items = [(k, s, c) for (k, s), c in _lits.items() if used is None or c.decl().name() in used]
    strs = sorted([(s, c) for k, s, c in items if k == 's'], key=lambda x: x[0])
    for n, (s, c) in enumerate(strs):
        out.append(STR.len_(c) == len(s))
        out.append(litid(c) == n + 1)
        if n:
            out.append(sord(strs[n - 1][1]) < sord(c))
        if len(s) <= 40 and codes:
            for i, ch in enumerate(s):
                out.append(STR.at_(c, i) == ord(ch))
            j = Int('j')
            e = IntVal(ord(s[-1])) if s else IntVal(0)
            for i, ch in reversed(list(enumerate(s))[:-1]):
                e = If(j == i, IntVal(ord(ch)), e)
            out.append(FA([j], Implies(And(0 <= j, j < len(s)), STR.at_(c, j) == e),
                          STR.at_(c, j)))
    out.append(litid(STR.empty) == 0)
    for n, (k, s, c) in enumerate([x for x in items if x[0] == 'b']):
        out.append(BYT.len_(c) == len(s))
        out.append(blitid(c) == n + 1)
    out.append(blitid(BYT.empty) == 0)
    return out


def vs(s):
    return VStr(slit(s))


# classes: cls(ref) is an integer class id
cls_ = Function('cls', Int_, Int_)
_cls_ids = {}


def cls_id(name):
    if name not in _cls_ids:
        _cls_ids[name] = len(_cls_ids) + 1
    return IntVal(_cls_ids[name])


def used_symbols(fs):
    seen, names = set(), set()
    decls = {}
    stack = list(fs)
    while stack:
        t = stack.pop()
        i = t.get_id()
        if i in seen:
            continue
        seen.add(i)
        if is_quantifier(t):
            stack.append(t.body())
        elif is_app(t):
            d = t.decl()
            if d.kind() == Z3_OP_UNINTERPRETED:
                names.add(d.name())
            stack.extend(t.children())
    return names
