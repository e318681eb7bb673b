"""Models of the builtins and library functions the code uses. Every model here is a trusted
contract on a dependency; `used` collects the ones a proof relied on."""
import ast
import z3
from theory import *
from values import *
from core import DeadScope
from interp import simplify_get, NestedCont
from contract import Registry, kind_pred, fresh_of

STR_OF = Function('str_of', Val, Str)
CHARS = Function('chars', Str, Seq)
BYTESEQ = Function('byteseq', Byt, Seq)
JOIN = Function('sjoin', Seq, Str)          # ''.join
JOINSEP = Function('sjoinsep', Str, Seq, Str)
REP = Function('srep', Int_, Int_, Str)     # one character, n times
UTF8 = Function('utf8', Str, Byt)
UNUTF8 = Function('unutf8', Byt, Str)
SORTED = Function('sorted_', Seq, Seq)

_s, _t = Consts('s t', Str)
_q, _q2 = Consts('q q2', Seq)
_b = Const('b', Byt)
_x = Const('x', Val)
_i, _n, _c = Ints('i n c')
axiom('str', 'chars', FA([_s, _i], Implies(And(0 <= _i, _i < STR.len_(_s)),
                                           SEQ.at_(CHARS(_s), _i) ==
                                           VStr(STR.unit_(STR.at_(_s, _i)))),
                         SEQ.at_(CHARS(_s), _i)))
axiom('str', 'len chars', FA([_s], SEQ.len_(CHARS(_s)) == STR.len_(_s), CHARS(_s)))
axiom('str', 'join empty', JOIN(SEQ.empty) == STR.empty)
axiom('str', 'join unit', FA([_s], JOIN(SEQ.unit_(VStr(_s))) == _s, SEQ.unit_(VStr(_s))))
axiom('str', 'join cat', FA([_q, _q2], JOIN(SEQ.cat_(_q, _q2)) ==
                            STR.cat_(JOIN(_q), JOIN(_q2)), JOIN(SEQ.cat_(_q, _q2))))
axiom('str', 'repeat', FA([_c, _n], Implies(_n >= 0, STR.len_(REP(_c, _n)) == _n), REP(_c, _n)))
axiom('str', 'repeat at', FA([_c, _n, _i], Implies(And(0 <= _i, _i < _n),
                                                  STR.at_(REP(_c, _n), _i) == _c),
                             STR.at_(REP(_c, _n), _i)))
axiom('str', 'utf8 roundtrip', FA([_s], UNUTF8(UTF8(_s)) == _s, UTF8(_s)))

ITEM = lambda t: t


def pure(name, ret, *sorts):
    return Function(name, *sorts, ret)


class Lib(Registry):
    def __init__(self):
        super().__init__()
        self.builtins = {}
        self._setup_builtins()
        self.val_methods = {}
        self._setup_val_methods()
        self._setup_libs()

    def use(self, name):
        self.used.add(name)

    # -- interface ------------------------------------------------------------------
    def builtin(self, name):
        f = self.builtins.get(name)
        if f is None:
            return None
        return f if not callable(f) or isinstance(f, (LibV, ModelV)) else ModelV(name, f)

    def lib_attr(self, ex, o, name):
        full = f'{o.name}.{name}'
        if full in self.libattrs:
            v = self.libattrs[full]
            return v(ex) if callable(v) and not isinstance(v, ExprRef) else v
        last = name
        if last in EXC and full not in self.libs:
            return EXC[last]
        return LibV(full)

    def lib_call(self, ex, f, args, kw):
        h = self.libs.get(f.name)
        if h is None:
            ex.unsupported(f'library function {f.name}')
        self.use(f.name)
        return h(ex, args, kw)

    def libclass_attr(self, ex, cn, o, name):
        h = self.libclasses[cn].get(name)
        if h is None:
            if 'attr' in self.libclasses[cn]:
                r = self.libclasses[cn]['attr'](ex, o, name)
                if r is not None:
                    return r
            ex.unsupported(f'{cn}.{name}')
        self.use(f'{cn}.{name}')
        if isinstance(h, tuple):     # ('attr', f)
            return h[1](ex, o)
        return ModelV(f'{cn}.{name}', lambda ex, a, kw: h(ex, o, a, kw))

    def extra_attr(self, ex, cn, o, name):
        h = self.hooks.get('extra_attr')
        return h(ex, cn, o, name) if h else None

    def has_method(self, con, name):
        kind = {'VDict': 'dict', 'VList': 'list', 'VSet': 'set'}.get(con)
        return (con, name) in self.val_methods or bool(kind) and hasattr(
            self, f'm_{kind}_{name}')

    def val_method(self, ex, c, o, name):
        h = self.val_methods.get((c, name))
        if h is None:
            if c == 'VDict' or c == 'VList' or c == 'VSet':
                kind = {'VDict': 'dict', 'VList': 'list', 'VSet': 'set'}[c]
                return self.method(ex, Cont(ex, kind, acc(c, 0, o), frozen='value'), name)
            if c in ('VNone', 'VInt', 'VBool', 'VReal'):
                return None
            ex.unsupported(f'method {name} of {c}')
        self.use(f'{c[1:].lower()}.{name}')
        if isinstance(h, tuple):
            return h[1](ex, o)
        return ModelV(name, lambda ex, a, kw: h(ex, o, a, kw))

    def nt_method(self, ex, c, o, name):
        h = self.nt_methods.get(name) or self.nt_methods.get((c, name))
        if h:
            return ModelV(name, lambda ex, a, kw: h(ex, c, o, a, kw))
        if name == '_asdict':
            def f(ex, a, kw):
                m = mempty
                for fl in NTS[c][0]:
                    m = mput(m, vs(fl), ntf(c, fl, o))
                return Cont(ex, 'dict', m)
            return ModelV(name, f)
        if name == '_replace':
            def f(ex, a, kw):
                return CONS[c](*[ex.tov(kw[fl]) if fl in kw else ntf(c, fl, o)
                                 for fl in NTS[c][0]])
            return ModelV(name, f)
        return None

    def compare(self, ex, op, a, b):
        h = self.hooks.get('compare')
        return h(ex, op, a, b) if h else None

    def binop(self, ex, op, a, b):
        for h in self.hooks.get('binop', []):
            r = h(ex, op, a, b)
            if r is not None:
                return r
        if op == 'Add' and isinstance(a, ExprRef) and isinstance(b, ExprRef):
            return None
        if op in ('Sub', 'BitAnd') and isinstance(a, Cont) and a.kind == 'set':
            f = Function('mdiff' if op == 'Sub' else 'minter', Map, Map, Map)
            return Cont(ex, 'set', f(a.t, b.t if isinstance(b, Cont) else ex.want(b, 'VSet')))
        return None

    def str_repeat(self, ex, s, k):
        lit = lit_of(s)
        if lit is not None and len(lit) == 1:
            kk = simplify(k)
            return VStr(REP(IntVal(ord(lit)), simplify(If(kk > 0, kk, IntVal(0)))))
        return VStr(Function('srepeat', Str, Int_, Str)(s, k))

    def map_comp(self, ex, e, env, it, out):
        h = self.hooks.get('map_comp')
        return h(ex, e, env, it, out) if h else None

    def nt_from_map(self, ex, name, m):
        h = self.hooks.get('nt_from_map')
        return h(ex, name, m) if h else None

    def lib_getitem(self, ex, o, k):
        cn = ex.class_of(o)
        h = self.libclasses.get(cn, {}).get('__getitem__')
        if h is None:
            ex.unsupported(f'{cn}[]')
        self.use(f'{cn}.__getitem__')
        return h(ex, o, [k], {})

    def lib_setitem(self, ex, o, k, v):
        if isinstance(o, LibV):
            h = self.libs.get(o.name + '.__setitem__')
            if h:
                return h(ex, [k, v], {})
            ex.unsupported(f'{o.name}[]=')
        cn = ex.class_of(o)
        h = self.libclasses.get(cn, {}).get('__setitem__')
        if h is None:
            ex.unsupported(f'{cn}[]=')
        self.use(f'{cn}.__setitem__')
        return h(ex, o, [k, v], {})

    def dict_value_set(self, ex, o, k, v):
        h = self.hooks.get('dict_value_set')
        if h:
            return h(ex, o, k, v)
        ex.unsupported('assignment into a dict value that may be shared')

    def call_value(self, ex, f, args, kw):
        h = self.hooks.get('call_value')
        if h:
            return h(ex, f, args, kw)
        ex.unsupported('call of a value')

    # -- container methods -------------------------------------------------------
    def method(self, ex, o, name):
        if isinstance(o, Cont):
            h = getattr(self, f'm_{o.kind}_{name}', None)
            if h is None and o.kind == 'deque':
                h = getattr(self, f'm_list_{name}', None)
            if h is None:
                return None
            self.use(f'{o.kind}.{name}')
            return ModelV(name, lambda ex, a, kw: h(ex, o, a, kw))
        if isinstance(o, IterV):
            if name == '__iter__':
                return ModelV(name, lambda ex, a, kw: o)
        if isinstance(o, PTuple):
            if name == 'index':
                def f(ex, a, kw):
                    for i, x in enumerate(o.items):
                        if ex.test(VBool(ex.eq(x, a[0]))):
                            return VInt(IntVal(i))
                    ex.raise_('ValueError')
                return ModelV(name, f)
        if isinstance(o, RegexV):
            if name in ('match', 'fullmatch', 'search'):
                self.use(f're.{name}')

                def f(ex, a, kw):
                    if 'VStr' == ex.con_slow(ex.tov(a[0]), ['VStr']):
                        s = acc('VStr', 0, ex.tov(a[0]))
                    else:
                        s = ex.as_str(a[0])
                    p = re_pred(name, o.pat)(s)
                    if ex.branch(p):
                        return VOpq(Function('rematch', Str, Str, Opq)(slit(o.pat), s))
                    return VNone
                return ModelV(name, f)
        h = self.hooks.get('method')
        return h(ex, o, name) if h else None

    def m_list_append(self, ex, o, a, kw):
        o.set(SEQ.cat(o.t, SEQ.unit(ex.tov(a[0], 'list element'))))
        return VNone

    def m_list_extend(self, ex, o, a, kw):
        o.set(SEQ.cat(o.t, ex.seq_of(a[0])))
        return VNone

    def m_list_insert(self, ex, o, a, kw):
        i = ex.clamp(a[0], SEQ.len(o.t), IntVal(0))
        x = SEQ.unit(ex.tov(a[1], 'list element'))
        n = SEQ.len(o.t)
        ex.split(SEQ, o.t, i, i)
        o.set(SEQ.cat(SEQ.sub(o.t, IntVal(0), i), x, SEQ.sub(o.t, i, n)))
        return VNone

    def m_list_pop(self, ex, o, a, kw):
        n = SEQ.len(o.t)
        if not ex.branch(n > 0):
            ex.raise_('IndexError')
        i = simplify(ex.as_int(a[0])) if a else IntVal(-1)
        if is_int_value(i) and i.as_long() == -1:
            x = SEQ.at(o.t, simplify(n - 1))
            ex.assume(o.t == SEQ.cat(SEQ.sub(o.t, IntVal(0), simplify(n - 1)), SEQ.unit(x)))
            o.set(SEQ.sub(o.t, IntVal(0), simplify(n - 1)))
            return ex.unobj(x)
        if is_int_value(i) and i.as_long() == 0:
            x = SEQ.at(o.t, IntVal(0))
            ex.assume(o.t == SEQ.cat(SEQ.unit(x), SEQ.sub(o.t, IntVal(1), n)))
            o.set(SEQ.sub(o.t, IntVal(1), n))
            return ex.unobj(x)
        if not ex.branch(And(0 <= i, i < n)):
            ex.unsupported('pop with a negative or out of range index')
        x = SEQ.at(o.t, i)
        ex.assume(o.t == SEQ.cat(SEQ.sub(o.t, IntVal(0), i), SEQ.unit(x), SEQ.sub(o.t, simplify(i + 1), n)))
        o.set(SEQ.cat(SEQ.sub(o.t, IntVal(0), i), SEQ.sub(o.t, simplify(i + 1), n)))
        return ex.unobj(x)

    def m_deque_popleft(self, ex, o, a, kw):
        return self.m_list_pop(ex, o, [VInt(IntVal(0))], kw)

    def m_list___delitem__(self, ex, o, a, kw):
        i = simplify(ex.as_int(a[0]))
        n = SEQ.len(o.t)
        if not ex.branch(And(0 <= i, i < n)):
            ex.raise_('IndexError')
        ex.assume(o.t == SEQ.cat(SEQ.sub(o.t, IntVal(0), i), SEQ.unit(SEQ.at(o.t, i)),
                                 SEQ.sub(o.t, simplify(i + 1), n)))
        o.set(SEQ.cat(SEQ.sub(o.t, IntVal(0), i), SEQ.sub(o.t, simplify(i + 1), n)))
        return VNone

    def m_list_clear(self, ex, o, a, kw):
        o.set(SEQ.empty)
        return VNone

    def m_list_copy(self, ex, o, a, kw):
        return ex.mklist(o.t)

    def m_list_reverse(self, ex, o, a, kw):
        o.set(Function('srev', Seq, Seq)(o.t))
        return VNone

    def m_list_sort(self, ex, o, a, kw):
        o.set(self.do_sort(ex, o.t, kw))
        return VNone

    def m_list_index(self, ex, o, a, kw):
        x = ex.tov(a[0])
        if not ex.branch(ex.contains(x, o)):
            ex.raise_('ValueError')
        i = ex.fresh('ix', Int_)
        ex.assume(And(0 <= i, i < SEQ.len(o.t), SEQ.at_(o.t, i) == x))
        j = Int('j')
        ex.assume(FA([j], Implies(And(0 <= j, j < i), SEQ.at_(o.t, j) != x), SEQ.at_(o.t, j)))
        return VInt(i)

    def do_sort(self, ex, s, kw):
        if set(kw) - {'key'}:
            ex.unsupported('sort options')
        h = self.hooks.get('sorted')
        if h:
            r = h(ex, s, kw.get('key'))
            if r is not None:
                return r
        k = kw.get('key')
        if k is not None and ex.tov(k).eq(VNone):
            k = None
        if k is not None:
            return self.sort_by(ex, s, k)
        return SORTED(s)

    def on_elem(self, ex, s, f):
        """f(element of s) as a function of the index: a term builder"""
        i = ex.fresh('ix', Int_)
        n = SEQ.len(s)
        x = SEQ.at(s, i)

        def run():
            for t, g in ex.data.get('elem_facts', ()):
                if t.eq(s):
                    ex.assume(g(x, i))
            return f(ex.unobj(x))
        try:
            t = ex.scoped([And(0 <= i, i < n)], run)
        except DeadScope:       # there are no elements
            return lambda j: None
        return lambda j: z3.substitute(t, (i, j))

    def sort_by(self, ex, s, key):
        """a permutation of s in ascending order of an int or string key"""
        n = SEQ.len(s)
        P = ex.fresh('sorted', Seq)
        ex.fresh_n += 1
        p, q = (Function(f'{c}!{ex.fresh_n}', Int_, Int_) for c in ('perm', 'inv'))
        j, j2 = Ints('j j2')
        ex.assume(SEQ.len_(P) == n)
        inr = lambda t: And(0 <= t, t < n)
        ex.assume(FA([j], Implies(inr(j), And(inr(p(j)), q(p(j)) == j, SEQ.at_(P, j) == SEQ.at_(
            s, p(j)))), SEQ.at_(P, j)))
        ex.assume(FA([j], Implies(inr(j), And(inr(q(j)), p(q(j)) == j, SEQ.at_(P, q(j)) ==
                                              SEQ.at_(s, j))), SEQ.at_(s, j)))

        def f(x):
            v = ex.tov(ex.call(key, [x], {}))
            c = ex.con(v)
            if c not in ('VInt', 'VStr'):
                c = None
                for m in ('VInt', 'VStr'):
                    if ex.follows(RECOG[m](v)):
                        c = m
                        break
                else:
                    ex.prove(BoolVal(False), 'sort keys are comparable', kind='pre')
            return z3.ToReal(acc('VInt', 0, v)) if c == 'VInt' else sord(acc('VStr', 0, v))
        k = self.on_elem(ex, P, f)
        if k(j) is not None:
            ex.assume(FA([j, j2], Implies(And(inr(j), inr(j2), j <= j2), k(j) <= k(j2)),
                         [SEQ.at_(P, j), SEQ.at_(P, j2)]))
        for t, g in list(ex.data.get('elem_facts', ())):
            if t.eq(s):
                ex.elem_fact(P, lambda x, i, g=g: g(x, p(i)))
        return P

    def m_dict_get(self, ex, o, a, kw):
        v = simplify_get(ex, o.t, ex.tov(a[0]))
        d = a[1] if len(a) > 1 else kw.get('default', VNone)
        if v.eq(VAbsent):
            return d
        if con_of(v) is not None:
            return ex.unobj(v)
        if ex.branch(v == VAbsent):
            return d
        return ex.unobj(v)

    def m_dict___delitem__(self, ex, o, a, kw):
        k = ex.tov(a[0])
        if ex.branch(simplify_get(ex, o.t, k) == VAbsent):
            ex.raise_('KeyError')
        o.set(mdel(o.t, k))
        return VNone

    def m_dict_pop(self, ex, o, a, kw):
        k = ex.tov(a[0])
        v = simplify_get(ex, o.t, k)
        if ex.branch(v == VAbsent):
            if len(a) > 1:
                return a[1]
            ex.raise_('KeyError')
        o.set(mdel(o.t, k))
        return ex.unobj(v)

    def m_dict_setdefault(self, ex, o, a, kw):
        k = ex.tov(a[0])
        v = simplify_get(ex, o.t, k)
        if ex.branch(v == VAbsent):
            o.set(mput(o.t, k, ex.tov(a[1], 'dict value')))
            return a[1]
        return ex.unobj(v)

    def m_dict_keys(self, ex, o, a, kw):
        ks = ex.concrete_keys(o)
        if ks is not None:
            return IterV(SEQ.lit(list(reversed(ks))))
        return IterV(mkeys(o.t))

    def m_dict_values(self, ex, o, a, kw):
        ks = ex.concrete_keys(o)
        if ks is not None:
            return IterV(SEQ.lit([simplify_get(ex, o.t, k) for k in reversed(ks)]))
        return IterV(mvals(o.t))

    def m_dict_items(self, ex, o, a, kw):
        t = o.t
        ks = ex.concrete_keys(o)
        s = SEQ.lit(list(reversed(ks))) if ks is not None else mkeys(t)
        return IterV(s, wrap=lambda ex, k, i: PTuple([ex.unobj(k), ex.unobj(
            simplify_get(ex, t, k))]))

    def m_dict_copy(self, ex, o, a, kw):
        return Cont(ex, o.kind, o.t)

    def m_dict_clear(self, ex, o, a, kw):
        o.set(mempty)
        return VNone

    def m_dict_update(self, ex, o, a, kw):
        if a:
            b = ex.unobj(a[0])
            if isinstance(b, ExprRef):
                b = Cont(ex, 'dict', ex.want(b, 'VDict'), frozen='value')
            if not isinstance(b, Cont):
                ex.unsupported('dict.update')
            ks = ex.concrete_keys(b)
            if ks is not None:
                t = o.t
                for k in reversed(ks):
                    t = mput(t, k, simplify_get(ex, b.t, k))
                o.set(t)
            elif o.t.eq(mempty):
                o.set(b.t)
            else:
                o.set(mover(o.t, b.t))
        for k, v in kw.items():
            if k == '**':
                ex.unsupported('update **')
            o.set(mput(o.t, vs(k), ex.tov(v, 'dict value')))
        return VNone

    def m_set_update(self, ex, o, a, kw):
        for b in a:
            b = ex.unobj(b)
            if isinstance(b, Cont) and b.kind in ('set', 'dict'):
                t = b.t
            elif isinstance(b, ExprRef) and ex.con_slow(b, ['VSet', 'VDict']) in ('VSet', 'VDict'):
                t = acc(ex.con(b), 0, b)
            else:
                t = setof(ex.seq_of(b))
            o.set(t if o.t.eq(mempty) else mover(o.t, t))
        return VNone

    def m_set_add(self, ex, o, a, kw):
        o.set(mput(o.t, ex.tov(a[0]), VBool(BoolVal(True))))
        return VNone

    def m_set_discard(self, ex, o, a, kw):
        o.set(mdel(o.t, ex.tov(a[0])))
        return VNone

    def m_set_remove(self, ex, o, a, kw):
        k = ex.tov(a[0])
        if ex.branch(mget(o.t, k) == VAbsent):
            ex.raise_('KeyError')
        o.set(mdel(o.t, k))
        return VNone

    def m_set_copy(self, ex, o, a, kw):
        return Cont(ex, 'set', o.t)

    def m_set_clear(self, ex, o, a, kw):
        o.set(mempty)
        return VNone

    # -- builtins --------------------------------------------------------------------
    def _setup_builtins(self):
        B = self.builtins
        reg = self

        def b_len(ex, a, kw):
            o = ex.unobj(a[0])
            if isinstance(o, Cont):
                if o.kind in ('list', 'deque'):
                    return VInt(simplify(SEQ.len(o.t)))
                ks = ex.concrete_keys(o)
                if ks is not None and len(ks) <= 1:
                    return VInt(IntVal(len(ks)))
                return VInt(SEQ.len(mkeys(o.t)))
            if isinstance(o, PTuple):
                return VInt(IntVal(len(o.items)))
            if isinstance(o, ExprRef):
                c = ex.con_slow(o, ['VStr', 'VByt', 'VList', 'VTup', 'VDict', 'VSet'])
                if c is None:
                    for n in ('VStr', 'VByt', 'VList', 'VTup', 'VDict', 'VSet'):
                        if ex.branch(RECOG[n](o)):
                            ex.setcon(o, n)
                            c = n
                            break
                    else:
                        ex.raise_('TypeError')
                p = acc(c, 0, o)
                if c == 'VStr':
                    return VInt(STR.len(p))
                if c == 'VByt':
                    return VInt(BYT.len(p))
                if c in ('VList', 'VTup'):
                    return VInt(SEQ.len(p))
                return VInt(SEQ.len(mkeys(p)))
            ex.unsupported('len')
        B['len'] = b_len

        def b_isinstance(ex, a, kw):
            o, t = ex.unobj(a[0]), a[1]
            ts = t.items if isinstance(t, PTuple) else [t]
            return VBool(simplify(Or(*[reg.isinst(ex, o, x) for x in ts])))
        B['isinstance'] = b_isinstance

        def b_range(ex, a, kw):
            v = [simplify(ex.as_int(x)) for x in a]
            if len(v) == 1:
                return RangeV(IntVal(0), v[0])
            if len(v) == 2:
                return RangeV(v[0], v[1])
            if is_int_value(v[2]):
                return RangeV(v[0], v[1], v[2].as_long())
            ex.unsupported('range step')
        B['range'] = b_range
        B['enumerate'] = lambda ex, a, kw: ZipV([ex.unobj(a[0])], enum_start=simplify(ex.as_int(
            a[1] if len(a) > 1 else kw['start'])) if (len(a) > 1 or 'start' in kw) else IntVal(0))
        B['zip'] = lambda ex, a, kw: ZipV([ex.unobj(x) for x in a])

        def b_list(ex, a, kw):
            if not a:
                return ex.mklist(SEQ.empty)
            o = ex.unobj(a[0])
            items = ex.concrete_items(o)
            if items is not None:
                return ex.mklist(SEQ.lit([ex.tov(x) for x in items]))
            if isinstance(o, IterV) and o.wrap is not None:
                return ex.mklist(ex.materialize(o))
            return ex.mklist(ex.seq_of(o))
        B['list'] = b_list

        def b_tuple(ex, a, kw):
            if not a:
                return PTuple([])
            o = ex.unobj(a[0])
            items = ex.concrete_items(o)
            if items is not None:
                return PTuple(items)
            return VTup(ex.seq_of(o))
        B['tuple'] = b_tuple

        def b_dict(ex, a, kw):
            c = Cont(ex, 'dict', mempty)
            reg.m_dict_update(ex, c, a, kw)
            return c
        B['dict'] = b_dict

        def b_set(ex, a, kw):
            c = Cont(ex, 'set', mempty)
            if a:
                o = ex.unobj(a[0])
                items = ex.concrete_items(o)
                if items is not None and not (isinstance(o, Cont) and o.kind in ('set', 'dict')):
                    for x in items:
                        c._t = mput(c._t, ex.tov(x), VBool(BoolVal(True)))
                else:
                    reg.m_set_update(ex, c, a, kw)
            return c
        B['set'] = B['frozenset'] = b_set

        def minmax(big):
            def f(ex, a, kw):
                if len(a) == 1 or kw:
                    h = reg.hooks.get('minmax')
                    if h:
                        r = h(ex, big, a, kw)
                        if r is not None:
                            return r
                    ex.unsupported('min/max of an iterable')
                r = a[0]
                for x in a[1:]:
                    c, d = ex.tov(r), ex.tov(x)
                    cc, cd = ex.con(c), ex.con(d)
                    if cc == 'VStr' or cd == 'VStr':
                        lt = sord(ex.as_str(d)) > sord(ex.as_str(c)) if big else \
                            sord(ex.as_str(d)) < sord(ex.as_str(c))
                        r = d if ex.branch(lt) else c
                    elif cc == 'VReal' or cd == 'VReal':
                        p, q = ex.as_real(c), ex.as_real(d)
                        r = VReal(If(q > p if big else q < p, q, p))
                    else:
                        p, q = ex.as_int(c), ex.as_int(d)
                        r = VInt(If(q > p if big else q < p, q, p))
                return r
            return f
        B['max'], B['min'] = minmax(True), minmax(False)
        B['sorted'] = lambda ex, a, kw: ex.mklist(reg.do_sort(ex, ex.seq_of(a[0]), kw))
        B['reversed'] = lambda ex, a, kw: IterV(Function('srev', Seq, Seq)(ex.seq_of(a[0]))) \
            if ex.concrete_items(a[0]) is None else PTuple(list(reversed(ex.concrete_items(a[0]))))

        def b_bool(ex, a, kw):
            return VBool(simplify(ex.truth(a[0]))) if a else VBool(BoolVal(False))
        B['bool'] = b_bool

        def b_int(ex, a, kw):
            o = ex.tov(a[0])
            c = ex.con_slow(o, ['VInt', 'VBool', 'VReal', 'VStr'])
            if c in ('VInt', 'VBool'):
                return VInt(ex.as_int(o))
            if c == 'VReal':
                r = acc(c, 0, o)
                return VInt(If(r >= 0, z3.ToInt(r), -z3.ToInt(-r)))
            if c == 'VStr':
                s = acc(c, 0, o)
                if not ex.branch(IS_INT(s)):
                    ex.raise_('ValueError')
                return VInt(INT_OF(s))
            if c is None:
                if ex.branch(RECOG['VInt'](o)):
                    return o
                if ex.branch(RECOG['VStr'](o)):
                    s = acc('VStr', 0, o)
                    if not ex.branch(IS_INT(s)):
                        ex.raise_('ValueError')
                    return VInt(INT_OF(s))
            ex.raise_('TypeError')
        B['int'] = b_int

        def b_str(ex, a, kw):
            if not a:
                return vs('')
            return VStr(ex.to_str(a[0]))
        B['str'] = b_str
        B['repr'] = lambda ex, a, kw: VStr(Function('repr_of', Val, Str)(ex.tov(a[0])))
        B['print'] = lambda ex, a, kw: VNone
        B['id'] = lambda ex, a, kw: VInt(Function('id_of', Val, Int_)(ex.tov(a[0])))
        B['abs'] = lambda ex, a, kw: VInt(If(ex.as_int(a[0]) >= 0, ex.as_int(a[0]),
                                             -ex.as_int(a[0])))

        def b_iter(ex, a, kw):
            o = ex.unobj(a[0])
            if isinstance(o, IterV):
                return o
            return IterV(ex.seq_of(o))
        B['iter'] = b_iter

        def b_next(ex, a, kw):
            o = ex.unobj(a[0])
            if not isinstance(o, IterV):
                ex.unsupported('next')
            n = SEQ.len(o.seq)
            if ex.branch(o.pos < n):
                x = SEQ.at(o.seq, o.pos)
                x = o.wrap(ex, x, o.pos) if o.wrap else ex.unobj(x)
                o.pos = simplify(o.pos + 1)
                return x
            if len(a) > 1:
                return a[1]
            ex.raise_('StopIteration')
        B['next'] = b_next

        def b_getattr(ex, a, kw):
            n = lit_of(ex.as_str(a[1]))
            if n is None:
                ex.unsupported('getattr with a computed name')
            if len(a) == 2:
                return ex.getattr_(a[0], n)
            try:
                return ex.getattr_(a[0], n)
            except PyRaise as e:
                if e.exc.cls.name == 'AttributeError':
                    return a[2]
                raise
        B['getattr'] = b_getattr

        def quantify(every):
            def f(ex, a, kw):
                o = ex.unobj(a[0])
                items = ex.concrete_items(o)
                if items is None:
                    s = ex.seq_of(o)
                    r = ex.fresh('allq' if every else 'anyq', Bool_)
                    i = Int('i')
                    w = ex.fresh('w', Int_)
                    tr = lambda x: And(x != VNone, x != VBool(BoolVal(False)),
                                       x != vs(''), x != VInt(IntVal(0)),
                                       x != VByt(BYT.empty))
                    if every:
                        ex.assume(Implies(r, FA([i], Implies(And(0 <= i, i < SEQ.len_(s)),
                                                             tr(SEQ.at_(s, i))),
                                                SEQ.at_(s, i))))
                        ex.assume(Implies(Not(r), And(0 <= w, w < SEQ.len_(s),
                                                      Not(tr(SEQ.at_(s, w))))))
                    else:
                        ex.assume(Implies(Not(r), FA([i], Implies(And(0 <= i, i < SEQ.len_(s)),
                                                                  Not(tr(SEQ.at_(s, i)))),
                                                     SEQ.at_(s, i))))
                        ex.assume(Implies(r, And(0 <= w, w < SEQ.len_(s),
                                                 tr(SEQ.at_(s, w)))))
                    return VBool(r)
                ts = [ex.truth(x) for x in items]
                return VBool(simplify(And(*ts) if every else Or(*ts)))
            return f
        B['all'], B['any'] = quantify(True), quantify(False)

        def b_sum(ex, a, kw):
            items = ex.concrete_items(a[0])
            if items is None:
                return VInt(Function('ssum', Seq, Int_)(ex.seq_of(a[0])))
            t = IntVal(0)
            for x in items:
                t = t + ex.as_int(x)
            return VInt(simplify(t))
        B['sum'] = b_sum

        def b_bytes(ex, a, kw):
            if not a:
                return VByt(BYT.empty)
            o = ex.tov(a[0])
            c = ex.con_slow(o, ['VByt', 'VCid', 'VStr'])
            if c == 'VByt':
                return o
            if c == 'VCid':
                return VByt(CIDBYTES(acc(c, 0, o)))
            if c == 'VStr':
                return VByt(UTF8(acc(c, 0, o)))
            ex.unsupported('bytes()')
        B['bytes'] = B['bytearray'] = b_bytes
        B['ord'] = lambda ex, a, kw: VInt(STR.at(ex.as_str(a[0]), IntVal(0)))
        B['chr'] = lambda ex, a, kw: VStr(STR.unit(ex.as_int(a[0])))
        B['hasattr'] = lambda ex, a, kw: VBool(BoolVal(True))
        B['callable'] = lambda ex, a, kw: VBool(BoolVal(True))
        B['type'] = lambda ex, a, kw: ex.unsupported('type()')
        B['True'] = VBool(BoolVal(True))
        for n in ('object', 'property', 'classmethod', 'staticmethod', 'float', 'memoryview'):
            B[n] = LibV(n)

        def b_filter(ex, a, kw):
            f, o = a
            if ex.tov(f).eq(VNone):
                items = ex.concrete_items(o)
                if items is not None:
                    return PTuple([x for x in items if ex.test(x)])
            ex.unsupported('filter')
        B['filter'] = b_filter

    TYPEMAP = {'len': None}

    def isinst(self, ex, o, t):
        """z3 Bool for isinstance(o, t)."""
        if isinstance(t, ModelV):
            n = t.name
        elif isinstance(t, LibV):
            n = t.name
        elif isinstance(t, NTClass):
            if not isinstance(o, ExprRef):
                return BoolVal(False)
            c = ex.con(o)
            return BoolVal(c == t.name) if c else RECOG[t.name](o)
        elif isinstance(t, ClassV):
            if not isinstance(o, ExprRef):
                return BoolVal(False)
            c = ex.con(o)
            if c and c != 'VRef':
                return BoolVal(False)
            r = acc('VRef', 0, o)
            k = ex.ref_cls.get(r.sexpr()) if c == 'VRef' else None
            subs = ex.prog.subclasses(t.name)
            if k is not None:
                return BoolVal(k in subs)
            return And(is_('VRef', o), Or(*[cls_(r) == cls_id(s) for s in subs]))
        elif isinstance(t, ExcClass):
            return BoolVal(isinstance(o, ExcV) and o.cls.isa(t))
        elif isinstance(t, EnumV):
            return And(is_('VEnum', o), acc('VEnum', 0, o) == ENUM_IDS[t.name])
        else:
            ex.unsupported(f'isinstance of {type(t).__name__}')
        if isinstance(o, Cont):
            k = {'list': 'list', 'dict': 'dict', 'set': 'set', 'deque': 'collections.deque'}[o.kind]
            return BoolVal(n == k or n.endswith('.Mapping') and o.kind == 'dict'
                           or n.endswith('Sequence') and o.kind == 'list')
        if isinstance(o, PTuple):
            return BoolVal(n == 'tuple')
        if not isinstance(o, ExprRef):
            return BoolVal(False)
        m = {'str': ['VStr'], 'bytes': ['VByt'], 'int': ['VInt', 'VBool'], 'bool': ['VBool'],
             'dict': ['VDict'], 'list': ['VList'], 'tuple': ['VTup'], 'set': ['VSet'],
             'float': ['VReal'], 'multiformats.CID': ['VCid'], 'numbers.Integral':
             ['VInt', 'VBool'], 'frozenset': ['VSet']}.get(n)
        if m is None:
            h = self.hooks.get('isinstance')
            if h:
                r = h(ex, o, n)
                if r is not None:
                    return r
            if n in self.libclasses:
                return And(is_('VRef', o), cls_(acc('VRef', 0, o)) == cls_id(n))
            ex.unsupported(f'isinstance {n}')
        c = ex.con(o)
        if c:
            return BoolVal(c in m)
        if n == 'tuple':
            return Or(RECOG['VTup'](o), *[RECOG[x](o) for x in NTS])
        return Or(*[RECOG[x](o) for x in m])

    # -- methods of immutable values -----------------------------------------------
    def _setup_val_methods(self):
        V = self.val_methods

        def sm(name):
            def deco(f):
                V[('VStr', name)] = lambda ex, o, a, kw: f(ex, acc('VStr', 0, o), a, kw)
                return f
            return deco

        @sm('startswith')
        def _(ex, s, a, kw):
            t = ex.unobj(a[0])
            if isinstance(t, PTuple):
                return VBool(Or(*[startswith(s, ex.as_str(x)) for x in t.items]))
            return VBool(sw(s, ex.as_str(a[0])))

        @sm('endswith')
        def _(ex, s, a, kw):
            return VBool(ENDSWITH(s, ex.as_str(a[0])))

        @sm('join')
        def _(ex, s, a, kw):
            o = ex.unobj(a[0])
            seq = ex.seq_of(o)
            if s.eq(STR.empty):
                items = SEQ.concrete(seq)
                if items is not None:
                    return VStr(STR.cat(*[ex.as_str(x) for x in items]))
                return VStr(JOIN(seq))
            items = SEQ.concrete(seq)
            if items is not None and items:
                out = [ex.as_str(items[0])]
                for x in items[1:]:
                    out += [s, ex.as_str(x)]
                return VStr(STR.cat(*out))
            return VStr(JOINSEP(s, seq))

        def just(left):
            def f(ex, s, a, kw):
                n = ex.as_int(a[0])
                ch = lit_of(ex.as_str(a[1])) if len(a) > 1 else ' '
                if ch is None or len(ch) != 1:
                    ex.unsupported('fill character')
                k = STR.len(s)
                if ex.branch(k < n):
                    pad = REP(IntVal(ord(ch)), simplify(n - k))
                    return VStr(STR.cat(s, pad) if left else STR.cat(pad, s))
                return VStr(s)
            return f
        sm('ljust')(just(True))
        sm('rjust')(just(False))

        @sm('index')
        def _(ex, s, a, kw):
            t = ex.as_str(a[0])
            if not (t.decl().eq(STR.unit_) or len(lit_of(t) or '') == 1
                    or ex.single_char(t)):
                ex.unsupported('str.index of a longer string')
            c = STR.at(t, IntVal(0))
            i = ex.fresh('six', Int_)
            found = ex.fresh('sfound', Bool_)
            j = Int('j')
            ex.assume(Implies(Not(found), FA([j], Implies(And(0 <= j, j < STR.len_(s)),
                                                          STR.at_(s, j) != c), STR.at_(s, j))))
            lit = lit_of(s)
            if lit is not None:
                # the literal's characters: at(s, j) for every j
                ex.assume(Implies(Not(found), And(*[c != ord(x) for x in lit])))
                ex.assume(Implies(found, Or(*[And(i == n, c == ord(x))
                                             for n, x in enumerate(lit)])))
            if not ex.branch(found):
                ex.raise_('ValueError')
            ex.assume(And(0 <= i, i < STR.len_(s), STR.at_(s, i) == c))
            ex.assume(FA([j], Implies(And(0 <= j, j < i), STR.at_(s, j) != c), STR.at_(s, j)))
            return VInt(i)

        @sm('encode')
        def _(ex, s, a, kw):
            enc = lit_of(ex.as_str(a[0] if a else kw.get('encoding', vs('utf-8'))))
            if enc == 'ascii':
                if not ex.branch(ASCII(s)):
                    ex.raise_('UnicodeError')
            elif enc not in ('utf-8', 'utf8'):
                ex.unsupported('text encoding')
            return VByt(UTF8(s))

        @sm('replace')
        def _(ex, s, a, kw):
            return VStr(SREPLACE(s, ex.as_str(a[0]), ex.as_str(a[1])))

        for n in ('lower', 'upper', 'strip', 'lstrip', 'rstrip', 'removeprefix', 'removesuffix'):
            def f(ex, s, a, kw, n=n):
                fn = Function('str_' + n, *([Str] * (1 + len(a))), Str)
                return VStr(fn(s, *[ex.as_str(x) for x in a]))
            sm(n)(f)
        for n in ('isnumeric', 'isdigit', 'isalpha', 'isalnum'):
            sm(n)(lambda ex, s, a, kw, n=n: VBool(Function('str_' + n, Str, Bool_)(s)))
        for n in ('split', 'rsplit'):
            def f(ex, s, a, kw, n=n):
                h = self.hooks.get('split')
                if h:
                    r = h(ex, n, s, a, kw)
                    if r is not None:
                        return r
                sep = ex.as_str(a[0]) if a else slit(' ')
                mx = a[1] if len(a) > 1 else kw.get('maxsplit', VInt(IntVal(-1)))
                r = Function('str_' + n, Str, Str, Int_, Seq)(s, sep, ex.as_int(mx))
                ex.assume(SEQ.len_(r) >= 1)
                mi = simplify(ex.as_int(mx))
                if is_int_value(mi) and mi.as_long() >= 0:
                    ex.assume(SEQ.len_(r) <= mi.as_long() + 1)
                i = Int('i')
                ex.assume(FA([i], Implies(And(0 <= i, i < SEQ.len_(r)),
                                          RECOG['VStr'](SEQ.at_(r, i))), SEQ.at_(r, i)))
                return ex.mklist(r)
            sm(n)(f)
        for n in ('partition', 'rpartition'):
            def f(ex, s, a, kw, n=n):
                sep = ex.as_str(a[0])
                p = [Function(f'str_{n}{k}', Str, Str, Str)(s, sep) for k in range(3)]
                ex.assume(s == STR.cat(*p))
                ex.assume(Or(p[1] == sep, STR.len_(p[1]) == 0))
                return PTuple([VStr(x) for x in p])
            sm(n)(f)

        @sm('find')
        def _(ex, s, a, kw):
            r = Function('str_find', Str, Str, Int_)(s, ex.as_str(a[0]))
            ex.assume(And(r >= -1, r < STR.len_(s) + 1))
            return VInt(r)

        @sm('count')
        def _(ex, s, a, kw):
            r = Function('str_count', Str, Str, Int_)(s, ex.as_str(a[0]))
            ex.assume(r >= 0)
            return VInt(r)

        @sm('isascii')
        def _(ex, s, a, kw):
            return VBool(Function('str_isascii', Str, Bool_)(s))
        V[('VByt', 'decode')] = lambda ex, o, a, kw: self.b_decode(ex, acc('VByt', 0, o), a)
        V[('VByt', 'replace')] = lambda ex, o, a, kw: ex.raise_('TypeError')
        V[('VByt', 'hex')] = lambda ex, o, a, kw: VStr(Function('bhex', Byt, Str)(
            acc('VByt', 0, o)))
        V[('VByt', 'rstrip')] = lambda ex, o, a, kw: VByt(Function('brstrip', Byt, Byt, Byt)(
            acc('VByt', 0, o), ex.want(a[0], 'VByt')))
        V[('VByt', 'startswith')] = lambda ex, o, a, kw: VBool(Function(
            'bstarts', Byt, Byt, Bool_)(acc('VByt', 0, o), ex.want(a[0], 'VByt')))
        V[('VInt', 'to_bytes')] = self.i_to_bytes
        V[('VCid', 'encode')] = lambda ex, o, a, kw: VStr(CIDSTR(acc('VCid', 0, o)))
        V[('VCid', 'digest')] = ('attr', lambda ex, o: VByt(CIDDIGEST(acc('VCid', 0, o))))

    def b_decode(self, ex, b, a):
        if not ex.branch(IS_UTF8(b)):
            ex.raise_('UnicodeError')
        return VStr(UNUTF8(b))

    def i_to_bytes(self, ex, o, a, kw):
        n, k = ex.as_int(o), ex.as_int(a[0])
        order = lit_of(ex.as_str(a[1] if len(a) > 1 else kw.get('byteorder', vs('big'))))
        if order not in ('big', 'little'):
            ex.raise_('ValueError')
        kk = simplify(k)
        if not is_int_value(kk):
            ex.unsupported('to_bytes length')
        if not ex.branch(And(n >= 0, n < 256 ** kk.as_long())):
            ex.raise_('OverflowError')
        f = Function('i2b_' + order, Int_, Int_, Byt)
        r = f(n, kk)
        ex.assume(BYT.len_(r) == kk)
        ex.assume(Function('b2i_' + order, Byt, Int_)(r) == n)
        return VByt(r)

    # -- modules -----------------------------------------------------------------------
    def _setup_libs(self):
        L = self.libs
        reg = self
        L['copy.copy'] = self.l_copy
        L['copy.deepcopy'] = self.l_copy

        def int_from_bytes(ex, a, kw):
            b = ex.want(a[0], 'VByt')
            order = lit_of(ex.as_str(a[1] if len(a) > 1 else kw.get('byteorder', vs('big'))))
            r = Function('b2i_' + order, Byt, Int_)(b)
            ex.assume(r >= 0)
            for k in (32,):
                ex.assume(Implies(BYT.len_(b) == k, r < 256 ** k))
                ex.assume(Implies(BYT.len_(b) == k,
                                  Function('i2b_' + order, Int_, Int_, Byt)(r, IntVal(k)) == b))
            return VInt(r)
        L['int.from_bytes'] = int_from_bytes
        self.libattrs['multiformats.CID'] = LibV('multiformats.CID')

        def environ_get(ex, a, kw):
            n = ex.as_str(a[0])
            v = Function('environ', Str, Val)(n)
            ex.assume(Or(v == VNone, RECOG['VStr'](v)))
            if len(a) > 1:
                if ex.branch(v == VNone):
                    return a[1]
            return v
        L['os.environ.get'] = L['os.getenv'] = environ_get
        L['re.compile'] = lambda ex, a, kw: RegexV(lit_of(ex.as_str(a[0])))
        for n in ('match', 'fullmatch', 'search'):
            L['re.' + n] = lambda ex, a, kw, n=n: reg.method(ex, RegexV(lit_of(ex.as_str(
                a[0]))), n).f(ex, a[1:], kw)
        L['threading.Lock'] = L['threading.RLock'] = L['threading.Condition'] = (
            lambda ex, a, kw: CtxV('lock'))
        L['collections.defaultdict'] = self.l_defaultdict
        L['collections.deque'] = lambda ex, a, kw: Cont(
            ex, 'deque', ex.seq_of(a[0]) if a else SEQ.empty)
        def dropwhile(ex, a, kw):
            s = ex.seq_of(a[1])
            n = SEQ.len(s)
            t = self.on_elem(ex, s, lambda x: ex.truth(ex.call(a[0], [x], {})))
            d = ex.fresh('drop', Int_)
            j = Int('j')
            ex.assume(And(0 <= d, d <= n))
            if t(j) is not None:
                ex.assume(FA([j], Implies(And(0 <= j, j < d), t(j)), SEQ.at_(s, j)))
                ex.assume(Implies(d < n, Not(t(d))))
            ex.assume(SEQ.at_(s, d) == SEQ.at_(s, d))
            return IterV(SEQ.sub(s, d, n))

        def islice(ex, a, kw):
            s = ex.seq_of(a[0])
            if len(a) != 2:
                ex.unsupported('islice arguments')
            v = ex.tov(a[1])
            if ex.con(v) == 'VNone' or ex.con(v) is None and ex.branch(v == VNone):
                return IterV(s)
            n = ex.as_int(v)
            if ex.branch(n < 0):
                ex.raise_('ValueError')
            m = SEQ.len(s)
            e = ex.fresh('stop', Int_)
            ex.assume(e == If(n < m, n, m))
            return IterV(SEQ.sub(s, IntVal(0), e))
        L['itertools.dropwhile'], L['itertools.islice'] = dropwhile, islice
        L['itertools.chain'] = lambda ex, a, kw: IterV(SEQ.cat(*[ex.seq_of(x) for x in a]))
        L['time.sleep'] = lambda ex, a, kw: VNone

    def l_defaultdict(self, ex, a, kw):
        c = Cont(ex, 'dict', mempty)
        c.aux['default'] = a[0]
        return c

    def l_copy(self, ex, a, kw):
        o = ex.unobj(a[0])
        if isinstance(o, Cont):
            return Cont(ex, o.kind, o.t)
        if isinstance(o, ExprRef):
            c = ex.con_slow(o, ['VDict', 'VList', 'VSet', 'VStr', 'VRef'])
            if c in ('VDict', 'VList', 'VSet'):
                return Cont(ex, {'VDict': 'dict', 'VList': 'list', 'VSet': 'set'}[c], acc(c, 0, o))
            if c == 'VRef':
                h = self.hooks.get('copy')
                if h:
                    return h(ex, o)
                ex.unsupported('copy of an object')
            return o
        if isinstance(o, PTuple):
            return o
        ex.unsupported('copy')


# -- more theory -----------------------------------------------------------------------
IS_INT = Function('is_int_str', Str, Bool_)
INT_OF = Function('int_of_str', Str, Int_)
IS_UTF8 = Function('is_utf8', Byt, Bool_)
ENDSWITH = Function('endswith', Str, Str, Bool_)
SREPLACE = Function('sreplace', Str, Str, Str, Str)
CIDSTR = Function('cidstr', Cid, Str)
CIDOF = Function('cidof', Str, Cid)
CIDBYTES = Function('cidbytes', Cid, Byt)
ASCII = Function('ascii', Str, Bool_)
CIDDIGEST = Function('ciddigest', Cid, Byt)
_bi, _bb = Int('bi'), Const('bb', Byt)
axiom('bytes', 'number of bytes', FA([_bb], SEQ.len_(BYTESEQ(_bb)) == BYT.len_(_bb), BYTESEQ(_bb)))
axiom('bytes', 'each byte', FA([_bb, _bi], Implies(And(0 <= _bi, _bi < BYT.len_(_bb)), And(
    SEQ.at_(BYTESEQ(_bb), _bi) == VInt(BYT.at_(_bb, _bi)), 0 <= BYT.at_(_bb, _bi),
    BYT.at_(_bb, _bi) < 256)), SEQ.at_(BYTESEQ(_bb), _bi)))
axiom('str', 'utf8 decodable', FA([_s], IS_UTF8(UTF8(_s)), UTF8(_s)))
mover = Function('mover', Map, Map, Map)    # a, overridden by b
setof = Function('setof', Seq, Map)
_m, _m2 = Consts('m m2', Map)
_k = Const('k', Val)
axiom('map', 'override', FA([_m, _m2, _k], mget(mover(_m, _m2), _k) ==
                            If(mget(_m2, _k) == VAbsent, mget(_m, _k), mget(_m2, _k)),
                            mget(mover(_m, _m2), _k)))
axiom('map', 'set of sequence', FA([_q, _i], Implies(And(0 <= _i, _i < SEQ.len_(_q)),
                                                     mget(setof(_q), SEQ.at_(_q, _i)) ==
                                                     VBool(True)),
                                   [setof(_q), SEQ.at_(_q, _i)]))
_i2, _j2 = Ints('i2 j2')
axiom('map', 'set of part of a sequence', FA([_q, _i, _i2, _j2], Implies(
    And(0 <= _i2, _i2 <= _i, _i < _j2, _j2 <= SEQ.len_(_q)),
    mget(setof(SEQ.sub_(_q, _i2, _j2)), SEQ.at_(_q, _i)) == VBool(True)),
    [setof(SEQ.sub_(_q, _i2, _j2)), SEQ.at_(_q, _i)]))
_v1 = Const('v1', Val)
axiom('map', 'set of concatenation', FA([_q, _q2, _k], mget(setof(SEQ.cat_(_q, _q2)), _k) == If(
    mget(setof(_q), _k) == VAbsent, mget(setof(_q2), _k), VBool(True)),
    mget(setof(SEQ.cat_(_q, _q2)), _k)))
axiom('map', 'set of one', FA([_v1, _k], mget(setof(SEQ.unit_(_v1)), _k) == If(
    _v1 == _k, VBool(True), VAbsent), mget(setof(SEQ.unit_(_v1)), _k)))
axiom('map', 'set of nothing', setof(SEQ.empty) == mempty)
axiom('map', 'set values', FA([_q, _k], Or(mget(setof(_q), _k) == VAbsent, mget(
    setof(_q), _k) == VBool(True)), mget(setof(_q), _k)))
setwit = Function('setwit', Seq, Val, Int_)
axiom('map', 'set of sequence converse', FA([_q, _k], Or(
    mget(setof(_q), _k) == VAbsent,
    And(0 <= setwit(_q, _k), setwit(_q, _k) < SEQ.len_(_q),
        SEQ.at_(_q, setwit(_q, _k)) == _k)), mget(setof(_q), _k)))
_c1 = Const('c1', Cid)
axiom('cid', 'CID string round trip', FA([_c1], CIDOF(CIDSTR(_c1)) == _c1, CIDSTR(_c1)))
axiom('cid', 'CID strings are not empty', FA([_c1], STR.len_(CIDSTR(_c1)) > 0, CIDSTR(_c1)))


def sw(s, p):
    """startswith, deciding literal cases syntactically."""
    lp = lit_of(p)
    ls = lit_of(s)
    if lp is not None and ls is not None:
        return BoolVal(ls.startswith(lp))
    ps = STR.parts(s)
    if lp and ps:
        l0 = lit_of(ps[0])
        if l0 is not None and len(l0) >= len(lp):
            return BoolVal(l0.startswith(lp))
    return startswith(s, p)


_re = {}


def re_pred(kind, pat):
    k = (kind, pat)
    if k not in _re:
        _re[k] = Function(f're_{kind}!{len(_re)}', Str, Bool_)
    return _re[k]
