"""Statements, expressions, calls and loops."""
import ast
import z3
from theory import *
from values import *
from core import Exec, Env, UNBOUND, Module, NoJoin, ConMap

LOG_NAMES = {'logger', 'logging'}


def stored_names(nodes):
    out = set()
    for n in nodes:
        for k in ast.walk(n):
            if isinstance(k, ast.Name) and isinstance(k.ctx, (ast.Store, ast.Del)):
                out.add(k.id)
            elif isinstance(k, (ast.FunctionDef,)):
                out.add(k.name)
            elif isinstance(k, ast.ExceptHandler) and k.name:
                out.add(k.name)
    return out


def is_log_call(e):
    if isinstance(e, ast.Call):
        f = e.func
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) \
                and f.value.id in LOG_NAMES:
            return True
        if isinstance(f, ast.Name) and f.id == 'print':
            return True
    return False


def is_docstring(st):
    return isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant)


class LoopCtx:
    """What a loop-invariant template sees."""

    def __init__(self, ex, rec, seq, i, n, env):
        self.ex, self.rec, self.seq, self.i, self.n, self.env = ex, rec, seq, i, n, env

    def vals(self):
        """(name, initial Val, current Val) of the havoced variables holding plain values."""
        for name, (x0, cell) in self.rec['vars'].items():
            cur = cell.vars.get(name)
            if isinstance(cur, ExprRef) and isinstance(x0, ExprRef):
                yield name, x0, cur

    def lists(self):
        """(name, initial Seq, current Seq) of mutated local lists."""
        for no, (c, t0) in self.rec['conts'].items():
            if c.kind in ('list', 'deque'):
                yield f'c{self.rec["conts_idx"][no]}', t0, c.t
        for name, (x0, cell) in self.rec['vars'].items():
            cur = cell.vars.get(name)
            if isinstance(cur, Cont) and isinstance(x0, Cont) and cur.kind == 'list' \
                    and cur.no not in self.rec['conts']:
                yield name, self.rec['t0'][name], cur.t

    def maps(self):
        for no, (c, t0) in self.rec['conts'].items():
            if c.kind in ('dict', 'set'):
                yield f'c{self.rec["conts_idx"][no]}', t0, c.t

    def fields(self):
        for k in sorted(self.rec['fields']):
            yield k, self.rec['h0'][k], self.ex.hkey(k)

    def elem(self, j):
        return SEQ.at_(self.seq, j)


PURE_CALLS = {'isinstance', 'len', 'str', 'bool', 'int', 'list', 'tuple', 'min', 'max'}
MUTATORS = {'append', 'extend', 'pop', 'add', 'update', 'remove', 'insert', 'clear', 'setdefault',
            'discard', 'popleft', 'appendleft', 'sort', 'reverse', 'popitem', 'extendleft'}


def pure_expr(e):
    for n in ast.walk(e):
        if isinstance(n, ast.Call):
            if not (isinstance(n.func, ast.Name) and n.func.id in PURE_CALLS):
                return False
        elif isinstance(n, (ast.Attribute, ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp,
                            ast.GeneratorExp, ast.Yield, ast.YieldFrom, ast.Await,
                            ast.NamedExpr, ast.Dict, ast.Set, ast.Starred)):
            return False
    return True


def join_names(st, fn):
    names = set()

    def go(s):
        if isinstance(s, ast.If):
            return pure_expr(s.test) and all(map(go, s.body)) and all(map(go, s.orelse))
        if isinstance(s, ast.Pass) or isinstance(s, ast.Expr) and is_log_call(s.value):
            return True
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(
                s.targets[0], ast.Name) and pure_expr(s.value):
            names.add(s.targets[0].id)
            return True
        return False
    if fn is None or not go(st):
        return None
    for n in ast.walk(fn):
        if isinstance(n, ast.Attribute) and n.attr in MUTATORS and isinstance(
                n.value, ast.Name) and n.value.id in names:
            return None
        if isinstance(n, ast.Subscript) and not isinstance(n.ctx, ast.Load) and isinstance(
                n.value, ast.Name) and n.value.id in names:
            return None
        if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and \
                n.target.id in names:
            return None
        if isinstance(n, (ast.Nonlocal, ast.Global)) and names & set(n.names):
            return None
    return names


class Interp(Exec):

    # ======================================================================
    # statements
    def block(self, body, env):
        for st in body:
            self.stmt(st, env)

    def stmt(self, st, env):
        self.line = getattr(st, 'lineno', self.line)
        self.run.lines.add((env_mod(env).name if env_mod(env) else '?', self.line))
        m = getattr(self, 's_' + type(st).__name__, None)
        if m is None:
            self.unsupported(f'statement {type(st).__name__}')
        m(st, env)

    def s_Expr(self, st, env):
        if is_docstring(st) or is_log_call(st.value):
            return
        self.eval(st.value, env)

    def s_Pass(self, st, env):
        pass

    s_Import = s_ImportFrom = lambda self, st, env: self._import(st, env)

    def _import(self, st, env):
        m = Module.__new__(Module)
        m.defs = {}
        m._index([st])
        for n, d in m.defs.items():
            if d[0] == 'lib':
                env.vars[n] = LibV(d[1])
            else:
                mod = env_mod(env)
                env.vars[n] = (ModV(d[2]) if d[1] is None
                               else self.global_(self.prog.mods[d[1]], d[2]))

    def s_Assign(self, st, env):
        v = self.eval(st.value, env)
        for t in st.targets:
            self.assign(t, v, env)

    def s_AnnAssign(self, st, env):
        if st.value is not None:
            self.assign(st.target, self.eval(st.value, env), env)

    def s_AugAssign(self, st, env):
        t = st.target
        if isinstance(t, ast.Name):
            cur = self.eval(ast.copy_location(ast.Name(t.id, ast.Load()), t), env)
            r = self.eval(st.value, env)
            if isinstance(cur, Cont) and isinstance(st.op, (ast.Add, ast.BitOr)):
                self.iadd(cur, r)
                return
            self.assign(t, self.binop(st.op, cur, r), env)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, env)
            cur = self.getattr_(o, t.attr)
            r = self.eval(st.value, env)
            if isinstance(cur, Cont) and isinstance(st.op, (ast.Add, ast.BitOr)):
                self.iadd(cur, r)
                return
            self.setattr_(o, t.attr, self.binop(st.op, cur, r))
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, env)
            k = self.eval(t.slice, env)
            cur = self.getitem(o, k)
            self.setitem(o, k, self.binop(st.op, cur, self.eval(st.value, env)))

    def iadd(self, cont, r):
        if cont.kind in ('list', 'deque'):
            cont.set(SEQ.cat(cont.t, self.seq_of(r)))
        else:
            self.reg.method(self, cont, 'update').f(self, [r], {})

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            self.setname(t.id, v, env)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v, env)
        elif isinstance(t, ast.Attribute):
            self.setattr_(self.eval(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.eval(t.value, env), self.eval(t.slice, env), v)
        else:
            self.unsupported(f'target {type(t).__name__}')

    def unpack(self, elts, v, env):
        v = self.unobj(v)
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        if isinstance(v, PTuple):
            items = v.items
        else:
            items = None
            if isinstance(v, ExprRef):
                c = self.con_slow(v)
                if c in NTS:
                    items = [acc(c, i, v) for i in range(len(NTS[c][0]))]
            if items is None:
                s = self.seq_of(v)
                items = SEQ.concrete(s)
                if items is None and not star:
                    n = len(elts)
                    if not self.branch(SEQ.len(s) == n):
                        self.raise_('ValueError')
                    items = [SEQ.at(s, IntVal(i)) for i in range(n)]
        if items is None:
            self.unsupported('starred unpacking of a symbolic sequence')
        if star:
            k = star[0]
            after = len(elts) - k - 1
            if len(items) < len(elts) - 1:
                self.raise_('ValueError')
            for e, x in zip(elts[:k], items[:k]):
                self.assign(e, self.unobj(x), env)
            mid = items[k:len(items) - after]
            self.assign(elts[k].value, self.mklist(SEQ.lit([self.tov(x) for x in mid])), env)
            for e, x in zip(elts[k + 1:], items[len(items) - after:]):
                self.assign(e, self.unobj(x), env)
            return
        if len(items) != len(elts):
            self.raise_('ValueError')
        for e, x in zip(elts, items):
            self.assign(e, self.unobj(x), env)

    def setname(self, name, v, env):
        fe = env
        while fe is not None and fe.parent is not None and getattr(fe, 'comp', False):
            fe = fe.parent
        if name in fe.globals:
            self.set_global(fe.mod, name, v)
            return
        if name in fe.nonlocals:
            p = fe.parent.find(name)
            p.vars[name] = v
            return
        env.vars[name] = v

    # -- joining the two sides of simple branches -------------------------------------
    def joinable(self, st, env):
        """Names assigned by an `if` whose sides only assign side-effect free expressions to
        local names that are never changed in place; None for any other `if`."""
        j = getattr(st, '_join', 0)
        if j == 0:
            j = st._join = join_names(st, self.frames[-1]['node'] if self.frames else None)
        if j is None or any(n in env.globals or n in env.nonlocals for n in j):
            return None
        return j

    def join_if(self, st, env, names):
        """Runs both sides and joins the results; False if that is not possible here."""
        if self.nofork:
            # inside another join
            self._join_if(st, env, names)
            return True
        if self.dpos < len(self.decisions):
            d = self.decisions[self.dpos][0]
            if d == 'split':
                self.dpos += 1
                return False
            self.dpos += 1
            self._join_if(st, env, names)
            return True
        snap = self.snapshot(env)
        try:
            self._join_if(st, env, names)
        except (NoJoin, PyRaise, PathEnd, Unsupported):
            self.restore(snap, env)
            self.decisions.append(['split', []])
            self.dpos += 1
            return False
        self.decisions.append(['join', []])
        self.dpos += 1
        return True

    def snapshot(self, env):
        self._sync()
        return (len(self.facts), set(self.factids), dict(self.heap), self.fresh_n, self.refs,
                dict(self.ref_cls), dict(env.vars), ConMap(self.data.get('con', ConMap())),
                self.solver_n, set(self.lits_fact))

    def restore(self, snap, env):
        n, ids, heap, fn, refs, rc, vars, con, sn, lf = snap
        del self.facts[n:]
        self.factids, self.heap, self.fresh_n, self.refs, self.ref_cls = set(ids), dict(heap), \
            fn, refs, dict(rc)
        env.vars.clear()
        env.vars.update(vars)
        self.data['con'] = ConMap(con)

    def _join_if(self, st, env, names):
        deep = self.nofork
        self.nofork = True
        try:
            c = simplify(self.formula(st.test, env))
            if z3.is_true(c) or z3.is_false(c):
                if deep:
                    self.block(st.body if z3.is_true(c) else st.orelse, env)
                    return
                raise NoJoin()
            if not deep and not (self.feasible(c) and self.feasible(simplify(Not(c)))):
                raise NoJoin()
            res = []
            for f, b in ((c, st.body), (Not(c), st.orelse)):
                snap = self.snapshot(env)
                self.solver.push()
                try:
                    self.assume(f)
                    self.block(b, env)
                    res.append(([x for x in self.facts[snap[0] + 1:]],
                                {n: env.vars.get(n) for n in names}, self.fresh_n,
                                dict(self.heap)))
                    if self.refs != snap[4]:
                        raise NoJoin()
                finally:
                    self.solver.pop()
                    self.solver_n, self.lits_fact = snap[8], set(snap[9])
                    fn = self.fresh_n
                    self.restore(snap, env)
                    self.fresh_n = fn
            for f, r in ((c, res[0]), (Not(c), res[1])):
                for x in r[0]:
                    self.assume(Implies(f, x))
            for k in set(res[0][3]) | set(res[1][3]):
                a, b = self.heap.get(k), None
                for r in res:
                    h = r[3].get(k)
                    if h is not None and a is not None and not h.eq(a):
                        raise NoJoin()
            for n in names:
                a, b = res[0][1][n], res[1][1][n]
                if a is b:
                    if a is not None:
                        env.vars[n] = a
                    continue
                if a is None or b is None or a is UNBOUND or b is UNBOUND:
                    raise NoJoin()
                ok = lambda x: isinstance(x, (ExprRef, PTuple)) or (
                    isinstance(x, Cont) and x.home is None)
                if not ok(a) or not ok(b) or isinstance(a, PTuple) or isinstance(b, PTuple):
                    raise NoJoin()
                a, b = self.tov(a), self.tov(b)
                env.vars[n] = a if a.eq(b) else If(c, a, b)
        finally:
            self.nofork = deep

    def formula(self, e, env):
        """The truth of an expression as one formula."""
        if isinstance(e, ast.BoolOp):
            f = And if isinstance(e.op, ast.And) else Or
            return f(*[self.formula(x, env) for x in e.values])
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return Not(self.formula(e.operand, env))
        return self.truth(self.eval(e, env))

    def s_If(self, st, env):
        names = self.joinable(st, env)
        if names is not None and self.join_if(st, env, names):
            return
        if self.cond(st.test, env):
            self.block(st.body, env)
        else:
            self.block(st.orelse, env)

    def cond(self, e, env):
        if isinstance(e, ast.BoolOp):
            if isinstance(e.op, ast.And):
                return all(self.cond(x, env) for x in e.values)
            return any(self.cond(x, env) for x in e.values)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return not self.cond(e.operand, env)
        return self.test(self.eval(e, env))

    def s_Return(self, st, env):
        raise ReturnEx(self.eval(st.value, env) if st.value else VNone)

    def s_Break(self, st, env):
        raise BreakEx()

    def s_Continue(self, st, env):
        raise ContinueEx()

    def s_Global(self, st, env):
        env.globals.update(st.names)

    def s_Nonlocal(self, st, env):
        env.nonlocals.update(st.names)

    def s_Assert(self, st, env):
        if not self.cond(st.test, env):
            self.raise_('AssertionError')

    def s_Delete(self, st, env):
        for t in st.targets:
            if isinstance(t, ast.Subscript):
                o = self.eval(t.value, env)
                k = self.eval(t.slice, env)
                self.reg.method(self, o, '__delitem__').f(self, [k], {})
            elif isinstance(t, ast.Name):
                env.vars.pop(t.id, None)
            else:
                self.unsupported('del attribute')

    def s_FunctionDef(self, st, env):
        q = (self.frames[-1]['qual'] if self.frames else '?') + '.<locals>.' + st.name
        env.vars[st.name] = FuncV(st, env_mod(env), env, q)
        f = env.vars[st.name]
        f.defaults = self._defaults(st.args, env)

    def s_Raise(self, st, env):
        if st.exc is None:
            cur = self.frames[-1].get('handling')
            if cur:
                raise PyRaise(cur[-1])
            self.unsupported('bare raise')
        e = st.exc
        if isinstance(e, ast.Call):
            c = self.eval(e.func, env)
            if isinstance(c, ExcClass):
                raise PyRaise(self.make_exc(c, e, env))
        v = self.eval(e, env)
        if isinstance(v, ExcClass):
            v = ExcV(v)
        if isinstance(v, ExcV):
            raise PyRaise(v)
        self.unsupported('raise of a non-exception')

    def make_exc(self, c, call, env):
        """Message arguments are not evaluated (dropped); keyword arguments are kept."""
        attrs = {}
        for kw in call.keywords:
            if kw.arg and not isinstance(kw.value, ast.JoinedStr):
                try:
                    attrs[kw.arg] = self.eval(kw.value, env)
                except Unsupported:
                    pass
        if c.name == 'InactiveRepo' and len(call.args) > 1:
            attrs['status'] = self.eval(call.args[1], env)
        return ExcV(c, (), attrs)

    def s_Try(self, st, env):
        fr = self.frames[-1]
        pending = None
        try:
            try:
                self.block(st.body, env)
                ran_else = True
            except PyRaise as pr:
                ran_else = False
                handled = False
                for h in st.handlers:
                    if self.exc_matches(pr.exc, h.type, env):
                        if h.name:
                            env.vars[h.name] = pr.exc
                        fr.setdefault('handling', []).append(pr.exc)
                        try:
                            self.block(h.body, env)
                        finally:
                            fr['handling'].pop()
                        handled = True
                        break
                if not handled:
                    raise
            if ran_else:
                self.block(st.orelse, env)
        except (PyRaise, ReturnEx, BreakEx, ContinueEx) as e:
            pending = e
        if st.finalbody:
            self.block(st.finalbody, env)
        if pending is not None:
            raise pending

    def exc_matches(self, exc, typ, env):
        if typ is None:
            return True
        t = self.eval(typ, env)
        ts = t.items if isinstance(t, PTuple) else [t]
        for x in ts:
            if isinstance(x, ExcClass) and exc.cls.isa(x):
                return True
            if isinstance(x, LibV):
                self.unsupported(f'except {x.name}')
        return False

    def s_With(self, st, env):
        self._with(st.items, st.body, env)

    def _with(self, items, body, env):
        if not items:
            self.block(body, env)
            return
        it = items[0]
        cm = self.eval(it.context_expr, env)
        cm = self.unobj(cm)
        if isinstance(cm, CtxV):
            v = cm.enter(self) if cm.enter else VNone
        elif isinstance(cm, ExprRef):
            v = self.call(self.getattr_(cm, '__enter__'), [], {})
        else:
            self.unsupported('with ' + type(cm).__name__)
        if it.optional_vars is not None:
            self.assign(it.optional_vars, v, env)
        pending = None
        try:
            self._with(items[1:], body, env)
        except (PyRaise, ReturnEx, BreakEx, ContinueEx) as e:
            pending = e
        if isinstance(cm, CtxV):
            if cm.exit:
                cm.exit(self)
        else:
            sup = self.call(self.getattr_(cm, '__exit__'), [VNone, VNone, VNone], {})
            if isinstance(pending, PyRaise) and self.test(sup):
                pending = None
        if pending is not None:
            raise pending

    # -- loops ------------------------------------------------------------------
    def s_While(self, st, env):
        key = self.loop_key(st, env)
        rec = self.enter_loop(key, st.body + [st.test], env)
        # bounded unrolling while the condition is decided and the loop is concrete
        self.cut_loop(st, env, key, rec, None, None, lambda: self.cond(st.test, env), None)

    def s_For(self, st, env):
        it = self.unobj(self.eval(st.iter, env))
        items = self.concrete_items(it)
        if items is not None:
            broke = False
            for x in items:
                self.assign(st.target, x, env)
                try:
                    self.block(st.body, env)
                except ContinueEx:
                    continue
                except BreakEx:
                    broke = True
                    break
            if not broke:
                self.block(st.orelse, env)
            return
        n, elem, seq = self.iter_spec(it)
        key = self.loop_key(st, env)
        rec = self.enter_loop(key, st.body + [st.target], env)
        self.cut_loop(st, env, key, rec, n, elem, None, seq)

    def concrete_items(self, it):
        it = self.unobj(it)
        if isinstance(it, PTuple):
            return it.items
        if isinstance(it, RangeV):
            lo, hi = simplify(it.lo), simplify(it.hi)
            if is_int_value(lo) and is_int_value(hi) and abs(hi.as_long() - lo.as_long()) <= 64:
                return [VInt(IntVal(x)) for x in range(lo.as_long(), hi.as_long(), it.step)]
            return None
        if isinstance(it, ZipV):
            cols = [self.concrete_items(x) for x in it.its]
            if any(c is None for c in cols):
                return None
            if it.enum_start is not None:
                return [PTuple([VInt(simplify(it.enum_start + i)), x])
                        for i, x in enumerate(cols[0])]
            return [PTuple(list(t)) for t in zip(*cols)]
        if isinstance(it, IterV) and it.wrap is not None:
            s = SEQ.concrete(it.seq)
            if s is None or not is_int_value(it.pos):
                return None
            return [it.wrap(self, e, IntVal(i)) for i, e in enumerate(s)][it.pos.as_long():]
        if isinstance(it, EnumV):
            return [enumv(it.name, m) for m in ENUMS[it.name]]
        if isinstance(it, (Cont, IterV, ExprRef)):
            s = SEQ.concrete(self.seq_of(it))
            if s is not None:
                return [self.unobj(x) for x in s]
            if isinstance(it, Cont) and it.kind in ('dict', 'set'):
                ks = self.concrete_keys(it)
                if ks is not None and len(ks) <= 1:
                    return list(reversed(ks))
        return None

    def elem_fact(self, s, f):
        """f(element, index) holds for every element of s: assumed wherever one is taken."""
        self.data.setdefault('elem_facts', []).append((s, f))

    def seq_at(self, s, i):
        """Element i of s, looking through concatenations where the index is decided."""
        ps = SEQ.parts(s)
        if 1 < len(ps) <= 4 and any(p.decl().eq(SEQ.unit_) for p in ps):
            off = IntVal(0)
            for p in ps:
                n = SEQ.len(p)
                if p.decl().eq(SEQ.unit_) and self.entails(i == off):
                    return p.arg(0)
                off = off + n
        return SEQ.at(s, i)

    def seq_elem(self, s, i):
        x = self.seq_at(s, i)
        for t, f in self.data.get('elem_facts', ()):
            if t.eq(s):
                self.assume(f(x, i))
        return x

    def iter_spec(self, it):
        """(length term, elem(i) -> value, Seq term or None)."""
        it = self.unobj(it)
        if isinstance(it, RangeV):
            if it.step != 1:
                self.unsupported('range step')
            n = simplify(If(it.hi > it.lo, it.hi - it.lo, IntVal(0)))
            return n, lambda i: VInt(simplify(it.lo + i)), None
        if isinstance(it, ZipV):
            if it.enum_start is not None:
                n, e, s = self.iter_spec(it.its[0])
                return n, lambda i: PTuple([VInt(simplify(it.enum_start + i)), e(i)]), s
            parts = [self.iter_spec(x) for x in it.its]
            n = parts[0][0]
            for p in parts[1:]:
                n = If(p[0] < n, p[0], n)
            return n, lambda i: PTuple([p[1](i) for p in parts]), parts[0][2]
        if isinstance(it, IterV) and it.wrap is not None:
            s, w = it.seq, it.wrap
            return SEQ.len(s), lambda i: w(self, self.seq_elem(s, i), i), s
        s = self.seq_of(it)
        return SEQ.len(s), lambda i: self.unobj(self.seq_elem(s, i)), s

    def loop_key(self, st, env):
        # position relative to the enclosing function, plus the inlining path
        fr = self.frames[-1]
        base = fr['qual']
        ords = fr['loops']
        k = (st.lineno, st.col_offset)
        if k not in ords:
            ords[k] = len(ords)
        path = tuple(f['site'] for f in self.frames)
        key = (path, base, k)
        if key not in self.run.loopname:
            pos = sorted({(x.lineno, x.col_offset) for x in ast.walk(fr['node'])
                          if isinstance(x, (ast.For, ast.While, ast.comprehension, ast.ListComp,
                                            ast.SetComp, ast.DictComp, ast.GeneratorExp))
                          and hasattr(x, 'lineno')})
            self.run.loopname[key] = (f'{base}:{pos.index(k) if k in pos else -1}:'
                                      f'{len(path)}')
        return key

    def enter_loop(self, key, nodes, env):
        known = self.run.loops.setdefault(key, {'names': None, 'conts': set(), 'fields': set()})
        names = stored_names(nodes)
        known['names'] = names
        return known

    def cut_loop(self, st, env, key, known, n, elem, test, seq):
        reg_c = self.frames[-1].get('contract') or {}
        templates = self.loop_templates()
        names = sorted(known['names'])
        rec = {'vars': {}, 'conts': {}, 'fields': set(known['fields']), 'h0': {}, 't0': {},
               'conts_idx': {}}
        conts_before = self.conts
        # snapshot
        init = {}
        for nm in names:
            e = env.find(nm)
            if nm in env.globals or e is None or e.vars[nm] is UNBOUND:
                init[nm] = UNBOUND
                continue
            init[nm] = e.vars[nm]
        all_conts = self.reachable_conts(env)
        for idx, no in enumerate(sorted(known['conts'])):
            c = all_conts.get(no)
            if c is None:
                continue
            rec['conts'][no] = (c, c.t)
            rec['conts_idx'][no] = idx
        for nm in names:
            x0 = init[nm]
            if isinstance(x0, Cont):
                rec['t0'][nm] = x0.t
        for k in known['fields']:
            rec['h0'][k] = self.hkey(k)
        for nm in names:
            if init[nm] is not UNBOUND:
                x0 = init[nm]
                if isinstance(x0, (PTuple, RangeV)):
                    x0 = self.tov(x0)
                rec['vars'][nm] = (x0, env.find(nm))
        data0 = self.data.get('version', 0)

        def cands(i):
            L = LoopCtx(self, rec, seq, i, n, env)
            L.key = key
            out = []
            for k, f in self.default_cands(L):
                out.append((k, f))
            for t in templates:
                for k, f in t(L):
                    out.append((k, f))
            nm = self.run.loopname.get(key)
            return [(k, f) for k, f in out if (key, k) not in self.run.removed and
                    f'{nm}:{k}' not in self.run.hints]

        # objects that the loop may change have to be consistent before it
        hv = set(known['fields'])
        self.flush_dirty('at loop entry', lambda ref, cn: bool(hv & self.reg.classes.get(
            cn, {}).get('fields', set())))
        # 1. establish
        for k, f in cands(IntVal(0)):
            self.prove(f, f'loop entry {k}', kind='cand', cand=(key, k))
        # 2. arbitrary iteration
        self.loopstack.append({'key': key, 'touched_fields': set(), 'touched_conts': set(),
                               'conts_before': conts_before})
        L = self.loopstack[-1]
        self.havoc_loop(rec, known)
        i = None
        if n is not None:
            i = self.fresh('it', Int_)
            self.assume(And(0 <= i, i <= n))
        for k, f in cands(i):
            self.assume(f)
        if n is not None:
            go = self.branch(i < n)
        else:
            go = test()
        if not go:
            self.loopstack.pop()
            if n is not None:
                self.assume(i == n)
                if isinstance(st, ast.For) and self.target_used_later(st):
                    if self.branch(n > 0):
                        self.assign(st.target, elem(simplify(n - 1)), env)
            self.block(st.orelse, env)
            return
        if n is not None:
            if seq is not None:
                e = SEQ.at(seq, i)
            self.assign(st.target, elem(i), env)
        broke = False
        try:
            try:
                self.block(st.body, env)
            except ContinueEx:
                pass
        except BreakEx:
            broke = True
        except (ReturnEx, PyRaise):
            self.check_touched(known, L, all_conts)
            self.loopstack.pop()
            raise
        self.check_touched(known, L, all_conts)
        self.loopstack.pop()
        if broke:
            return
        self.flush_dirty('at loop back edge')
        ni = simplify(i + 1) if i is not None else None
        for k, f in cands(ni):
            self.prove(f, f'loop preserve {k}', kind='cand', cand=(key, k))
        raise PathEnd('loop back edge')

    def check_touched(self, known, L, conts):
        newf = L['touched_fields'] - known['fields']
        newc = {c for c in L['touched_conts'] if c in conts} - known['conts']
        if newf or newc:
            known['fields'] |= newf
            known['conts'] |= newc
            raise Restart()
        if self.loopstack and len(self.loopstack) > 1:
            # enclosing loops see everything the inner one touches
            for o in self.loopstack[:-1]:
                o['touched_fields'] |= L['touched_fields']
                o['touched_conts'] |= {c for c in L['touched_conts']
                                       if c <= o['conts_before']}

    def reachable_conts(self, env):
        out = {}
        e = env
        seen = set()
        stack = [env] + [f['env'] for f in self.frames if f.get('env')]
        while stack:
            e = stack.pop()
            if e is None or id(e) in seen:
                continue
            seen.add(id(e))
            for v in e.vars.values():
                if isinstance(v, Cont) and not v.home:
                    out[v.no] = v
                elif isinstance(v, BoundV) and isinstance(v.self_, Cont):
                    out[v.self_.no] = v.self_
                elif isinstance(v, PTuple):
                    for x in v.items:
                        if isinstance(x, Cont) and not x.home:
                            out[x.no] = x
                elif isinstance(v, FuncV) and v.env is not None:
                    stack.append(v.env)
            stack.append(e.parent)
        for f in self.frames:
            if f.get('out') is not None:
                out[f['out'].no] = f['out']
        return out

    def havoc_loop(self, rec, known):
        for nm, (x0, cell) in rec['vars'].items():
            if isinstance(x0, Cont):
                if x0.kind == 'list':
                    cell.vars[nm] = Cont(self, x0.kind, self.fresh('h_' + nm, Seq),
                                         frozen='loop variable')
                else:
                    cell.vars[nm] = Cont(self, x0.kind, self.fresh('h_' + nm, Map),
                                         frozen='loop variable')
            elif isinstance(x0, ExprRef):
                cell.vars[nm] = self.fresh('h_' + nm)
            else:
                cell.vars[nm] = UNBOUND
        for no, (c, t0) in rec['conts'].items():
            c._t = self.fresh('hc', Seq if c.kind in ('list', 'deque') else Map)
        for k in known['fields']:
            self.heap_havoc(k)

    def target_used_later(self, st):
        node = self.frames[-1]['node']
        names = {k.id for k in ast.walk(st.target) if isinstance(k, ast.Name)}
        end = st.end_lineno
        for k in ast.walk(node):
            if isinstance(k, ast.Name) and isinstance(k.ctx, ast.Load) and k.id in names \
                    and k.lineno > end:
                return True
        return False

    def loop_templates(self):
        out = []
        for f in self.frames:
            c = f.get('contract')
            if c is not None and c.loops:
                out = list(c.loops)
        if self.cut is not None and self.cut.loops:
            for t in self.cut.loops:
                if t not in out:
                    out.append(t)
        return out

    def default_cands(self, L):
        for nm, x0, cur in L.vals():
            yield f'{nm} unchanged', cur == x0
            c = con_of(x0) or self.con(x0)
            if c:
                yield f'{nm} is {c}', RECOG[c](cur)
                if c == 'VInt':
                    yield f'{nm} >= init', acc(c, 0, cur) >= acc(c, 0, x0)
                    yield f'{nm} >= 0', acc(c, 0, cur) >= 0
                if c == 'VNone':
                    yield f'{nm} None or VInt', Or(cur == VNone, RECOG['VInt'](cur))
                    yield f'{nm} None or VCid', Or(cur == VNone, RECOG['VCid'](cur))
                    yield f'{nm} None or VStr', Or(cur == VNone, RECOG['VStr'](cur))
                    yield f'{nm} None or VRef', Or(cur == VNone, RECOG['VRef'](cur))
        for nm, t0, t in L.lists():
            yield f'{nm} unchanged', t == t0
            if L.seq is not None:
                yield f'{nm} = init ++ seen', t == SEQ.cat_(t0, SEQ.sub_(L.seq, 0, L.i))
        for nm, t0, t in L.maps():
            yield f'{nm} unchanged', t == t0
        for k, h0, h in L.fields():
            yield f'field {k} unchanged', h == h0
            if k in self.reg.rely:
                yield f'field {k} only filled in', self.reg.rely[k](h0, h, [])
                yield f'field {k} of old objects only filled in', self.reg.rely[k](
                    h0, h, [], True)

    # ======================================================================
    # expressions
    def eval(self, e, env):
        self.line = getattr(e, 'lineno', self.line)
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            self.unsupported(f'expression {type(e).__name__}')
        return m(e, env)

    def const(self, v):
        if v is None:
            return VNone
        if v is True or v is False:
            return VBool(BoolVal(v))
        if isinstance(v, int):
            return VInt(IntVal(v))
        if isinstance(v, float):
            return VReal(RealVal(str(v)))
        if isinstance(v, str):
            return vs(v)
        if isinstance(v, bytes):
            return VByt(blit(v))
        if v is Ellipsis:
            return VNone
        self.unsupported(f'constant {v!r}')

    def e_Constant(self, e, env):
        return self.const(e.value)

    def e_Name(self, e, env):
        return self.name(e.id, env)

    def name(self, name, env):
        fe = env
        x = env
        while x is not None:
            if name in x.globals:
                return self.global_(x.mod, name)
            if name in x.vars:
                v = x.vars[name]
                if v is UNBOUND:
                    self.unsupported(f'variable {name} may be unbound here')
                return v
            x = x.parent
        return self.global_(env_mod(env), name)

    def e_Attribute(self, e, env):
        return self.getattr_(self.eval(e.value, env), e.attr)

    def e_NamedExpr(self, e, env):
        v = self.eval(e.value, env)
        self.setname(e.target.id, v, env)
        return v

    def e_IfExp(self, e, env):
        return self.eval(e.body if self.cond(e.test, env) else e.orelse, env)

    def e_BoolOp(self, e, env):
        v = None
        for i, x in enumerate(e.values):
            v = self.eval(x, env)
            if i == len(e.values) - 1:
                return v
            t = self.test(v)
            if isinstance(e.op, ast.And) and not t:
                return v
            if isinstance(e.op, ast.Or) and t:
                return v
        return v

    def e_UnaryOp(self, e, env):
        v = self.eval(e.operand, env)
        if isinstance(e.op, ast.Not):
            return VBool(simplify(Not(self.truth(v))))
        if isinstance(e.op, ast.USub):
            if isinstance(v, ExprRef) and self.con(v) == 'VReal':
                return VReal(-acc('VReal', 0, v))
            return VInt(simplify(-self.as_int(v)))
        self.unsupported('unary operator')

    def e_Compare(self, e, env):
        left = self.eval(e.left, env)
        res = None
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r, env)
            b = self.compare(op, left, right)
            if len(e.ops) == 1:
                return VBool(b)
            if not self.branch(b):
                return VBool(BoolVal(False))
            left = right
        return VBool(BoolVal(True))

    def compare(self, op, a, b):
        t = type(op).__name__
        if t == 'Eq':
            return simplify(self.eq(a, b))
        if t == 'NotEq':
            return simplify(Not(self.eq(a, b)))
        if t == 'Is':
            return simplify(self.is_same(a, b))
        if t == 'IsNot':
            return simplify(Not(self.is_same(a, b)))
        if t == 'In':
            return simplify(self.contains(a, b))
        if t == 'NotIn':
            return simplify(Not(self.contains(a, b)))
        h = self.reg.compare(self, t, a, b)
        if h is not None:
            return h
        if t == 'Lt':
            return simplify(self.less(a, b))
        if t == 'LtE':
            return simplify(self.less(a, b, strict=False))
        if t == 'Gt':
            return simplify(self.less(b, a))
        if t == 'GtE':
            return simplify(self.less(b, a, strict=False))
        self.unsupported(t)

    def e_BinOp(self, e, env):
        a = self.eval(e.left, env)
        b = self.eval(e.right, env)
        return self.binop(e.op, a, b)

    def binop(self, op, a, b):
        a, b = self.unobj(a), self.unobj(b)
        t = type(op).__name__
        h = self.reg.binop(self, t, a, b)
        if h is not None:
            return h
        if t == 'Add':
            if isinstance(a, (Cont, PTuple)) or isinstance(b, (Cont, PTuple)):
                if isinstance(a, PTuple) and isinstance(b, PTuple):
                    return PTuple(a.items + b.items)
                return self.mklist(SEQ.cat(self.seq_of(a), self.seq_of(b)))
            ca, cb = self.con(a), self.con(b)
            if ca is None and cb is None:
                ca = self.con_slow(a, ['VInt', 'VStr', 'VList', 'VByt'])
                if ca is None:
                    cb = self.con_slow(b, ['VInt', 'VStr', 'VList', 'VByt'])
            c = ca or cb
            if c == 'VStr':
                return VStr(STR.cat(self.as_str(a), self.as_str(b)))
            if c == 'VByt':
                return VByt(BYT.cat(self.want(a, 'VByt'), self.want(b, 'VByt')))
            if c in ('VList',):
                return self.mklist(SEQ.cat(self.want(a, 'VList'), self.want(b, 'VList')))
            if c == 'VReal' or cb == 'VReal':
                return VReal(self.as_real(a) + self.as_real(b))
            if c is None:
                for n in ('VInt', 'VStr', 'VList'):
                    if self.branch(RECOG[n](a)):
                        self.setcon(a, n)
                        return self.binop(op, a, b)
                self.raise_('TypeError')
            return VInt(simplify(self.as_int(a) + self.as_int(b)))
        if t == 'Sub':
            if self.con(a) == 'VReal' or self.con(b) == 'VReal':
                return VReal(self.as_real(a) - self.as_real(b))
            return VInt(simplify(self.as_int(a) - self.as_int(b)))
        if t == 'Mult':
            ca, cb = self.con(a), self.con(b)
            if ca == 'VStr' or cb == 'VStr':
                s, k = (a, b) if ca == 'VStr' else (b, a)
                return self.reg.str_repeat(self, self.as_str(s), self.as_int(k))
            if ca == 'VReal' or cb == 'VReal':
                return VReal(self.as_real(a) * self.as_real(b))
            return VInt(simplify(self.as_int(a) * self.as_int(b)))
        if t in ('FloorDiv', 'Mod'):
            if self.con(a) == 'VStr':
                self.unsupported('string %')
            x, y = self.as_int(a), self.as_int(b)
            if not self.branch(y != 0):
                self.raise_('ZeroDivisionError')
            y = simplify(y)
            if is_int_value(y) and y.as_long() > 0:
                return VInt(simplify(x / y if t == 'FloorDiv' else x % y))
            # Python rounds towards minus infinity
            q = If(y > 0, x / y, (-x) / (-y))
            return VInt(q if t == 'FloorDiv' else x - y * q)
        if t == 'Pow':
            x, y = simplify(self.as_int(a)), simplify(self.as_int(b))
            if is_int_value(x) and is_int_value(y):
                return VInt(IntVal(x.as_long() ** y.as_long()))
            self.unsupported('symbolic power')
        if t == 'BitOr' and (isinstance(a, Cont) or isinstance(b, Cont)):
            r = Cont(self, a.kind, a.t)
            self.reg.method(self, r, 'update').f(self, [b], {})
            return r
        if t == 'Div':
            return VReal(self.as_real(a) / self.as_real(b))
        self.unsupported(f'operator {t}')

    def e_JoinedStr(self, e, env):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(slit(v.value))
            else:
                parts.append(self.to_str(self.eval(v.value, env)))
        return VStr(STR.cat(*parts)) if parts else vs('')

    def to_str(self, v):
        v = self.unobj(v)
        if isinstance(v, ExprRef):
            if self.con_slow(v, ['VStr', 'VInt', 'VNone']) == 'VStr':
                return acc('VStr', 0, v)
            return Function('str_of', Val, Str)(v)
        return Function('str_of', Val, Str)(self.tov(v))

    def e_Tuple(self, e, env):
        items = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                it = self.eval(x.value, env)
                c = self.concrete_items(it)
                if c is None:
                    s = SEQ.lit([self.tov(y) for y in items])
                    if x is not e.elts[-1]:
                        self.unsupported('star in the middle of a tuple')
                    return VTup(SEQ.cat(s, self.seq_of(it)))
                items += c
            else:
                items.append(self.eval(x, env))
        return PTuple(items)

    def e_List(self, e, env):
        t = SEQ.empty
        for x in e.elts:
            if isinstance(x, ast.Starred):
                t = SEQ.cat(t, self.seq_of(self.eval(x.value, env)))
            else:
                t = SEQ.cat(t, SEQ.unit(self.tov(self.eval(x, env), 'list element')))
        return self.mklist(t)

    def e_Set(self, e, env):
        m = mempty
        for x in e.elts:
            m = mput(m, self.tov(self.eval(x, env)), VBool(BoolVal(True)))
        return Cont(self, 'set', m)

    def e_Dict(self, e, env):
        c = Cont(self, 'dict', mempty)
        for k, v in zip(e.keys, e.values):
            if k is None:
                o = self.unobj(self.eval(v, env))
                self.reg.method(self, c, 'update').f(self, [o], {})
            else:
                kk = self.tov(self.eval(k, env))
                vv = self.eval(v, env)
                c._t = mput(c._t, kk, self.tov(vv, 'dict value'))
        return c

    def e_Lambda(self, e, env):
        node = ast.FunctionDef(name='<lambda>', args=e.args, body=[ast.copy_location(
            ast.Return(e.body), e.body)], decorator_list=[], lineno=e.lineno,
            col_offset=e.col_offset)
        q = (self.frames[-1]['qual'] if self.frames else '?') + '.<lambda>'
        f = FuncV(node, env_mod(env), env, q)
        f.defaults = self._defaults(e.args, env)
        return f

    def e_Subscript(self, e, env):
        o = self.eval(e.value, env)
        if isinstance(e.slice, ast.Slice):
            lo = self.eval(e.slice.lower, env) if e.slice.lower else VNone
            hi = self.eval(e.slice.upper, env) if e.slice.upper else VNone
            if e.slice.step is not None:
                self.unsupported('slice step')
            return self.slice(o, lo, hi)
        return self.getitem(o, self.eval(e.slice, env))

    def clamp(self, v, n, default):
        """Python slice-bound semantics."""
        if self.con(v) is None and not self.entails(RECOG['VInt'](v)):
            if self.branch(v == VNone):
                return default
        if self.con(v) == 'VNone' or v.eq(VNone):
            return default
        i = simplify(self.as_int(v))
        if is_int_value(i):
            k = i.as_long()
            if k >= 0:
                if k == 0 or self.entails(n >= k):
                    return i
                if self.branch(n >= k):
                    return i
                return n
            if self.entails(n >= -k) or self.branch(n >= -k):
                return simplify(n + i)
            return IntVal(0)
        if self.entails(i >= 0) or self.branch(i >= 0):
            pass
        else:
            i = simplify(n + i)
            if not self.branch(i >= 0):
                return IntVal(0)
        if self.entails(i <= n) or self.branch(i <= n):
            return i
        return n

    def slice(self, o, lo, hi):
        o = self.unobj(o)
        T, s, wrap = self.seq_view(o)
        n = T.len(s)
        i = self.clamp(lo, n, IntVal(0))
        j = self.clamp(hi, n, n)
        if not self.branch(i <= j):
            r = T.empty
        else:
            r = T.sub(s, i, j)
            self.split(T, s, i, j)
        return wrap(r)

    def split(self, T, s, i, j):
        for f in T.split_facts(s, i, j):
            self.assume(f)

    def seq_view(self, o):
        if isinstance(o, Cont) and o.kind in ('list', 'deque'):
            return SEQ, o.t, lambda r: self.mklist(r)
        if isinstance(o, PTuple):
            return SEQ, self.seq_of(o), lambda r: VTup(r)
        if isinstance(o, ExprRef):
            c = self.con_slow(o, ['VList', 'VStr', 'VByt', 'VTup'])
            if c is None:
                for n in ('VList', 'VStr', 'VByt', 'VTup'):
                    if self.branch(RECOG[n](o)):
                        c = n
                        self.setcon(o, n)
                        break
            if c == 'VList':
                return SEQ, acc(c, 0, o), lambda r: self.mklist(r)
            if c == 'VTup':
                return SEQ, acc(c, 0, o), lambda r: VTup(r)
            if c == 'VStr':
                return STR, acc(c, 0, o), lambda r: VStr(r)
            if c == 'VByt':
                return BYT, acc(c, 0, o), lambda r: VByt(r)
            self.raise_('TypeError')
        self.unsupported(f'slice of {type(o).__name__}')

    def getitem(self, o, k):
        o = self.unobj(o)
        if isinstance(o, PTuple):
            kk = simplify(self.as_int(k))
            if is_int_value(kk):
                try:
                    return o.items[kk.as_long()]
                except IndexError:
                    self.raise_('IndexError')
            o = self.tov(o)
        if isinstance(o, LibV) and o.name + '.__getitem__' in self.reg.libs:
            return self.reg.lib_call(self, LibV(o.name + '.__getitem__'), [k], {})
        if isinstance(o, EnumV):
            s = self.as_str(k)
            for m in ENUMS[o.name]:
                if self.branch(s == slit(m)):
                    return enumv(o.name, m)
            self.raise_('KeyError')
        if isinstance(o, Cont) and o.kind == 'dict':
            kv = self.tov(k)
            v = simplify_get(self, o.t, kv)
            if o.aux.get('default') is not None:
                if self.branch(v == VAbsent):
                    d = self.call(o.aux['default'], [], {})
                    o.set(mput(o.t, kv, self.tov(d)))
                    return self.nested(o, kv, d)
                return self.nested(o, kv, v)
            if self.branch(v == VAbsent):
                self.raise_('KeyError')
            return self.lens(o, kv, v) if o.aux.get('json') else self.unobj(v)
        if isinstance(o, ExprRef):
            c = self.con_slow(o, ['VDict', 'VList', 'VTup', 'VStr', 'VByt', 'VRef'])
            if c is None:
                for n in ('VDict', 'VList', 'VTup'):
                    if self.branch(RECOG[n](o)):
                        c = n
                        self.setcon(o, n)
                        break
            if c == 'VDict':
                v = simplify_get(self, acc(c, 0, o), self.tov(k))
                if self.branch(v == VAbsent):
                    self.raise_('KeyError')
                return self.unobj(v)
            if c == 'VRef':
                return self.reg.lib_getitem(self, o, k)
        T, s, wrap = self.seq_view(o)
        n = T.len(s)
        i = simplify(self.as_int(k))
        if is_int_value(i) and i.as_long() < 0:
            if not self.branch(n + i >= 0):
                self.raise_('IndexError')
            i = simplify(n + i)
        else:
            if not (self.entails(i >= 0) or self.branch(i >= 0)):
                if not self.branch(n + i >= 0):
                    self.raise_('IndexError')
                i = simplify(n + i)
            elif not self.branch(i < n):
                self.raise_('IndexError')
        x = self.seq_elem(s, i) if T is SEQ else T.at(s, i)
        if T is SEQ:
            if isinstance(o, Cont) and o.aux.get('json'):
                return self.lens(o, i, x)
            return self.unobj(x)
        if T is STR:
            r = VStr(STR.unit(x))
            return r
        return VInt(x)

    def nested(self, o, kv, v):
        """A container living inside a dict value: mutations write through."""
        if isinstance(v, Cont):
            kind = v.kind
        else:
            c = self.con_slow(v, ['VDict', 'VList', 'VSet'])
            kind = {'VDict': 'dict', 'VList': 'list', 'VSet': 'set'}.get(c)
        if kind is None:
            return v
        return NestedCont(self, kind, o, kv)

    def lens(self, o, k, v):
        """Element of a parsed JSON value: containers in it are reached by path, so that
        mutations write through."""
        if isinstance(v, ExprRef) and self.con_slow(v, ['VDict', 'VList', 'VStr']) is None:
            for n in ('VDict', 'VList'):
                if self.branch(RECOG[n](v)):
                    self.setcon(v, n)
                    break
        c = self.con(v)
        if c not in ('VDict', 'VList'):
            return self.unobj(v)
        r = NestedCont(self, 'dict' if c == 'VDict' else 'list', o, k)
        r.aux['json'] = True
        return r

    def setitem(self, o, k, v):
        o = self.unobj(o)
        if isinstance(o, Cont) and o.kind == 'dict':
            o.set(mput(o.t, self.tov(k), self.tov(v, 'dict value')))
            return
        if isinstance(o, ExprRef) and self.con_slow(o, ['VDict', 'VList']) == 'VDict':
            self.reg.dict_value_set(self, o, k, v)
            return
        if isinstance(o, ExprRef) and self.con(o) == 'VRef':
            self.reg.lib_setitem(self, o, k, v)
            return
        if isinstance(o, LibV):
            self.reg.lib_setitem(self, o, k, v)
            return
        self.unsupported('item assignment')

    # -- comprehensions ---------------------------------------------------------------
    def e_ListComp(self, e, env):
        out = self.mklist(SEQ.empty)
        self.comp(e, env, lambda en: out.set(SEQ.cat(out.t, SEQ.unit(
            self.tov(self.eval(e.elt, en), 'list element')))), out)
        return out

    def e_SetComp(self, e, env):
        out = Cont(self, 'set', mempty)
        self.comp(e, env, lambda en: out.set(mput(out.t, self.tov(self.eval(e.elt, en)),
                                                  VBool(BoolVal(True)))), out)
        return out

    def e_DictComp(self, e, env):
        out = Cont(self, 'dict', mempty)

        def emit(en):
            k = self.tov(self.eval(e.key, en))
            out.set(mput(out.t, k, self.tov(self.eval(e.value, en), 'dict value')))
        self.comp(e, env, emit, out)
        return out

    def e_GeneratorExp(self, e, env):
        out = self.mklist(SEQ.empty)
        self.comp(e, env, lambda en: out.set(SEQ.cat(out.t, SEQ.unit(
            self.tov(self.eval(e.elt, en), 'element')))), out)
        return IterV(out.t)

    def comp(self, e, env, emit, out):
        cenv = Env(env, env.mod)
        cenv.comp = True
        cenv.vars['<out>'] = out
        body = _Emit(emit)
        body.lineno, body.col_offset, body.end_lineno = e.lineno, e.col_offset, e.lineno
        st = None
        for g in reversed(e.generators):
            inner = [body] if st is None else [st]
            for c in reversed(g.ifs):
                i = ast.If(test=c, body=inner, orelse=[])
                ast.copy_location(i, c)
                inner = [i]
            st = ast.For(target=g.target, iter=g.iter, body=inner, orelse=[])
            ast.copy_location(st, g.target)
            st.end_lineno = 10 ** 9
        if len(e.generators) == 1 and not e.generators[0].ifs and isinstance(
                e, (ast.ListComp, ast.GeneratorExp)):
            if self.map_comp(e, cenv, out):
                return
        self.stmt(st, cenv)

    def map_comp(self, e, env, out):
        """[f(x) for x in s] with f pure and branch-free on an arbitrary element: the result is
        described by one quantified fact."""
        g = e.generators[0]
        it = self.unobj(self.eval(g.iter, env))
        if self.concrete_items(it) is not None:
            for x in self.concrete_items(it):
                self.assign(g.target, x, env)
                out.set(SEQ.cat(out.t, SEQ.unit(self.tov(self.eval(e.elt, env)))))
            return True
        spec = self.reg.map_comp(self, e, env, it, out)
        if spec:
            return True
        # reuse the already evaluated iterable
        env.vars['<iter>'] = it
        g2 = ast.comprehension(target=g.target, iter=ast.copy_location(
            ast.Name('<iter>', ast.Load()), g.iter), ifs=[], is_async=0)
        st = ast.For(target=g.target, iter=g2.iter, body=[], orelse=[])
        ast.copy_location(st, g.target)
        st.end_lineno = 10 ** 9
        emit = lambda en: out.set(SEQ.cat(out.t, SEQ.unit(self.tov(self.eval(e.elt, en),
                                                                   'element'))))
        b = _Emit(emit)
        b.lineno, b.col_offset, b.end_lineno = e.lineno, e.col_offset, e.lineno
        st.body = [b]
        self.stmt(st, env)
        return True

    def s__Emit(self, st, env):
        st.emit(env)

    def e_Yield(self, e, env):
        v = self.eval(e.value, env) if e.value else VNone
        self.do_yield(v)
        return VNone

    def do_yield(self, v):
        fr = self.frames[-1]
        h = fr.get('on_yield')
        if h:
            h(self, v)
            return
        out = fr['out']
        out.set(SEQ.cat(out.t, SEQ.unit(self.tov(v, 'yielded'))))

    def e_YieldFrom(self, e, env):
        it = self.eval(e.value, env)
        out = self.frames[-1]['out']
        out.set(SEQ.cat(out.t, self.seq_of(it)))
        return VNone

    def e_Starred(self, e, env):
        self.unsupported('starred')

    # ======================================================================
    # calls
    def e_Call(self, e, env):
        if is_log_call(e):
            return VNone
        f = self.unobj(self.eval(e.func, env)) if not (
            isinstance(e.func, ast.Name) and e.func.id in ('super', 'locals')) else None
        if f is None:
            if e.func.id == 'super':
                fr = self.frames[-1]
                return SuperV(fr['fn'].cls, fr['env'].vars[fr['node'].args.args[0].arg])
            self.unsupported('locals()')
        if isinstance(f, ExcClass):
            return self.make_exc(f, e, env)
        args, kw = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                it = self.eval(a.value, env)
                c = self.concrete_items(it)
                if c is None:
                    args.append(StarArg(self.seq_of(it)))
                else:
                    args += c
            else:
                args.append(self.eval(a, env))
        for k in e.keywords:
            if k.arg is None:
                o = self.unobj(self.eval(k.value, env))
                kw['**'] = o
            else:
                kw[k.arg] = self.eval(k.value, env)
        self.line = e.lineno
        return self.call(f, args, kw)

    def call(self, f, args, kw):
        f = self.unobj(f)
        if isinstance(f, BoundV):
            if isinstance(f.fn, FuncV):
                return self.call_function(f.fn, [f.self_] + args, kw)
            return self.call(f.fn, [f.self_] + args, kw)
        if isinstance(f, FuncV):
            return self.call_function(f, args, kw)
        if isinstance(f, (ModelV, OpaqueFn)):
            return f.f(self, args, kw)
        if isinstance(f, NTClass):
            return self.make_nt(f.name, args, kw)
        if isinstance(f, ClassV):
            return self.construct(f, args, kw)
        if isinstance(f, LibV):
            return self.reg.lib_call(self, f, args, kw)
        if isinstance(f, ExcClass):
            return ExcV(f, tuple(args), {k: v for k, v in kw.items()})
        if isinstance(f, EnumV):
            self.unsupported('enum call')
        if isinstance(f, ExprRef):
            return self.reg.call_value(self, f, args, kw)
        self.unsupported(f'call of {type(f).__name__}')

    def make_nt(self, name, args, kw):
        fields, defaults = NTS[name]
        vals = [None] * len(fields)
        if name in self.reg.live_nts and '**' not in kw and not defaults and len(args) + len(
                kw) == len(fields) and not any(isinstance(a, StarArg) for a in args):
            if set(kw) != set(fields[len(args):]):
                self.raise_('TypeError')
            return PNt(name, list(args) + [kw[f] for f in fields[len(args):]])
        if '**' in kw:
            m = kw.pop('**')
            mt = m.t if isinstance(m, Cont) else self.want(m, 'VDict')
            h = self.reg.nt_from_map(self, name, mt)
            if h is not None:
                return h
            for i, fl in enumerate(fields):
                v = simplify_get(self, mt, vs(fl))
                if not self.branch(v != VAbsent):
                    self.raise_('TypeError')
                vals[i] = v
        for i, a in enumerate(args):
            if isinstance(a, StarArg):
                self.unsupported('*args to a namedtuple')
            if i >= len(fields):
                self.raise_('TypeError')
            vals[i] = self.tov(a)
        for k, v in kw.items():
            if k not in fields:
                self.raise_('TypeError')
            vals[fields.index(k)] = self.tov(v)
        nd = len(defaults)
        for i in range(len(fields)):
            if vals[i] is None:
                j = i - (len(fields) - nd)
                if j < 0:
                    self.raise_('TypeError')
                vals[i] = self.const(defaults[j])
        return CONS[name](*vals)

    def construct(self, C, args, kw):
        h = self.reg.constructors.get(C.name)
        if h:
            return h(self, C, args, kw)
        o = self.new_ref(C.name)
        ref = o.arg(0)
        # class-level defaults
        for k in reversed(self.prog.mro(C)):
            for n, v in k.members.items():
                if not isinstance(v, FuncV) and f'{k.name}.{n}' not in self.reg.field_spec:
                    key = self.fkey(C.name, n)
                    dv = self.eval(v, Env(mod=k.mod))
                    self.heap_set(key, ref, self.tov(dv))
        spec = self.reg.classes.get(C.name)
        k, init = self.prog.member(C, '__init__')
        old = self.data.get('in_init')
        self.data['in_init'] = ref.sexpr()
        con = self.reg.contracts.get(init.qual) if init is not None else None
        if spec and 'inv' in spec and con is None:
            self.dirty.append((ref, C.name))
        if init is not None:
            try:
                self.call_function(init, [o] + args, kw, force_inline=con is None)
            except PyRaise:
                # nobody else has a half-built object
                self.dirty = [d for d in self.dirty if not d[0].eq(ref)]
                self.data['in_init'] = old
                raise
        self.data['in_init'] = old
        if spec and 'ghost_init' in spec:
            spec['ghost_init'](self, ref)
        return o

    def _defaults(self, a, env):
        d = {}
        pos = a.posonlyargs + a.args
        for p, v in zip(pos[len(pos) - len(a.defaults):], a.defaults):
            d[p.arg] = self.eval(v, env)
        for p, v in zip(a.kwonlyargs, a.kw_defaults):
            if v is not None:
                d[p.arg] = self.eval(v, env)
        return d

    def bind(self, fn, args, kw):
        a = fn.node.args
        vars = {}
        pos = [p.arg for p in a.posonlyargs + a.args]
        kwonly = [p.arg for p in a.kwonlyargs]
        rest = []
        for i, v in enumerate(args):
            if isinstance(v, StarArg):
                if i == len(pos) and a.vararg:
                    rest.append(v)
                    continue
                self.unsupported('*args')
            if i < len(pos):
                vars[pos[i]] = v
            elif a.vararg:
                rest.append(v)
            else:
                self.raise_('TypeError')
        extra = Cont(self, 'dict', mempty)
        for k, v in kw.items():
            if k == '**':
                extra = v if isinstance(v, Cont) else Cont(self, 'dict', self.want(v, 'VDict'),
                                                           frozen='kwargs')
                continue
        extra = Cont(self, 'dict', extra.t)
        hadstar = '**' in kw
        for k, v in kw.items():
            if k == '**':
                continue
            if k in vars:
                self.raise_('TypeError')
            if k in pos or k in kwonly:
                vars[k] = v
            elif a.kwarg:
                extra._t = mput(extra._t, vs(k), self.tov(v, 'kwarg'))
            else:
                self.raise_('TypeError')
        if hadstar:
            # **kwargs whose keys may name parameters
            t = extra._t
            for k in pos + kwonly:
                if k in vars:
                    continue
                v = simplify_get(self, t, vs(k))
                if v.eq(VAbsent) or self.entails(v == VAbsent):
                    continue
                if self.branch(v != VAbsent):
                    vars[k] = self.unobj(v)
                    t = mdel(t, vs(k))
            extra._t = t
        defaults = getattr(fn, 'defaults', None)
        if defaults is None:
            defaults = fn.defaults = self._defaults(a, Env(mod=fn.mod))
        for k in pos + kwonly:
            if k not in vars:
                if k in defaults:
                    vars[k] = defaults[k]
                else:
                    self.raise_('TypeError')
        if a.vararg:
            if any(isinstance(x, StarArg) for x in rest):
                t = SEQ.empty
                for x in rest:
                    t = SEQ.cat(t, x.seq if isinstance(x, StarArg) else SEQ.unit(self.tov(x)))
                vars[a.vararg.arg] = VTup(t)
            else:
                vars[a.vararg.arg] = PTuple(rest)
        if a.kwarg:
            vars[a.kwarg.arg] = extra
        elif hadstar and self.concrete_keys(extra):
            self.raise_('TypeError')
        return vars

    def call_function(self, fn, args, kw, force_inline=False):
        q = self.reg.alias.get(fn.qual, fn.qual)
        con = None if force_inline else self.reg.contracts.get(q)
        if con is None and not force_inline and '<' not in q:
            # an override of a method whose base contract is known
            con = self.reg.dispatch(self, fn, args)
        if con is not None and not con.inline:
            vars = self.bind(fn, args, kw)
            return self.apply_contract(con, fn, vars)
        h = self.reg.func_models.get(q)
        if h is not None:
            return h(self, args, kw)
        return self.inline(fn, args, kw)

    def inline(self, fn, args, kw):
        if self.depth > 14:
            self.unsupported(f'inlining too deep at {fn.qual}')
        if any(f['qual'] == fn.qual for f in self.frames[-6:]) and \
                sum(f['qual'] == fn.qual for f in self.frames) > 2:
            self.unsupported(f'recursive call to {fn.qual}, which has no contract')
        vars = self.bind(fn, args, kw)
        site = (self.line, fn.qual)
        return self.run_body(fn, vars, site=site)

    def run_body(self, fn, vars, site, contract=None, on_yield=None):
        env = Env(fn.env, fn.mod)
        env.vars.update(vars)
        gen = is_generator(fn.node)
        out = self.mklist(SEQ.empty) if gen else None
        fr = {'fn': fn, 'node': fn.node, 'env': env, 'qual': fn.qual, 'site': site,
              'loops': {}, 'out': out, 'contract': contract, 'on_yield': on_yield}
        self.frames.append(fr)
        self.depth += 1
        save = self.fname
        try:
            self.block(fn.node.body, env)
            r = VNone
        except ReturnEx as e:
            r = e.v
        finally:
            self.frames.pop()
            self.depth -= 1
        if gen:
            return IterV(out.t)
        return r

    # -- contracts -----------------------------------------------------------------------
    def rely(self, con, c, key, old_only=False):
        """What every function keeps when it fills in a cache, except at some objects."""
        if key not in self.reg.rely:
            return None
        allowed = con.rely_except(c).get(key, []) if con.rely_except else []
        return self.reg.rely[key](c.oldarr(key), self.hkey(key), allowed, old_only)

    def apply_contract(self, con, fn, vars):
        from contract import CallCtx
        c = CallCtx(self, con, fn, vars)
        self.run.uses.add(con.qual)
        if con.rely_except and self.in_scope:
            self.unsupported('a call that may change caches in a key or predicate function')
        callee = con.name.split('.', 1)[-1]
        for lab, f in con.pre(c):
            self.prove(f, f'requires of {callee}: {lab}', kind='pre')
        self.flush_dirty(f'before call to {callee}')
        c.snapshot()
        for key in con.modifies_keys(self, c):
            self.heap_havoc(key)
            f = self.rely(con, c, key)
            if f is not None:
                self.assume(f)
        for p in con.mutates:
            x = vars.get(p)
            if isinstance(x, Cont):
                x.set(self.fresh(p, Seq if x.kind in ('list', 'deque') else Map))
            elif isinstance(x, ExprRef) and x.eq(VNone):
                pass
            else:
                self.fail(f'{callee} changes {p}, which is shared')
        for key, allowed in con.frame(self, c):
            # quantified frame for partially modified fields
            r = Int('r')
            self.assume(FA([r], Implies(And(*[r != a for a in allowed]),
                                        z3.Select(self.hkey(key), r) ==
                                        z3.Select(c.oldarr(key), r)),
                           z3.Select(self.hkey(key), r)))
        # exceptional outcomes
        for exc, cond, post, attrs in con.raises_list(c):
            if cond is None:
                if self.choose(2) == 1:
                    for lab, f in (post(c) if post else []):
                        self.assume(f)
                    raise PyRaise(ExcV(exc, (), attrs))
            else:
                if self.branch(cond):
                    for lab, f in (post(c) if post else []):
                        self.assume(f)
                    raise PyRaise(ExcV(exc, (), attrs))
        r = con.make_result(self, c)
        for lab, f in con.post(c, c.resval(r)):
            self.assume(f)
        if con.after:
            con.after(self, c, r)
        return r


class _Emit(ast.stmt):
    def __init__(self, emit):
        super().__init__()
        self.emit = emit


class StarArg:
    def __init__(self, seq):
        self.seq = seq


class NestedCont(Cont):
    def __init__(self, ex, kind, outer, key):
        self.outer, self.key = outer, key
        Cont.__init__(self, ex, kind, None)

    @property
    def t(self):
        o = self.outer
        v = (self.ex.seq_at(o.t, self.key) if o.kind == 'list' else
             simplify_get(self.ex, o.t, self.key))
        return acc({'list': 'VList', 'dict': 'VDict', 'set': 'VSet'}[self.kind], 0, v)

    def set(self, t):
        o, v = self.outer, self.ex.wrap(self.kind, t)
        if o.kind == 'list':
            n = simplify(SEQ.len(o.t))
            self.ex.split(SEQ, o.t, self.key, simplify(self.key + 1))
            o.set(SEQ.cat(SEQ.sub(o.t, IntVal(0), self.key), SEQ.unit(v),
                          SEQ.sub(o.t, simplify(self.key + 1), n)))
        else:
            o.set(mput(o.t, self.key, v))


def env_mod(env):
    while env is not None:
        if env.mod is not None:
            return env.mod
        env = env.parent


def is_generator(node):
    st = list(node.body)
    while st:
        n = st.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.GeneratorExp, ast.ListComp)):
            continue
        st.extend(ast.iter_child_nodes(n))
    return False


def simplify_get(ex, m, k):
    """mget with syntactic read-over-write where keys are decided."""
    while True:
        d = m.decl()
        if d.eq(mput):
            k2 = m.arg(1)
            if k2.eq(k):
                return m.arg(2)
            if distinct(k, k2):
                m = m.arg(0)
                continue
        elif d.eq(mdel):
            if m.arg(1).eq(k):
                return VAbsent
            if distinct(k, m.arg(1)):
                m = m.arg(0)
                continue
        elif m.eq(mempty):
            return VAbsent
        return mget(m, k)


def distinct(a, b):
    ca, cb = con_of(a), con_of(b)
    if ca and cb:
        if ca != cb:
            return ca not in ('VInt', 'VBool') or cb not in ('VInt', 'VBool')
        if ca == 'VStr':
            la, lb = lit_of(a.arg(0)), lit_of(b.arg(0))
            return la is not None and lb is not None and la != lb
        if ca == 'VInt':
            return is_int_value(a.arg(0)) and is_int_value(b.arg(0)) and not a.eq(b)
    return False
