"""Contracts, the registry of contracts and models, and the per-function verification run."""
import ast, json, os, sys, time, traceback
import z3
from theory import *
from values import *
from core import Program, Run, Exec, VC
from interp import Interp, is_generator
import solve


def _payload_sort(kind):
    return {'str': Str, 'int': Int_, 'nat': Int_, 'bool': Bool_, 'real': Real_, 'byt': Byt,
            'cid': Cid, 'list': Seq, 'tup': Seq, 'dict': Map, 'set': Map}[kind]


_CON = {'str': 'VStr', 'int': 'VInt', 'nat': 'VInt', 'bool': 'VBool', 'real': 'VReal',
        'byt': 'VByt', 'cid': 'VCid', 'list': 'VList', 'tup': 'VTup', 'dict': 'VDict',
        'set': 'VSet', 'deque': 'VList'}


def kind_pred(ex, kind, v):
    """Formula: value v (a Val term) has this kind."""
    if kind in ('any', None):
        return BoolVal(True)
    if '|' in kind:
        return Or(*[kind_pred(ex, k, v) for k in kind.split('|')])
    if kind.startswith('opt:'):
        return Or(v == VNone, kind_pred(ex, kind[4:], v))
    if kind == 'none':
        return v == VNone
    if kind == 'nat':
        return And(RECOG['VInt'](v), acc('VInt', 0, v) >= 0)
    if kind in _CON:
        return is_(_CON[kind], v)
    if kind.startswith(('ref:', 'fresh:')):
        cn = kind.split(':', 1)[1]
        names = ex.prog.subclasses(cn) if cn in ex.prog.classes else [cn]
        names = [n for n in names if n in ex.reg.known_classes or n in ex.reg.libclasses
                 or n == cn]
        r = acc('VRef', 0, v)
        return And(is_('VRef', v), Or(*[cls_(r) == cls_id(n) for n in names]))
    if kind.startswith('nt:'):
        return is_(kind[3:], v)
    if kind.startswith('enum:'):
        cn = kind[5:]
        return And(is_('VEnum', v), acc('VEnum', 0, v) == ENUM_IDS[cn],
                   acc('VEnum', 1, v) >= 0, acc('VEnum', 1, v) < len(ENUMS[cn]))
    raise Unsupported(f'kind {kind}')


def fresh_of(ex, kind, name, frozen=None, call=False):
    """A fresh interpreter value of this kind (with its kind facts assumed)."""
    if kind in ('list', 'dict', 'set', 'deque'):
        t = ex.fresh(name, Seq if kind in ('list', 'deque') else Map)
        return Cont(ex, kind, t, frozen=frozen)
    if kind == 'iter':
        return IterV(ex.fresh(name, Seq))
    if kind == 'none':
        return VNone
    if kind in _CON:
        t = ex.fresh(name, _payload_sort(kind))
        if kind == 'nat':
            ex.assume(t >= 0)
        return CONS[_CON[kind]](t)
    if kind.startswith('ref:'):
        cn = kind[4:]
        v = VRef(ex.fresh(name, Int_))
        ex.assume(kind_pred(ex, kind, v))
        subs = ex.prog.subclasses(cn) if cn in ex.prog.classes else [cn]
        if len([s for s in subs if s in ex.reg.known_classes or s == cn]) == 1 or \
                cn in ex.reg.libclasses:
            ex.ref_cls[v.arg(0).sexpr()] = cn
        return v
    if kind.startswith('fresh:'):
        return ex.new_ref(kind[6:])
    if kind.startswith('nt:'):
        n = kind[3:]
        return CONS[n](*[ex.fresh(f'{name}.{f}') for f in NTS[n][0]])
    if kind.startswith('tuple:'):
        return PTuple([fresh_of(ex, k, f'{name}{i}') for i, k in
                       enumerate(kind[6:].split(','))])
    v = ex.fresh(name)
    ex.assume(kind_pred(ex, kind, v))
    return v


class CallCtx:
    """What a contract's formulas see: the parameters, and the heap before and now."""

    def __init__(self, ex, con, fn, vars):
        self.ex, self.con, self.fn, self.vars = ex, con, fn, vars
        self.oldheap = None
        self.post_phase = False
        self.g = {}

    def snapshot(self):
        self.oldheap = dict(self.ex.heap)
        self.oldv = {k: (self.ex.tov(v) if not isinstance(v, Cont) else
                         self.ex.wrap(v.kind, v.t))
                     for k, v in self.vars.items()
                     if isinstance(v, (ExprRef, Cont, PTuple, IterV))}

    def v(self, name):
        x = self.vars[name]
        if isinstance(x, Cont):
            return self.ex.wrap(x.kind, x.t)
        return self.ex.tov(x)

    def raw(self, name):
        return self.vars[name]

    def s(self, name):
        return acc('VStr', 0, self.v(name))

    def i(self, name):
        return acc('VInt', 0, self.v(name))

    def b(self, name):
        return acc('VBool', 0, self.v(name))

    def byt(self, name):
        return acc('VByt', 0, self.v(name))

    def cid(self, name):
        return acc('VCid', 0, self.v(name))

    def ref(self, name):
        return acc('VRef', 0, self.v(name))

    def seq(self, name):
        v = self.v(name)
        return acc('VTup' if con_of(v) == 'VTup' else 'VList', 0, v)

    def map(self, name):
        v = self.v(name)
        return acc('VSet' if con_of(v) == 'VSet' else 'VDict', 0, v)

    def h(self, key, ref=None):
        """Current heap value of a field."""
        if ref is None:
            ref = IntVal(0)
        self.ex.hkey(key)
        return self.ex.heap_get(key, ref)

    def old(self, key, ref=None):
        if ref is None:
            ref = IntVal(0)
        return z3.Select(self.oldarr(key), ref)

    def oldarr(self, key):
        if self.oldheap is not None and key in self.oldheap:
            return self.oldheap[key]
        self.ex.hkey(key)
        return self.ex.heap0[key]

    def h_arr(self, key):
        """Current heap array of a field."""
        self.ex.hkey(key)
        return self.ex.heap[key]

    def resval(self, r):
        self.raw_result = r
        if isinstance(r, IterV):
            return VList(self.ex.seq_of(r))
        if isinstance(r, (ExprRef,)):
            return r
        if isinstance(r, Cont):
            return self.ex.wrap(r.kind, r.t)
        return self.ex.tov(r)


def _norm(fs):
    out = []
    for n, x in enumerate(fs or []):
        if isinstance(x, tuple):
            out.append(x)
        else:
            out.append((f'#{n + 1}', x))
    return out


class Contract:
    """params: name -> kind; returns: kind; requires(c), ensures(c, r) -> formulas;
    raises: list of (exception name, cond(c) or None, post(c) or None): with a condition the
    exception is raised exactly when it holds on entry, without one it may be raised.
    modifies: heap keys (exact list; everything else is unchanged for existing objects)."""

    def __init__(self, qual, params=None, returns='any', requires=None, ensures=None,
                 raises=(), modifies=(), loops=(), inline=False, trusted=False, frame=None,
                 after=None, on_yield=None, setup=None, doc='', body=None, max_paths=4000,
                 modifies_fn=None, groups=None, rlimit=None, ghost_params=None, nonraise=None,
                 result=None, split=True, entry=None, nl=False, hide=(), mutates=(), rely_except=None,
                 caches=None):
        self.nl = nl
        self.hide = tuple(hide)
        self.caches = caches      # the cache fields it may fill in; None: all
        self.rely_except = rely_except
        self.mutates = tuple(mutates)
        self.name = self.qual = qual
        self.params, self.returns = params or {}, returns
        self.requires, self.ensures = requires, ensures
        self.raises, self.modifies = list(raises), list(modifies)
        self.loops, self.inline, self.trusted = list(loops), inline, trusted
        self._frame, self.after, self.on_yield = frame, after, on_yield
        self.setup, self.doc, self.body = setup, doc, body
        self.max_paths = max_paths
        self.modifies_fn = modifies_fn
        self.rlimit = rlimit
        self.result = result
        self.entry = entry

    def kinds(self, c):
        out = []
        for p, k in self.params.items():
            if k in ('any', 'fn', None) or p not in c.vars:
                continue
            x = c.vars[p]
            if isinstance(x, (Cont,)):
                con = {'list': 'list', 'deque': 'list'}.get(x.kind, x.kind)
                if not any(kk.replace('opt:', '') in (con, x.kind) for kk in k.split('|')):
                    out.append((f'{p} is {k}', BoolVal(False)))
                continue
            if k == 'iter':
                continue
            out.append((f'{p} is {k}', kind_pred(c.ex, k, c.ex.tov(x))))
        return out

    def pre(self, c):
        out = self.kinds(c)
        if self.requires:
            out += _norm(self.requires(c))
        return out

    def post(self, c, r):
        c.post_phase = True
        return _norm(self.ensures(c, r)) if self.ensures else []

    def raises_list(self, c):
        out = []
        for e in self.raises:
            name, cond, post, attrs = (tuple(e) + (None,) * 3)[:4] if isinstance(
                e, tuple) else (e, None, None, None)
            ec = c.ex.reg.exc(c.ex, name)
            out.append((ec, cond(c) if cond else None,
                        (lambda c, p=post: _norm(p(c))) if post else None, attrs or {}))
        return out

    def modifies_keys(self, ex, c):
        m = list(self.modifies)
        if self.modifies_fn:
            m += self.modifies_fn(c)
        return m + [k for k in self.cache_keys(ex) if k not in m and ex.reg.havoc_caches]

    def cache_keys(self, ex):
        return ex.reg.cache_fields if self.caches is None else self.caches

    def frame(self, ex, c):
        return self._frame(c) if self._frame else []

    def make_result(self, ex, c):
        if self.result:
            return self.result(ex, c)
        return fresh_of(ex, self.returns, 'r_' + self.qual.split('.')[-1], call=True)


class Lemma:
    """A named fact proved from the axioms (hyps => goal, by the solver), or with
    several obligations (e.g. base and step of an induction)."""

    def __init__(self, name, obligations, doc=''):
        self.name, self.obligations, self.doc = name, obligations, doc


class Registry:
    def __init__(self):
        self.contracts = {}
        self.alias = {}
        self.func_models = {}
        self.constructors = {}
        self.classes = {}
        self.libclasses = {}
        self.known_classes = set()
        self.field_spec = {}
        self.field_read = {}
        self.field_write = {}
        self.globals = {}
        self.mutable_globals = set()
        self.cache_fields = []
        self.havoc_caches = True
        self.rely = {}
        self.methods = {}
        self.lemmas = {}
        self.axiom_groups = {}
        self.excs = {}
        self.dispatchers = []
        self.libs = {}
        self.libattrs = {}
        self.nt_methods = {}
        self.live_nts = set()       # namedtuples whose containers are changed in place
        self.hooks = {}
        self.used = set()

    def add(self, qual, **kw):
        c = Contract(qual, **kw)
        self.contracts[qual] = c
        return c

    def lemma(self, name, obls, doc=''):
        self.lemmas[name] = Lemma(name, obls, doc)

    def exc(self, ex, name):
        if name in EXC:
            return EXC[name]
        mod, _, n = name.rpartition('.')
        v = ex.prog.resolve_name(ex.prog.mods[mod], n)
        if not isinstance(v, ExcClass):
            raise Unsupported(f'exception {name}')
        return v

    def kind_fact(self, ex, kind, v):
        return kind_pred(ex, kind, v)

    def dispatch(self, ex, fn, args):
        for d in self.dispatchers:
            r = d(ex, fn, args)
            if r is not None:
                return r
        return None

    # the remaining interface is provided by lib.py


# ---------------------------------------------------------------------------
class Result:
    def __init__(self, qual):
        self.qual = qual
        self.ok = False
        self.obligations = []   # (name, status, backend, secs, line, kind)
        self.error = None
        self.paths = 0
        self.wall = 0
        self.vacuous = False
        self.used = []
        self.models = []
        self.failed = []


def reg_of(ex, fn):
    return ex.reg.classes.get(fn.cls.name, {}) if fn.cls is not None else {}


def run_one(ex, con, fn):
    ex.fname = con.qual
    ex.cut = con
    vars = {}
    a = fn.node.args
    names = [p.arg for p in a.posonlyargs + a.args + a.kwonlyargs]
    if con.entry:
        con.entry(ex)
    for p in names:
        k = con.params.get(p)
        if k is None:
            if p == 'self':
                k = 'ref:' + fn.cls.name
            elif p == 'cls':
                vars[p] = fn.cls
                continue
            else:
                k = 'any'
        if k == 'fn':
            continue
        v = fresh_of(ex, k, p, frozen=None if p in con.mutates else 'parameter')
        if isinstance(v, ExprRef):
            if con_of(v) == 'VRef':
                ex.assume(v.arg(0) <= 0)
                if is_int_value(v.arg(0)):
                    raise Unsupported('fresh parameter')
        vars[p] = v
    if a.vararg:
        vars[a.vararg.arg] = VTup(ex.fresh('varargs', Seq))
    if a.kwarg:
        vars[a.kwarg.arg] = Cont(ex, 'dict', ex.fresh('kwargs', Map), frozen='parameter')
    c = CallCtx(ex, con, fn, vars)
    if con.setup:
        con.setup(ex, c)
    for lab, f in con.pre(c):
        ex.assume(f)
    c.snapshot()
    raises = con.raises_list(c)
    body_vars = dict(vars)
    if fn.node.name == '__init__' and 'inv' in reg_of(ex, fn):
        ex.dirty.append((c.ref(names[0]), fn.cls.name))
    try:
        r = ex.run_body(fn, body_vars, site=(0, fn.qual), contract=con, on_yield=con.on_yield)
    except PyRaise as pr:
        ex.flush_dirty('on exception')
        for ec, cond, post, attrs in raises:
            if pr.exc.cls.isa(ec) and all(
                    k in pr.exc.attrs and ex.follows(ex.tov(pr.exc.attrs[k]) == x)
                    for k, x in attrs.items()):
                if cond is not None:
                    ex.prove(cond, f'raises {ec.name} only when specified', kind='raise')
                for lab, f in (post(c) if post else []):
                    ex.prove(f, f'on {ec.name}: {lab}', kind='post')
                break
        else:
            ex.prove(BoolVal(False), f'no {pr.exc.cls.name} raised', kind='raise')
        check_frame(ex, con, c)
        ex.run.exits.append(list(ex.facts))
        return
    ex.flush_dirty('at return')
    for ec, cond, post, attrs in raises:
        if cond is not None:
            ex.prove(Not(cond), f'returns normally only when no {ec.name} is due', kind='raise')
    rv = c.resval(r)
    k = con.returns
    if k and k not in ('any', 'iter') and not con.result:
        if k.startswith('tuple:'):
            ks = k[6:].split(',')
            if isinstance(r, PTuple) and len(r.items) == len(ks):
                for i, kk in enumerate(ks):
                    ex.prove(kind_pred(ex, kk, ex.tov(r.items[i])), f'result[{i}] is {kk}',
                             kind='post')
            else:
                ex.prove(BoolVal(False), f'result is {k}', kind='post')
        else:
            if k.startswith('fresh:'):
                ex.prove(And(kind_pred(ex, 'ref:' + k[6:], rv), acc('VRef', 0, rv) > 0),
                         f'result is a new {k[6:]}', kind='post')
            else:
                ex.prove(kind_pred(ex, k, rv), f'result is {k}', kind='post')
    for lab, f in con.post(c, rv):
        ex.prove(f, f'ensures {lab}', kind='post')
    check_frame(ex, con, c)
    ex.run.exits.append(list(ex.facts))


def check_frame(ex, con, c):
    allowed = set(con.modifies) | set(con.cache_keys(ex))
    if con.modifies_fn:
        allowed |= set(con.modifies_fn(c))
    for key, a in sorted(ex.heap.items()):
        a0 = c.oldarr(key)
        if key in allowed or a.eq(a0):
            continue
        b = a
        while z3.is_store(b) and is_int_value(b.arg(1)) and b.arg(1).as_long() > 0:
            b = b.arg(0)
        if b.eq(a0):
            continue
        r = ex.fresh('r', Int_)
        ex.prove(Implies(r <= 0, z3.Select(b, r) == z3.Select(a0, r)),
                 f'frame: {key} unchanged', kind='frame')
    for key in ex.reg.rely:
        if key in ex.heap and not ex.heap[key].eq(c.oldarr(key)):
            ex.prove(ex.rely(con, c, key, True), f'frame: {key} is only filled in', kind='frame')
    for key, exc in con.frame(ex, c):
        a, a0 = ex.hkey(key), c.oldarr(key)
        if a.eq(a0):
            continue
        r = ex.fresh('r', Int_)
        ex.prove(Implies(And(r <= 0, *[r != x for x in exc]), z3.Select(a, r) ==
                         z3.Select(a0, r)), f'frame: {key} unchanged elsewhere', kind='frame')


def explore(prog, reg, con, fn, run, groups):
    """All paths of the function; fills run.vcs."""
    restarts = 0
    while True:
        run.vcs = {}
        run.exits = []
        decisions = []
        paths = 0
        try:
            while True:
                ex = Interp(prog, reg, run, decisions, groups)
                try:
                    run_one(ex, con, fn)
                except PathEnd:
                    pass
                except (BreakEx, ContinueEx, ReturnEx):
                    raise Unsupported('control flow escaped')
                paths += 1
                if solve.left() <= 0:
                    raise Unsupported('time limit of the whole check')
                if paths > con.max_paths:
                    raise Unsupported('too many paths')
                # decisions beyond what was used on this path cannot exist
                del decisions[ex.dpos:]
                while decisions and not decisions[-1][1]:
                    decisions.pop()
                if not decisions:
                    run.paths = paths
                    return
                d = decisions[-1]
                d[0] = d[1].pop(0)
        except Restart:
            restarts += 1
            if restarts > 60:
                raise Unsupported('loop havoc sets do not stabilise')


_HINTS = []


def hints(qual):
    """Loop invariant candidates that did not hold when the function was last verified in full
    (tools/mkhints.py). Leaving a candidate out is always sound; it only saves the rounds that
    would find out again. If the function does not verify with them left out, they are tried."""
    if not _HINTS:
        f = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'hints.json')
        _HINTS.append(json.load(open(f)) if os.path.exists(f) else {})
    return frozenset(_HINTS[0].get(qual, ()))


def verify(prog, reg, qual, jobs=4, log=None, use_hints=True):
    h = hints(qual) if use_hints else frozenset()
    if h:
        r = verify1(prog, reg, qual, jobs, log, h)
        if r.ok or solve.left() <= 0:
            return r
        w = r.wall
        r = verify1(prog, reg, qual, jobs, log, frozenset())
        r.wall += w
        return r
    return verify1(prog, reg, qual, jobs, log, h)


def verify1(prog, reg, qual, jobs=4, log=None, hints=frozenset()):
    """Verifies one function against its contract. Returns a Result."""
    res = Result(qual)
    t0 = time.time()
    con = reg.contracts[qual]
    try:
        fn = prog.func(qual)
        if fn is None:
            res.error = f'{qual} does not exist in the source'
            res.failed.append((f'{qual}: function exists', res.error))
            return res
        run = Run()
        run.hints = hints
        rounds = 0
        while True:
            explore(prog, reg, con, fn, run, None)
            vcs = list(run.vcs.values())
            for v in vcs:
                v.nl = con.nl
                v.hide = con.hide
            cand = [v for v in vcs if v.cand is not None and v.status is None]
            rounds += 1
            if not cand:
                break
            solve.solve_all(cand, reg, jobs, effort=0 if rounds < 12 else 1)
            bad = {v.cand for v in cand if v.status != 'proved'}
            if log:
                for v in cand:
                    if v.status != 'proved':
                        log(f'  drop {v.cand[1]} ({v.name})')
            if not bad:
                break
            run.removed |= bad
        rest = [v for v in run.vcs.values() if v.status is None]
        solve.solve_all(rest, reg, jobs, effort=1 if con.rlimit is None else con.rlimit,
                        final=True)
        res.paths = run.paths
        for v in run.vcs.values():
            res.obligations.append((v.name, v.status, v.backend, v.time, v.line, v.kind))
            if v.status != 'proved':
                res.failed.append((v.name + f' (line {v.line})', v.detail or v.status))
        res.vcs = run.vcs
        res.run = run
        # vacuity: some exit must be reachable
        if run.exits:
            res.vacuous = solve.all_unsat(run.exits, reg)
            if res.vacuous:
                res.failed.append((f'{qual}: assumptions consistent', 'every exit is unreachable'))
        else:
            res.failed.append((f'{qual}: reaches an exit', 'no path reaches an exit'))
        res.ok = not res.failed
        res.notes = sorted(run.notes)
        res.lines = sorted(run.lines)
    except Unsupported as e:
        res.error = f'unsupported: {e}'
        res.failed.append((f'{qual}: obligations can be generated', str(e)))
    except RecursionError as e:
        res.error = 'recursion'
        res.failed.append((f'{qual}: obligations can be generated', 'recursion limit'))
    except Exception as e:
        res.error = f'{type(e).__name__}: {e}\n' + traceback.format_exc()
        res.failed.append((f'{qual}: obligations can be generated', res.error))
    res.wall = time.time() - t0
    return res
