"""Symbolic interpreter: executes the functions of /repo/arroba path by path over symbolic
values, cutting loops at invariants and calls at contracts, and collects verification
conditions."""
import ast, os, sys, time
import z3
from theory import *
from values import *

sys.setrecursionlimit(20000)

MAX_PATHS = 4000
MAX_INLINE = 14


class DeadScope(Exception):
    pass


class NoJoin(Exception):
    """The two sides of this branch cannot be joined."""


class ConMap(dict):
    pass


class _Unbound:
    def __repr__(self):
        return 'UNBOUND'


UNBOUND = _Unbound()


class Env:
    def __init__(self, parent=None, mod=None):
        self.vars, self.parent, self.mod = {}, parent, mod
        self.nonlocals, self.globals = set(), set()

    def find(self, name):
        e = self
        while e is not None:
            if name in e.vars:
                return e
            e = e.parent
        return None


# ---------------------------------------------------------------------------
class Module:
    def __init__(self, prog, name, path):
        self.prog, self.name, self.path = prog, name, path
        self.src = open(path).read()
        self.tree = ast.parse(self.src)
        self.defs = {}      # name -> ast node or ('import', ...) or value
        self.cache = {}
        self.mutable = set()
        self._index(self.tree.body)
        for n in ast.walk(self.tree):
            if isinstance(n, ast.Global):
                self.mutable.update(n.names)

    def _index(self, body):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                self.defs[st.name] = st
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.defs[t.id] = st
                    elif isinstance(t, ast.Attribute):
                        pass
                    elif isinstance(t, ast.Tuple):
                        for x in t.elts:
                            if isinstance(x, ast.Name):
                                self.defs[x.id] = st
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                self.defs[st.target.id] = st
            elif isinstance(st, ast.Import):
                for a in st.names:
                    self.defs[a.asname or a.name.split('.')[0]] = (
                        'lib', a.name if a.asname else a.name.split('.')[0])
            elif isinstance(st, ast.ImportFrom):
                for a in st.names:
                    if st.level:
                        self.defs[a.asname or a.name] = ('repo', st.module, a.name)
                    else:
                        self.defs[a.asname or a.name] = ('lib', f'{st.module}.{a.name}')
            elif isinstance(st, ast.Try):
                self._index(st.body)
            elif isinstance(st, ast.If):
                self._index(st.body)


class Program:
    def __init__(self):
        self.mods = {}
        d = os.path.join(REPO, 'arroba')
        for fn in sorted(os.listdir(d)):
            if fn.endswith('.py'):
                n = fn[:-3]
                self.mods[n] = Module(self, n, os.path.join(d, fn))
        self.classes = {}
        for m in self.mods.values():
            for n, st in m.defs.items():
                if isinstance(st, ast.ClassDef):
                    self._class(m, n)

    def _class(self, m, n):
        q = f'{m.name}.{n}'
        if q in self.classes:
            return self.classes[q]
        st = m.defs[n]
        if q in ENUMS:
            return EnumV(q)
        c = ClassV(q, m, st, [])
        self.classes[q] = c
        for b in st.bases:
            v = None
            if isinstance(b, ast.Name):
                v = self.resolve_name(m, b.id, cls_only=True)
            elif isinstance(b, ast.Attribute) and isinstance(b.value, ast.Name):
                base = self.resolve_name(m, b.value.id, cls_only=True)
                if isinstance(base, ModV):
                    v = self.resolve_name(self.mods[base.name], b.attr, cls_only=True)
                elif isinstance(base, LibV):
                    v = LibV(base.name + '.' + b.attr)
            if isinstance(v, ExcClass):
                c.is_exc = True
            if v is not None:
                c.bases.append(v)
        for s in st.body:
            if isinstance(s, ast.FunctionDef):
                kind = 'func'
                for d in s.decorator_list:
                    dn = d.id if isinstance(d, ast.Name) else getattr(d, 'attr', None)
                    if dn in ('property', 'classmethod', 'staticmethod'):
                        kind = dn
                c.members[s.name] = FuncV(s, m, None, f'{q}.{s.name}', c, kind)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        c.members[t.id] = s.value
        c.fields = set()
        for k in ast.walk(st):
            if (isinstance(k, ast.Attribute) and isinstance(k.ctx, (ast.Store, ast.Del))
                    and isinstance(k.value, ast.Name) and k.value.id == 'self'):
                c.fields.add(k.attr)
        for k, v in c.members.items():
            if not isinstance(v, FuncV):
                c.fields.add(k)
        return c

    def resolve_name(self, m, name, cls_only=False):
        d = m.defs.get(name)
        if d is None:
            if name in EXC:
                return EXC[name]
            return None
        if isinstance(d, ast.ClassDef):
            v = self._class(m, name)
            if isinstance(v, ClassV) and v.is_exc:
                return exc_of_class(v)
            return v
        if isinstance(d, tuple) and d[0] == 'repo':
            _, modname, nm = d
            if modname is None:
                return ModV(nm)
            if modname in self.mods:
                if nm in self.mods[modname].defs:
                    return self.resolve_name(self.mods[modname], nm, cls_only)
            return None
        if isinstance(d, tuple) and d[0] == 'lib':
            last = d[1].split('.')[-1]
            if last in EXC:
                return EXC[last]
            return LibV(d[1])
        if isinstance(d, ast.FunctionDef):
            return FuncV(d, m, None, f'{m.name}.{name}')
        if isinstance(d, ast.Assign) and f'{m.name}.{name}' in NTS:
            return NTClass(f'{m.name}.{name}')
        return d

    def mro(self, c):
        out = [c]
        for b in c.bases:
            if isinstance(b, ClassV):
                out += [x for x in self.mro(b) if x not in out]
        # diamond: keep it simple, move common bases to the end
        return out

    def member(self, c, name):
        for k in self.mro(c):
            if name in k.members:
                return k, k.members[name]
        return None, None

    def field_owner(self, c, name):
        owner = None
        for k in self.mro(c):
            if name in getattr(k, 'fields', ()):
                owner = k
        return (owner or c).name

    def func(self, qual):
        parts = qual.split('.')
        m = self.mods[parts[0]]
        if len(parts) == 2:
            v = self.resolve_name(m, parts[1])
            return v if isinstance(v, FuncV) else None
        c = self.classes.get('.'.join(parts[:2]))
        if c is None:
            return None
        k, f = self.member(c, parts[2])
        return f if isinstance(f, FuncV) else None

    def subclasses(self, name):
        return [c.name for c in self.classes.values()
                if any(k.name == name for k in self.mro(c))]


_exc_classes = {}


def exc_of_class(c):
    if c.name not in _exc_classes:
        e = ExcClass(c.name.split('.')[-1], [b for b in c.bases if isinstance(b, ExcClass)])
        e.classv = c
        _exc_classes[c.name] = e
    return _exc_classes[c.name]


# ---------------------------------------------------------------------------
class VC:
    __slots__ = ('name', 'facts', 'goal', 'kind', 'cand', 'line', 'status', 'backend', 'time',
                 'detail', 'path', 'nl', 'hide')

    def __init__(self, name, facts, goal, kind, cand=None, line=0, path=()):
        self.name, self.facts, self.goal, self.kind, self.cand, self.line = (
            name, facts, goal, kind, cand, line)
        self.status = self.backend = self.detail = None
        self.time = 0.0
        self.path = path
        self.nl = False
        self.hide = ()


class Run:
    """State shared by all paths of one function's verification."""

    def __init__(self):
        self.loops = {}      # loopkey -> {'vars','conts','fields'}
        self.removed = set()  # (loopkey, candkey)
        self.hints = frozenset()   # names of candidates known not to be invariant: not tried
        self.loopname = {}    # loopkey -> name independent of line numbers
        self.vcs = {}        # key -> VC
        self.exits = []      # facts at each exit, for the vacuity check
        self.notes = set()
        self.lines = set()
        self.uses = set()


class Exec:
    def __init__(self, prog, reg, run, decisions, groups):
        self.prog, self.reg, self.run = prog, reg, run
        self.decisions, self.dpos = decisions, 0
        self.facts = []
        self.factids = set()
        self.heap = {}
        self.heap0 = {}
        self.fresh_n = 0
        self.conts = 0
        self.refs = 0
        self.depth = 0
        self.dirty = []       # [(refterm, classname)]
        self.inv_seen = set()
        self.fname = ''
        self.line = 0
        self.loopstack = []   # active loop records, for mutation tracking
        self.obl_n = {}
        self.groups = groups
        self.solver = z3.Solver()
        self.solver.set('timeout', 150)
        self.solver_n = 0
        self.callpath = []
        self.frames = []
        self.globals_cache = {}
        self.ref_cls = {}     # term sexpr -> class name
        self.ghost = {}
        self.data = {}        # per-path scratch for contracts and models
        self.cut = None
        self.lits_fact = set()
        self.keep = []
        self.nofork = False
        self.in_scope = False

    # -- facts / branching ---------------------------------------------------
    def assume(self, f):
        if isinstance(f, bool):
            f = BoolVal(f)
        if is_true(f):
            return
        if f.get_id() in self.factids:
            return
        if z3.is_and(f) and has_quant(f):
            for c in f.children():
                self.assume(c)
            return
        self.factids.add(f.get_id())
        self.facts.append(f)
        if z3.is_and(f):
            for c in f.children():
                self.factids.add(c.get_id())

    def _sync(self):
        while self.solver_n < len(self.facts):
            f = self.facts[self.solver_n]
            if not has_quant(f):
                self.solver.add(f)
            self.solver_n += 1
        # literal facts for whatever literals exist by now
        for (k, s), c in list(_lits_items()):
            if c.get_id() not in self.lits_fact:
                self.lits_fact.add(c.get_id())
                if k == 's':
                    self.solver.add(litid(c) == z3.IntVal(c.get_id()), STR.len_(c) == len(s))
                else:
                    self.solver.add(blitid(c) == z3.IntVal(c.get_id()), BYT.len_(c) == len(s))

    def feasible(self, c):
        self._sync()
        return self.solver.check(c) != z3.unsat

    def branch(self, c, why=''):
        """Takes one side of a boolean term; the other side becomes another path."""
        if isinstance(c, bool):
            return c
        c = simplify(c)
        if is_true(c):
            return True
        if is_false(c):
            return False
        if c.get_id() in self.factids:
            return True
        if z3.is_not(c) and c.arg(0).get_id() in self.factids:
            pass
        nc = simplify(Not(c))
        if nc.get_id() in self.factids:
            return False
        if self.nofork:
            t, f = self.feasible(c), self.feasible(nc)
            if t == f and self.in_scope:
                t, f = not self.follows(nc), not self.follows(c)
            if t == f:
                if self.in_scope and not t:
                    raise DeadScope()
                raise NoJoin()
            self.assume(c if t else nc)
            return t
        if self.dpos < len(self.decisions):
            ch = self.decisions[self.dpos][0]
        else:
            t = self.feasible(c)
            f = self.feasible(nc)
            if not t and not f:
                self.decisions.append([0, []])
                self.dpos += 1
                raise PathEnd('infeasible')
            if t and f:
                self.decisions.append([True, [False]])
                ch = True
            else:
                ch = t
                self.decisions.append([ch, []])
        self.dpos += 1
        if ch == 0 and ch is not False:
            raise PathEnd('infeasible')
        self.assume(c if ch else nc)
        return ch

    def choose(self, n, why=''):
        """Unconditional n-way fork."""
        if n == 1:
            return 0
        if self.nofork:
            raise NoJoin()
        if self.dpos >= len(self.decisions):
            self.decisions.append([0, list(range(1, n))])
        ch = self.decisions[self.dpos][0]
        self.dpos += 1
        return ch

    def entails(self, c):
        c = simplify(c)
        if is_true(c) or c.get_id() in self.factids:
            return True
        if is_false(c):
            return False
        self._sync()
        return self.solver.check(Not(c)) == z3.unsat

    def follows(self, c):
        """entails, with the quantified facts and axioms too (resource-limited)"""
        import solve
        ids = tuple(f.get_id() for f in self.facts[-40:]) + (len(self.facts), c.get_id())
        cache = self.run.__dict__.setdefault('follows', {})
        if ids not in cache:
            r, why, s = solve.check(self.facts, c, 300_000, 0, solve.LITE)
            cache[ids] = r == z3.unsat
            self.run.__dict__.setdefault('keepfacts', []).append((c, list(self.facts)))
        return cache[ids]

    def scoped(self, hyps, thunk):
        """Evaluates under additional assumptions, without forking and without effects (caches
        may be filled in). Returns the result; obligations met on the way are recorded."""
        save = (list(self.facts), set(self.factids), self.solver_n, set(self.lits_fact),
                self.nofork, self.in_scope, dict(self.ref_cls))
        heap = dict(self.heap)
        inv = set(self.inv_seen)
        self._sync()
        self.solver.push()
        try:
            self.nofork = self.in_scope = True
            for h in hyps:
                self.assume(h)
            r = thunk()
        except NoJoin:
            self.unsupported('undecided branch in a key or predicate function')
        finally:
            for k in self.heap:
                if k not in heap:
                    heap[k] = self.heap0[k]
            changed = [k for k in self.heap if not self.heap[k].eq(heap[k])]
            for k, a in heap.items():
                self.heap[k] = a
            self.solver.pop()
            n = self.solver_n
            (self.facts, self.factids, self.solver_n, self.lits_fact, self.nofork,
             self.in_scope, self.ref_cls) = save
            self.solver_n = min(len(self.facts), n)
            self.inv_seen = inv
        for k in changed:
            if k not in self.reg.cache_fields:
                self.unsupported(f'key or predicate function changes {k}')
            old = self.heap[k]
            self.heap_havoc(k)
            if k in self.reg.rely:      # each call in there kept it, so they all did
                self.assume(self.reg.rely[k](old, self.heap[k], []))
        return r

    # -- obligations ----------------------------------------------------------
    def prove(self, goal, label, kind='post', cand=None):
        if isinstance(goal, bool):
            goal = BoolVal(goal)
        if self.nofork and not self.in_scope:
            raise NoJoin()
        g = simplify(goal)
        if not is_true(g):
            base = tuple(str(d[0]) for d in self.decisions[:self.dpos])
            n = self.obl_n.get((base, label), 0)
            self.obl_n[(base, label)] = n + 1
            key = (base, label, n)
            if key not in self.run.vcs:
                self.run.vcs[key] = VC(f'{self.fname}:{label}', list(self.facts), goal, kind,
                                       cand, self.line, base)
        else:
            key = ('trivial', label)
            if key not in self.run.vcs:
                vc = VC(f'{self.fname}:{label}', [], goal, kind, cand, self.line)
                vc.status, vc.backend = 'proved', 'simplifier'
                self.run.vcs[key] = vc
        self.assume(goal)

    def fail(self, label):
        """An obligation that this point is unreachable."""
        self.prove(BoolVal(False), label, kind='unreachable')
        raise PathEnd('unreachable')

    def unsupported(self, what):
        raise Unsupported(f'{what} (line {self.line} of {self.fname})')

    def fresh(self, name, sort=Val):
        self.fresh_n += 1
        return Const(f'{name}!{self.fresh_n}', sort)

    def new_ref(self, cls, tag=None):
        self.refs += 1
        r = IntVal(self.refs)
        self.assume(cls_(r) == cls_id(cls))
        v = VRef(r)
        self.ref_cls[r.sexpr()] = cls
        return v

    # -- heap -------------------------------------------------------------------
    def hkey(self, key):
        if key not in self.heap:
            a = Const(f'H.{key}', z3.ArraySort(Int_, Val))
            self.heap[key] = a
            self.heap0[key] = a
        return self.heap[key]

    def heap_get(self, key, ref):
        a = self.hkey(key)
        # skip stores at provably different references
        while z3.is_store(a):
            i = a.arg(1)
            if i.eq(ref):
                return a.arg(2)
            if is_int_value(i) and is_int_value(ref):
                a = a.arg(0)
                continue
            if self.data.get('distinct') and (i.sexpr(), ref.sexpr()) in self.data['distinct']:
                a = a.arg(0)
                continue
            break
        return z3.Select(a, ref)

    def heap_set(self, key, ref, v):
        a = self.hkey(key)
        if z3.is_store(a) and a.arg(1).eq(ref):
            a = a.arg(0)
        self.heap[key] = z3.Store(a, ref, v)
        for L in self.loopstack:
            L['touched_fields'].add(key)

    def heap_havoc(self, key):
        self.hkey(key)
        self.fresh_n += 1
        self.heap[key] = Const(f'H.{key}!{self.fresh_n}', z3.ArraySort(Int_, Val))
        for L in self.loopstack:
            L['touched_fields'].add(key)

    def note_mutation(self, cont):
        if cont.home:
            return
        for L in self.loopstack:
            if cont.no <= L['conts_before']:
                L['touched_conts'].add(cont.no)

    # -- containers and values -------------------------------------------------------
    def payload(self, v, kind):
        n = {'list': 'VList', 'dict': 'VDict', 'set': 'VSet', 'deque': 'VList'}[kind]
        return acc(n, 0, v)

    def wrap(self, kind, t):
        return {'list': VList, 'dict': VDict, 'set': VSet, 'deque': VList}[kind](t)

    def mklist(self, seq, frozen=None):
        return Cont(self, 'list', seq, frozen=frozen)

    def tov(self, pv, why='stored'):
        """To a Val term. Containers become immutable values from here on."""
        if isinstance(pv, ExprRef):
            return pv
        if isinstance(pv, Cont):
            if not pv.home and not pv.frozen:
                pv.frozen = why
            return self.wrap(pv.kind, pv.t)
        if isinstance(pv, PNt):
            return CONS[pv.name](*[self.tov(x, why) for x in pv.items])
        if isinstance(pv, PTuple):
            return VTup(SEQ.lit([self.tov(x, why) for x in pv.items]))
        if isinstance(pv, IterV):
            return VList(pv.seq)
        if pv is None:
            return VNone
        if isinstance(pv, (FuncV, BoundV, ClassV, LibV, ModelV, OpaqueFn, NTClass, ExcV, ModV,
                           CtxV, RegexV, EnumV, ExcClass)):
            d = self.data.setdefault('objs', {})
            if id(pv) not in d:
                t = VOpq(Const(f'obj!{type(pv).__name__}!{len(d)}', Opq))
                d[id(pv)] = (t, pv)
                self.data.setdefault('objs_by_term', {})[t.get_id()] = pv
            return d[id(pv)][0]
        self.unsupported(f'value {type(pv).__name__} used as data')

    def unobj(self, v):
        if isinstance(v, ExprRef):
            o = self.data.get('objs_by_term', {}).get(v.get_id())
            if o is not None:
                return o
        return v

    def peek(self, x):
        """The current value, for a callee that does not keep it."""
        return self.wrap(x.kind, x.t) if isinstance(x, Cont) else self.tov(x)

    def con(self, v):
        """Constructor name of a Val term if known on this path (no forking)."""
        c = con_of(v)
        if c:
            return c
        k = self.data.setdefault('con', ConMap())
        if v.get_id() in k:
            return k[v.get_id()]
        for n, r in RECOG.items():
            if self.hasfact(r(v)):
                self.setcon(v, n)
                return n
        if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_ITE:
            a, b = self.con(v.arg(1)), self.con(v.arg(2))
            if a is not None and a == b:
                self.setcon(v, a)
                return a
        return None

    def setcon(self, v, n):
        self.keep.append(v)
        self.data.setdefault('con', ConMap())[v.get_id()] = n

    def hasfact(self, f):
        return f.get_id() in self.factids

    def con_slow(self, v, among=None):
        c = self.con(v)
        if c:
            return c
        for n in (among or RECOG):
            if self.entails(RECOG[n](v)):
                self.setcon(v, n)
                return n
        return None

    def want(self, v, name, what='operand'):
        """Payload of v as constructor `name`; TypeError on the other side."""
        if isinstance(v, (Cont, PTuple, IterV)):
            v = self.tov(v)
        if not isinstance(v, ExprRef):
            self.raise_('TypeError')
        if con_of(v) == name:
            return v.arg(0)
        if self.con(v) != name:
            if not self.branch(RECOG[name](v)):
                self.raise_('TypeError')
            self.setcon(v, name)
        return acc(name, 0, v)

    def as_int(self, v):
        if isinstance(v, ExprRef):
            if con_of(v) == 'VBool':
                return If(v.arg(0), IntVal(1), IntVal(0))
            if self.con(v) == 'VBool':
                return If(acc('VBool', 0, v), IntVal(1), IntVal(0))
        return self.want(v, 'VInt')

    def as_str(self, v):
        return self.want(v, 'VStr')

    def raise_(self, name, *args, attrs=None):
        e = EXC.get(name)
        raise PyRaise(ExcV(e, args, attrs))

    # sequence view of any iterable value with a known extent
    def seq_of(self, v):
        v = self.unobj(v)
        if isinstance(v, Cont):
            if v.kind in ('list', 'deque'):
                return v.t
            return mkeys(v.t)
        if isinstance(v, PTuple):
            return SEQ.lit([self.tov(x) for x in v.items])
        if isinstance(v, IterV):
            if v.wrap is None:
                if is_int_value(v.pos) and v.pos.as_long() == 0:
                    return v.seq
                return SEQ.sub(v.seq, v.pos, SEQ.len(v.seq))
        if isinstance(v, (RangeV, ZipV)):
            return self.materialize(v)
        if isinstance(v, ExprRef):
            c = self.con_slow(v, ['VList', 'VTup', 'VDict', 'VSet', 'VStr', 'VByt', 'VRef'])
            if c == 'VRef':
                h = self.reg.libclasses.get(self.class_of(v), {}).get('__seq__')
                if h:
                    return h(self, v)
                self.unsupported(f'iteration over {self.class_of(v)}')
            if c in ('VList', 'VTup'):
                return acc(c, 0, v)
            if c in ('VDict', 'VSet'):
                return mkeys(acc(c, 0, v))
            if c == 'VStr':
                return self.chars(acc(c, 0, v))
            if c == 'VByt':
                return self.bytes_seq(acc(c, 0, v))
            if c is None and not isinstance(v, Cont):
                for n in ('VList', 'VTup', 'VDict', 'VSet'):
                    if self.branch(RECOG[n](v)):
                        self.setcon(v, n)
                        return acc(n, 0, v) if n in ('VList', 'VTup') else mkeys(acc(n, 0, v))
            self.raise_('TypeError')
        self.unsupported(f'iteration over {type(v).__name__}')

    def chars(self, s):
        lit = lit_of(s)
        if lit is not None:
            return SEQ.lit([vs(c) for c in lit])
        f = Function('chars', Str, Seq)
        return f(s)

    def single_char(self, t):
        """t is a payload term of an element of chars(s)."""
        if t.decl().eq(ACC['VStr'][0]) and t.arg(0).decl().eq(SEQ.at_) and \
                t.arg(0).arg(0).decl().name() == 'chars':
            s, i = t.arg(0).arg(0).arg(0), t.arg(0).arg(1)
            if self.entails(And(0 <= i, i < SEQ.len_(t.arg(0).arg(0)))):
                self.assume(t == STR.unit_(STR.at_(s, i)))
                return True
        return False

    def bytes_seq(self, b):
        f = Function('byteseq', Byt, Seq)
        return f(b)

    def materialize(self, v):
        items = self.concrete_items(v)
        if items is not None:
            return SEQ.lit([self.tov(x) for x in items])
        n, elem, _ = self.iter_spec(v)
        t = self.fresh('mat', Seq)
        self.assume(SEQ.len_(t) == n)
        i = Int('i')
        e = self.tov(elem(i))
        self.assume(FA([i], Implies(And(0 <= i, i < n), SEQ.at_(t, i) == e), SEQ.at_(t, i)))
        return t

    # -- truth, equality, comparison --------------------------------------------------
    def truth(self, v):
        """z3 Bool for Python truthiness."""
        v = self.unobj(v)
        if isinstance(v, bool):
            return BoolVal(v)
        if isinstance(v, Cont):
            if v.kind in ('list', 'deque'):
                return SEQ.len(v.t) > 0
            return SEQ.len(mkeys(v.t)) > 0
        if isinstance(v, PTuple):
            return BoolVal(len(v.items) > 0)
        if isinstance(v, IterV):
            return BoolVal(True)
        if not isinstance(v, ExprRef):
            return BoolVal(True)
        c = self.con(v)
        if c is None:
            c = None
            # build a term covering every constructor
            t = BoolVal(True)
            for n, e in (('VNone', lambda: BoolVal(False)),
                         ('VAbsent', lambda: BoolVal(False)),
                         ('VBool', lambda: acc('VBool', 0, v)),
                         ('VInt', lambda: acc('VInt', 0, v) != 0),
                         ('VReal', lambda: acc('VReal', 0, v) != 0),
                         ('VStr', lambda: STR.len(acc('VStr', 0, v)) > 0),
                         ('VByt', lambda: BYT.len(acc('VByt', 0, v)) > 0),
                         ('VList', lambda: SEQ.len(acc('VList', 0, v)) > 0),
                         ('VTup', lambda: SEQ.len(acc('VTup', 0, v)) > 0),
                         ('VDict', lambda: SEQ.len(mkeys(acc('VDict', 0, v))) > 0),
                         ('VSet', lambda: SEQ.len(mkeys(acc('VSet', 0, v))) > 0)):
                t = If(RECOG[n](v), e(), t)
            return t
        if c in ('VNone', 'VAbsent'):
            return BoolVal(False)
        if c == 'VBool':
            return acc(c, 0, v)
        if c == 'VInt':
            return acc(c, 0, v) != 0
        if c == 'VReal':
            return acc(c, 0, v) != 0
        if c == 'VStr':
            return STR.len(acc(c, 0, v)) > 0
        if c == 'VByt':
            return BYT.len(acc(c, 0, v)) > 0
        if c in ('VList', 'VTup'):
            return SEQ.len(acc(c, 0, v)) > 0
        if c in ('VDict', 'VSet'):
            return SEQ.len(mkeys(acc(c, 0, v))) > 0
        if c == 'VRef':
            cn = self.class_of(v)
            if cn in self.prog.classes:
                for m in ('__bool__', '__len__'):
                    k, f = self.prog.member(self.prog.classes[cn], m)
                    if f is not None:
                        self.unsupported(f'{m} of {cn}')
            if cn in self.reg.libclasses and 'truth' in self.reg.libclasses[cn]:
                return self.reg.libclasses[cn]['truth'](self, v)
        return BoolVal(True)

    def test(self, v):
        if isinstance(v, bool):
            return v
        return self.branch(self.truth(v))

    def eq(self, a, b):
        """z3 Bool for a == b."""
        a, b = self.unobj(a), self.unobj(b)
        if not isinstance(a, ExprRef) and not isinstance(b, ExprRef):
            if isinstance(a, PTuple) and isinstance(b, PTuple):
                if len(a.items) != len(b.items):
                    return BoolVal(False)
                return And(*[self.eq(x, y) for x, y in zip(a.items, b.items)])
            if isinstance(a, Cont) or isinstance(b, Cont):
                return self.eq_cont(a, b)
            return BoolVal(a is b)
        if isinstance(a, Cont) or isinstance(b, Cont):
            return self.eq_cont(a, b)
        a, b = self.tov(a), self.tov(b)
        ca, cb = self.con(a), self.con(b)
        if ca and cb and ca != cb:
            if {ca, cb} == {'VBool', 'VInt'}:
                return self.as_int(a) == self.as_int(b)
            if {ca, cb} == {'VReal', 'VInt'}:
                ra = z3.ToReal(acc(ca, 0, a)) if ca == 'VInt' else acc(ca, 0, a)
                rb = z3.ToReal(acc(cb, 0, b)) if cb == 'VInt' else acc(cb, 0, b)
                return ra == rb
            return BoolVal(False)
        if ca == 'VInt' and cb == 'VInt':
            return acc('VInt', 0, a) == acc('VInt', 0, b)
        if ca == 'VInt' and cb is None:
            return Or(a == b, And(RECOG['VBool'](b), acc('VInt', 0, a) ==
                                  If(acc('VBool', 0, b), IntVal(1), IntVal(0))))
        if cb == 'VInt' and ca is None:
            return self.eq(b, a)
        if 'VBool' in (ca, cb) and None in (ca, cb):
            x, y = (a, b) if ca == 'VBool' else (b, a)
            return Or(x == y, And(RECOG['VInt'](y), acc('VInt', 0, y) ==
                                  If(acc('VBool', 0, x), IntVal(1), IntVal(0))))
        if ca in ('VStr', 'VNone', 'VByt', 'VCid', 'VEnum') or cb in ('VStr', 'VNone', 'VByt',
                                                                  'VCid', 'VEnum'):
            return a == b
        if ca == 'VRef' or cb == 'VRef' or (ca is None and cb is None):
            if ca is None and not self.branch(RECOG['VRef'](a)):
                return a == b
            if cb is None and not self.branch(RECOG['VRef'](b)):
                return a == b
            if self.con(a) != 'VRef' and not con_of(a) == 'VRef' and ca != 'VRef':
                pass
            cn = self.class_of(a)
            if cn in self.prog.classes:
                k, f = self.prog.member(self.prog.classes[cn], '__eq__')
                if f is not None:
                    return self.truth(self.call_function(f, [a, b], {}))
            return a == b
        return a == b

    def eq_cont(self, a, b):
        if isinstance(a, Cont) and isinstance(b, Cont):
            if a.kind in ('list', 'deque') and b.kind in ('list', 'deque'):
                return a.t == b.t
            ca = self.concrete_keys(a)
            cb = self.concrete_keys(b)
            # set / dict equality: same membership
            if cb is not None or ca is not None:
                big, small, keys = (a, b, cb) if cb is not None else (b, a, ca)
                # equal iff every concrete key is in `big` and big has that many keys
                return And(SEQ.len_(mkeys(big.t)) == SEQ.len_(mkeys(small.t)),
                           *[mget(big.t, k) != VAbsent for k in keys])
            return a.t == b.t
        x, y = (a, b) if isinstance(a, Cont) else (b, a)
        y = self.tov(y)
        n = {'list': 'VList', 'dict': 'VDict', 'set': 'VSet', 'deque': 'VList'}[x.kind]
        cy = self.con(y)
        if cy and cy != n:
            return BoolVal(False)
        return And(RECOG[n](y), acc(n, 0, y) == x.t)

    def concrete_keys(self, c):
        t, out = c.t, []
        while not t.eq(mempty):
            if t.decl().eq(mput):
                out.append(t.arg(1))
                t = t.arg(0)
            else:
                return None
        return out

    def is_same(self, a, b):
        a, b = self.unobj(a), self.unobj(b)
        if isinstance(a, ExprRef) and isinstance(b, ExprRef):
            return a == b
        if not isinstance(a, ExprRef) and not isinstance(b, ExprRef):
            return BoolVal(a is b)
        x, y = (a, b) if isinstance(a, ExprRef) else (b, a)
        if self.con(x) == 'VNone' or x.eq(VNone):
            return BoolVal(False)
        return self.tov(y) == x

    def less(self, a, b, strict=True):
        a, b = self.tov(a), self.tov(b)
        ca, cb = self.con(a), self.con(b)
        if ca is None and cb is None:
            for n in ('VStr', 'VInt', 'VReal'):
                if self.branch(RECOG[n](a)):
                    ca = n; self.setcon(a, ca)
                    break
        if ca == 'VStr' or cb == 'VStr':
            x, y = sord(self.as_str(a)), sord(self.as_str(b))
        elif ca == 'VTup' or cb == 'VTup':
            self.unsupported('tuple comparison')
        elif ca == 'VReal' or cb == 'VReal':
            x, y = self.as_real(a), self.as_real(b)
        else:
            x, y = self.as_int(a), self.as_int(b)
        return x < y if strict else x <= y

    def as_real(self, v):
        c = self.con(v)
        if c == 'VInt':
            return z3.ToReal(acc('VInt', 0, v))
        return self.want(v, 'VReal')

    def contains(self, x, c):
        c = self.unobj(c)
        if isinstance(c, PTuple):
            return Or(*[self.eq(x, y) for y in c.items]) if c.items else BoolVal(False)
        if isinstance(c, ExprRef):
            k = self.con_slow(c, ['VDict', 'VSet', 'VList', 'VTup', 'VStr'])
            if k in ('VDict', 'VSet'):
                return mget(acc(k, 0, c), self.tov(x)) != VAbsent
            if k == 'VStr':
                f = Function('strin', Str, Str, Bool_)
                return f(self.as_str(x), acc(k, 0, c))
            if k in ('VList', 'VTup'):
                c = Cont(self, 'list', acc(k, 0, c), frozen='value')
            elif k is None:
                if self.branch(RECOG['VDict'](c)):
                    return mget(acc('VDict', 0, c), self.tov(x)) != VAbsent
                if self.branch(RECOG['VList'](c)):
                    c = Cont(self, 'list', acc('VList', 0, c), frozen='value')
                else:
                    self.raise_('TypeError')
            else:
                self.raise_('TypeError')
        if isinstance(c, Cont):
            if c.kind in ('dict', 'set'):
                return mget(c.t, self.tov(x)) != VAbsent
            items = SEQ.concrete(c.t)
            if items is not None:
                return Or(*[self.eq(x, y) for y in items]) if items else BoolVal(False)
            xv = self.tov(x)
            i = Int('i')
            f = self.fresh('isin', Bool_)
            w = self.fresh('w', Int_)
            self.assume(Implies(f, And(0 <= w, w < SEQ.len_(c.t), SEQ.at_(c.t, w) == xv)))
            self.assume(Implies(Not(f), FA([i], Implies(And(0 <= i, i < SEQ.len_(c.t)),
                                                        SEQ.at_(c.t, i) != xv),
                                           SEQ.at_(c.t, i))))
            return f
        if isinstance(c, RangeV):
            xi = self.as_int(x)
            return And(c.lo <= xi, xi < c.hi)
        if isinstance(c, IterV):
            return self.contains(x, Cont(self, 'list', self.seq_of(c), frozen='value'))
        self.unsupported(f'in {type(c).__name__}')

    def class_of(self, v):
        """Class name of a VRef value, forking over the candidates if need be."""
        r = acc('VRef', 0, v)
        k = r.sexpr()
        if k in self.ref_cls:
            return self.ref_cls[k]
        for n in list(self.prog.classes) + list(self.reg.libclasses):
            f = cls_(r) == cls_id(n)
            if f.get_id() in self.factids:
                self.ref_cls[k] = n
                return n
        cands = []
        for n in list(self.prog.classes) + list(self.reg.libclasses):
            if n in self.reg.known_classes or n in self.reg.libclasses:
                cands.append(n)
        self._sync()
        for n in cands:
            if self.solver.check(cls_(r) != cls_id(n)) == z3.unsat:
                self.ref_cls[k] = n
                return n
        for n in self.reg.known_classes:
            if n in self.prog.classes and self.follows(cls_(r) == cls_id(n)):
                self.ref_cls[k] = n
                self.assume(cls_(r) == cls_id(n))
                return n
        for n in cands:
            if self.branch(cls_(r) == cls_id(n)):
                self.ref_cls[k] = n
                return n
        self.fail('object of an unexpected class')

    def set_class(self, v, name):
        r = acc('VRef', 0, v)
        self.ref_cls[r.sexpr()] = name
        self.assume(cls_(r) == cls_id(name))

    # -- invariants ------------------------------------------------------------------
    def inv_on_read(self, ref, cname, key):
        spec = self.reg.classes.get(cname)
        if not spec or 'inv' not in spec:
            return
        for r, c in self.dirty:
            if r.eq(ref):
                return
        arrs = [self.hkey(k) for k in spec['fields']]
        self.keep += arrs
        ver = tuple(a.get_id() for a in arrs)
        tag = (ref.sexpr(), ver)
        if tag in self.inv_seen:
            return
        self.inv_seen.add(tag)
        g = [ref != r for r, c in self.dirty
             if not (is_int_value(r) and is_int_value(ref))]
        for lab, f in spec['inv'](self, ref):
            self.assume(Implies(And(*g), f) if g else f)

    def flush_dirty(self, where, which=None):
        d, self.dirty = self.dirty, []
        if which is not None:
            self.dirty = [x for x in d if not which(*x)]
            d = [x for x in d if which(*x)]
        done = set()
        for r, cname in d:
            if r.sexpr() in done:
                continue
            done.add(r.sexpr())
            spec = self.reg.classes.get(cname)
            if spec and 'inv' in spec:
                for lab, f in spec['inv'](self, r):
                    self.prove(f, f'invariant {cname} {lab} {where}', kind='inv')

    # -- attribute access -----------------------------------------------------------
    def getattr_(self, o, name):
        o = self.unobj(o)
        if isinstance(o, ModV):
            return self.global_(self.prog.mods[o.name], name)
        if isinstance(o, LibV):
            return self.reg.lib_attr(self, o, name)
        if isinstance(o, EnumV):
            if name in ENUMS[o.name]:
                return enumv(o.name, name)
            self.unsupported(f'enum attribute {name}')
        if isinstance(o, ClassV):
            k, f = self.prog.member(o, name)
            if isinstance(f, FuncV):
                if f.kind == 'classmethod':
                    return BoundV(o, f)
                return f
            if name == '__name__':
                return vs(o.name.split('.')[-1])
            if f is not None:
                return self.classvar(o, name, f)
            self.unsupported(f'class attribute {o.name}.{name}')
        if isinstance(o, NTClass):
            if name == '_fields':
                return PTuple([vs(x) for x in NTS[o.name][0]])
            self.unsupported(f'{o.name}.{name}')
        if isinstance(o, SuperV):
            m = self.prog.mro(o.cls)
            for k in self.prog.mro(self.prog.classes.get(self.class_of(o.self_), o.cls)):
                pass
            for b in o.cls.bases:
                if isinstance(b, ClassV):
                    k, f = self.prog.member(b, name)
                    if isinstance(f, FuncV):
                        return BoundV(o.self_, f)
            return ModelV('super.' + name, lambda ex, a, kw: VNone)
        if isinstance(o, ExcV):
            if name in o.attrs:
                return o.attrs[name]
            if name == 'args':
                return PTuple(list(o.args))
            v = self.fresh('exc_' + name)
            o.attrs[name] = v
            return v
        if isinstance(o, PNt):
            if name in NTS[o.name][0]:
                return o.items[NTS[o.name][0].index(name)]
            o = self.tov(o)
        if isinstance(o, (Cont, PTuple, IterV, RegexV, CtxV, FuncV, ZipV, RangeV)):
            m = self.reg.method(self, o, name)
            if m is not None:
                return m
            self.unsupported(f'{type(o).__name__}.{name}')
        if isinstance(o, ModelV) and f'{o.name}.{name}' in self.reg.libs:
            return LibV(f'{o.name}.{name}')
        if not isinstance(o, ExprRef):
            self.unsupported(f'attribute {name} of {type(o).__name__}')
        c = self.con(o)
        if c is None:
            # fork over the constructors that can have this attribute
            for n, (fields, _) in NTS.items():
                if name in fields or name in ('_asdict', '_replace'):
                    if self.branch(RECOG[n](o)):
                        c = n; self.setcon(o, c)
                        break
            if c is None:
                if self.branch(RECOG['VRef'](o)):
                    c = 'VRef'; self.setcon(o, c)
                else:
                    for n in ('VStr', 'VByt', 'VCid', 'VDict', 'VList', 'VInt', 'VReal', 'VSet',
                              'VTup', 'VEnum', 'VOpq'):
                        if self.reg.has_method(n, name) and self.branch(RECOG[n](o)):
                            c = n; self.setcon(o, c)
                            break
                    else:
                        self.raise_('AttributeError')
        if c in NTS:
            if name in NTS[c][0]:
                return ntf(c, name, o)
            m = self.reg.nt_method(self, c, o, name)
            if m is not None:
                return m
            self.raise_('AttributeError')
        if c == 'VRef':
            cn = self.class_of(o)
            ref = acc('VRef', 0, o)
            if cn in self.reg.libclasses:
                return self.reg.libclass_attr(self, cn, o, name)
            C = self.prog.classes[cn]
            k, f = self.prog.member(C, name)
            if isinstance(f, FuncV):
                if f.kind == 'property':
                    return self.call_function(f, [o], {})
                if f.kind == 'staticmethod':
                    return f
                if f.kind == 'classmethod':
                    return BoundV(C, f)
                return BoundV(o, f)
            if not any(name in getattr(b, 'fields', ()) for b in self.prog.mro(C)):
                v = self.reg.extra_attr(self, cn, o, name)
                if v is not None:
                    return v
                self.raise_('AttributeError')
            return self.field_get(o, cn, name)
        if c == 'VEnum':
            if name == 'name':
                return self.enum_name(o)
        m = self.reg.val_method(self, c, o, name)
        if m is not None:
            return m
        self.raise_('AttributeError')

    def enum_name(self, o):
        for n, mem in ENUMS.items():
            for i, m in enumerate(mem):
                if self.branch(o == enumv(n, m)):
                    return vs(m)
        self.fail('enum member')

    def fkey(self, cn, name):
        C = self.prog.classes.get(cn)
        return f'{self.prog.field_owner(C, name) if C else cn}.{name}'

    def field_get(self, o, cn, name):
        ref = acc('VRef', 0, o)
        key = self.fkey(cn, name)
        self.inv_on_read(ref, cn, key)
        hook = self.reg.field_read.get(key)
        if hook:
            r = hook(self, ref)
            if r is not None:
                return r
        v = self.heap_get(key, ref)
        spec = self.reg.field_spec.get(key)
        if spec:
            kind = spec.get('kind')
            if kind in ('list', 'dict', 'set', 'deque'):
                n = {'list': 'VList', 'dict': 'VDict', 'set': 'VSet', 'deque': 'VList'}[kind]
                if con_of(v) != n:
                    if spec.get('optional'):
                        if not self.branch(RECOG[n](v)):
                            return v
                    else:
                        self.assume(RECOG[n](v))
                return Cont(self, kind, None, home=(key, ref))
            if kind:
                f = self.reg.kind_fact(self, kind, v)
                if f is not None:
                    self.assume(f)
        return self.unobj(v)

    def setattr_(self, o, name, v):
        o = self.unobj(o)
        if isinstance(o, ModV):
            return self.set_global(self.prog.mods[o.name], name, v)
        if isinstance(o, ExcV):
            o.attrs[name] = v
            return
        if isinstance(o, (LibV, FuncV)):
            return
        if not isinstance(o, ExprRef):
            self.unsupported('attribute assignment')
        c = self.con(o)
        if c is None:
            if not self.branch(RECOG['VRef'](o)):
                self.raise_('AttributeError')
            c = 'VRef'; self.setcon(o, c)
        if c != 'VRef':
            self.raise_('AttributeError')
        cn = self.class_of(o)
        ref = acc('VRef', 0, o)
        if cn in self.prog.classes:
            k, f = self.prog.member(self.prog.classes[cn], name)
            if isinstance(f, FuncV):
                self.raise_('AttributeError')
        key = self.fkey(cn, name)
        cont = v if isinstance(v, Cont) else None
        val = self.tov(v, f'stored in {key}')
        spec = self.reg.classes.get(cn)
        if spec and 'inv' in spec and key in spec['fields']:
            self.inv_on_read(ref, cn, key)
        hook = self.reg.field_write.get(key)
        if hook and not self.data.get('in_init') == ref.sexpr():
            hook(self, ref, val)
        self.heap_set(key, ref, val)
        if spec and 'inv' in spec and key in spec['fields']:
            if not any(r.eq(ref) for r, _ in self.dirty):
                self.dirty.append((ref, cn))
        fs = self.reg.field_spec.get(key)
        if cont is not None and fs and fs.get('kind') in ('list', 'dict', 'set', 'deque') \
                and not cont.home and cont.frozen == f'stored in {key}':
            # owned container: the local name now aliases the heap location
            cont.frozen, cont.home = None, (key, ref)

    def classvar(self, C, name, node):
        key = f'classvar:{C.name}.{name}'
        fs = self.reg.field_spec.get(f'{C.name}.{name}')
        if fs and fs.get('kind') in ('list', 'dict', 'set'):
            return Cont(self, fs['kind'], None, home=(f'{C.name}.{name}', IntVal(0)))
        return self.eval(node, Env(mod=C.mod))

    # -- globals ------------------------------------------------------------------------
    def global_(self, mod, name):
        key = f'{mod.name}.{name}'
        g = self.reg.globals.get(key)
        if g is not None:
            return g(self)
        if name in mod.mutable or key in self.reg.mutable_globals:
            spec = self.reg.field_spec.get(key)
            v = self.heap_get(key, IntVal(0))
            if spec:
                kind = spec.get('kind')
                if kind in ('list', 'dict', 'set', 'deque'):
                    n = {'list': 'VList', 'dict': 'VDict', 'set': 'VSet', 'deque': 'VList'}[kind]
                    if con_of(v) != n:
                        if spec.get('optional'):
                            if not self.branch(RECOG[n](v)):
                                return v
                        else:
                            self.assume(RECOG[n](v))
                    return Cont(self, kind, None, home=(key, IntVal(0)))
                f = self.reg.kind_fact(self, kind, v)
                if f is not None:
                    self.assume(f)
            return self.unobj(v)
        if key in self.globals_cache:
            return self.globals_cache[key]
        v = self.prog.resolve_name(mod, name)
        if isinstance(v, LibV) and v.name in self.reg.libattrs:
            v = self.reg.libattrs[v.name]
            return v(self) if callable(v) and not isinstance(v, ExprRef) else v
        if isinstance(v, (ast.Assign, ast.AnnAssign)):
            tgt = v.targets[0] if isinstance(v, ast.Assign) else v.target
            if isinstance(tgt, ast.Tuple):
                self.unsupported('tuple global')
            if isinstance(v, ast.Assign) and any(isinstance(t, ast.Attribute) for t in v.targets):
                pass
            # a value imported from another module must be evaluated there
            m2 = self._owner(mod, name)
            v = self.eval(v.value, Env(mod=m2))
            if isinstance(v, Cont):
                v.frozen = 'module constant'
        if v is None:
            b = self.reg.builtin(name)
            if b is not None:
                return b
            if name in EXC:
                return EXC[name]
            if name == '__name__':
                return vs(mod.name)
            self.raise_('NameError')
        self.globals_cache[key] = v
        return v

    def _owner(self, mod, name):
        d = mod.defs.get(name)
        while isinstance(d, tuple) and d[0] == 'repo' and d[1]:
            mod = self.prog.mods[d[1]]
            name = d[2]
            d = mod.defs.get(name)
        return mod

    def set_global(self, mod, name, v):
        key = f'{mod.name}.{name}'
        if name not in mod.mutable and key not in self.reg.mutable_globals:
            self.unsupported(f'assignment to global {key}')
        cont = v if isinstance(v, Cont) else None
        self.heap_set(key, IntVal(0), self.tov(v, f'stored in {key}'))
        fs = self.reg.field_spec.get(key)
        if cont is not None and fs and fs.get('kind') in ('list', 'dict', 'set', 'deque') \
                and not cont.home:
            cont.frozen, cont.home = None, (key, IntVal(0))


from z3 import z3util  # noqa


_hq = {}


def has_quant(f):
    i = f.get_id()
    if i in _hq and _hq[i][0].eq(f):
        return _hq[i][1]
    st, seen, r = [f], set(), False
    while st:
        t = st.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if is_quantifier(t):
            r = True
            break
        st.extend(t.children())
    _hq[i] = (f, r)
    return r


def _lits_items():
    import theory
    return theory._lits.items()
