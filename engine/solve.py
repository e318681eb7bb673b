"""Discharges verification conditions: z3 with E-matching only (no model-based instantiation),
resource-limited rather than timed so that results do not depend on the machine."""
import mmap, os, pickle, random, select, signal, struct, time, sys
import z3
from theory import *
import theory

RL = [4_000_000, 30_000_000, 120_000_000]
ITEM_WALL = 120
EXTRA = []   # callables(used symbols) -> list of axioms, from the contract theories


_ax_cache = {}


def group_axioms():
    out = []
    for g, l in AXIOMS.items():
        out.append((g, l))
    return out


_ax_syms = {}


def _axsyms(f):
    i = f.get_id()
    if i not in _ax_syms:
        pats = []
        if is_quantifier(f):
            for p in range(f.num_patterns()):
                pats.append(used_symbols(f.pattern(p).children()))
        _ax_syms[i] = (f, used_symbols([f]), pats)
    return _ax_syms[i][1], _ax_syms[i][2]


# symbols that say nothing about which theory a ground axiom belongs to
GENERAL = {'empty', 'sempty', 'bempty', 'mempty', 'cls', 'unit', 'cat', 'len', 'slen', 'blen'}


def relevant_axioms(fs, exclude=()):
    """Axioms whose trigger symbols can occur (transitively) in the problem."""
    used = set(used_symbols(fs))
    out, done = [], set()
    changed = True
    while changed:
        changed = False
        for g, l in AXIOMS.items():
            if g in exclude:
                continue
            for n, (lab, f) in enumerate(l):
                if (g, n) in done:
                    continue
                syms, pats = _axsyms(f)
                if pats:
                    ok = any(p <= used for p in pats)
                else:
                    ok = bool(((syms - GENERAL) or syms) & used)
                if ok:
                    done.add((g, n))
                    out.append(f)
                    new = syms - used
                    if new:
                        used |= new
                    changed = True
    return out, used


def make_solver(rl, seed=0):
    s = z3.Solver()
    s.set('timeout', 20000)
    s.set('auto_config', False)
    s.set('mbqi', False)
    s.set('rlimit', rl)
    s.set('random_seed', seed)
    s.set('qi.eager_threshold', 50.0 if seed else 20.0)
    s.set('arith.nl', seed == 2)
    if seed == 3:
        s.set('case_split', 3)
    return s


def check(facts, goal, rl, seed=0, exclude=()):
    fs = list(facts) + [Not(goal)]
    ax, used = relevant_axioms(fs, exclude)
    s = make_solver(rl, seed)
    fs = ax + literal_facts(used, codes='sat' in used) + fs
    if seed >= 4:
        random.Random(seed).shuffle(fs)
    for f in fs:
        s.add(f)
    r = s.check()
    why = '' if r == z3.unsat else s.reason_unknown() if r == z3.unknown else 'sat'
    return r, why, s


T2 = ('seq2', 'sseq2', 'bseq2')
LITE = T2 + ('sseq', 'bseq', 'prefix', 'lex', 'str')
RICH = ('seq1', 'sseq1', 'bseq1')
L00 = (100_000, 0, LITE + RICH + ('lemma:p32_mono', 'lemma:s32_order', 'lemma:s32_range', 's32', 'map'))
L0 = (300_000, 0, LITE)
L1 = (300_000, 0, T2 + ('prefix', 'lex'))
PLAN = [[(RL[0], 0, T2)],
        [(RL[0], 0, T2), (RL[0], 4, T2), (RL[0], 5, T2), (RL[1], 1, ()), (RL[1], 2, T2)],
        [(RL[0], 0, T2), (RL[0], 4, T2), (RL[0], 5, T2), (RL[1], 1, ()), (RL[1], 2, T2),
         (RL[2], 0, T2), (RL[2], 3, ())]]


DEADLINE = [None]      # absolute time after which nothing more is attempted
MANY = 10              # after this many failures in one batch, the rest get only the cheap stages
_fails = mmap.mmap(-1, 8)


STOP = [None, 0.0, False]   # callable: a failing input is already known; last asked; answer


def left():
    if STOP[0]:
        if not STOP[2] and time.time() - STOP[1] > 2:
            STOP[1] = time.time()
            STOP[2] = bool(STOP[0]())
        if STOP[2]:
            return -100
    return 1e9 if DEADLINE[0] is None else DEADLINE[0] - time.time()


def solve_vc(vc, effort, final=False):
    t0 = time.time()
    if left() <= 0:
        return 'unknown', 'z3', 0.0, 'time limit of the whole check'
    plan = [L00, L0, L1] + PLAN[effort]
    if final and struct.unpack('<Q', _fails[:8])[0] >= MANY:
        plan = [L00, L0, L1]
    if vc.hide:
        plan = [(300_000, 0, L00[2] + vc.hide), (600_000, 0, tuple(
            g for g in L00[2] if g != 'map') + vc.hide), (RL[0], 0, LITE + vc.hide)] + plan
    if vc.nl:
        plan = [(RL[0], 2, T2)] + plan
    status, why = 'unknown', ''
    goals = conj(vc.goal)
    for g in goals:
        st = 'unknown'
        for rl, seed, ex in plan:
            try:
                r, why, s = check(vc.facts, g, rl, seed, ex)
            except z3.Z3Exception as e:
                r, why = z3.unknown, str(e)
            if r == z3.unsat:
                st = 'proved'
                break
        if st != 'proved':
            if final:
                _fails[:8] = struct.pack('<Q', struct.unpack('<Q', _fails[:8])[0] + 1)
            return 'unknown', 'z3', time.time() - t0, f'z3: {r} ({why}); goal: {str(g)[:1500]}'
    return 'proved', 'z3', time.time() - t0, ''


def conj(g):
    if z3.is_and(g):
        out = []
        for c in g.children():
            out += conj(c)
        return out
    return [g]


def _recv(fd, n):
    b = b''
    while len(b) < n:
        x = os.read(fd, n - len(b))
        if not x:
            return None
        b += x
    return b


def parallel(items, fn, jobs, wall=None, item_wall=None):
    """fn(item) -> picklable, evaluated in forked children (the z3 terms are inherited).
    Work is handed out one item at a time."""
    n = len(items)
    out = [None] * n
    if n == 0:
        return out
    jobs = min(jobs, n)
    # task queue: a pipe of 4-byte indexes
    tr, tw = os.pipe()
    os.write(tw, b''.join(struct.pack('<I', i) for i in range(min(n, 15000))))
    os.close(tw)
    sys.stdout.flush(); sys.stderr.flush()
    live = {}

    def spawn():
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                signal.signal(signal.SIGALRM, signal.SIG_DFL)
                while True:
                    b = os.read(tr, 4)
                    if len(b) < 4:
                        break
                    i = struct.unpack('<I', b)[0]
                    signal.alarm(max(1, int(min(item_wall or ITEM_WALL, left() + 3))))     # a stuck solver ends this worker
                    try:
                        v = fn(items[i])
                    except BaseException as e:
                        v = ('error', 'engine', 0.0, f'{type(e).__name__}: {e}')
                    signal.alarm(0)
                    d = pickle.dumps((i, v))
                    d = struct.pack('<I', len(d)) + d
                    while d:
                        k = os.write(w, d)
                        d = d[k:]
            finally:
                os._exit(0)
        os.close(w)
        live[r] = pid

    for _ in range(jobs):
        spawn()
    respawns = 0
    t0 = time.time()
    while live:
        rl, _, _ = select.select(list(live), [], [], 5)
        for fd in rl:
            h = _recv(fd, 4)
            d = _recv(fd, struct.unpack('<I', h)[0]) if h is not None else None
            if d is None:
                os.close(fd)
                _, st = os.waitpid(live.pop(fd), 0)
                if st != 0 and respawns < 200:
                    respawns += 1
                    spawn()
                continue
            i, v = pickle.loads(d)
            out[i] = v
        if wall and time.time() - t0 > wall or left() < -20:
            for fd, pid in live.items():
                os.kill(pid, 9)
                os.waitpid(pid, 0)
                os.close(fd)
            break
    os.close(tr)
    return out


def solve_all(vcs, reg, jobs=4, effort=1, final=False):
    if final:
        _fails[:8] = struct.pack('<Q', 0)
    res = parallel(vcs, lambda v: solve_vc(v, effort, final), jobs)
    for v, r in zip(vcs, res):
        if r is None:
            v.status, v.backend, v.time, v.detail = 'unknown', 'z3', 0.0, 'solver process died'
        else:
            v.status, v.backend, v.time, v.detail = r


def all_unsat(exits, reg):
    """True if every exit's assumptions are contradictory."""
    for facts in exits[:12]:
        r, why, s = check(facts, BoolVal(False), RL[0] // 4)
        if r != z3.unsat:
            return False
    return True
