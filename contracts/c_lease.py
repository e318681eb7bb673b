"""memcache.Lease. The clock is a ghost that never goes back: every reading, memcache call and
sleep advances it by an arbitrary amount. The memcache client's add and delete calls are
recorded with their arguments and the clock before and after them; add's answers are arbitrary."""
import z3
from theory import *
from values import *
from contract import fresh_of
from z3 import Select

CLOCK = 'ghost.clock'
ADDS, DELS = 'ghost.adds', 'ghost.dels'
ADDF = ['.key', '.expire', '.at', '.ok', '.client']
DELF = ['.key', '.at', '.client']
LEASE = 'memcache.Lease'
CLIENT = 'pymemcache.client.base.Client'
SLOTS = [ADDS + f for f in ADDF] + [DELS + f for f in DELF]
ALL = [CLOCK, ADDS, DELS] + SLOTS
zero = IntVal(0)
iv = lambda v: acc('VInt', 0, v)
ov = lambda v: acc('VOpq', 0, v)
sv = lambda v: acc('VStr', 0, v)


def register(reg):
    micros, dt_of, td_of, tdus, is_dt = reg.time
    is_td = Function('is_td', Opq, Bool_)
    reg.mutable_globals |= set(ALL)
    for k in (CLOCK, ADDS, DELS):
        reg.field_spec[k] = {'kind': 'int'}
    for k, kd in (('client', 'ref:' + CLIENT), ('key', 'str'), ('retries', 'int')):
        reg.field_spec[f'{LEASE}.{k}'] = {'kind': kd}
    reg.known_classes |= {LEASE}

    def tick(ex):
        """the clock moves on by some amount"""
        t0 = iv(ex.heap_get(CLOCK, zero))
        t = ex.fresh('clock', Int_)
        ex.assume(t >= t0)
        ex.heap_set(CLOCK, zero, VInt(t))
        return t0, t
    old_now = reg.libs['webutil.util.now']

    def now(ex, a, kw):
        if not ex.data.get('clock'):
            return old_now(ex, a, kw)
        return VOpq(dt_of(tick(ex)[1]))
    reg.libs['webutil.util.now'] = now

    def sleep(ex, a, kw):
        if ex.data.get('clock'):
            tick(ex)
        return VNone
    reg.libs['time.sleep'] = sleep

    def total_seconds(ex, o, a, kw):
        return VReal(z3.ToReal(tdus(ov(o))) / 1000000)
    reg.val_methods[('VOpq', 'total_seconds')] = total_seconds

    def ceil(ex, a, kw):
        return VInt(-z3.ToInt(-ex.as_real(ex.tov(a[0]))))
    reg.libs['math.ceil'] = ceil
    reg.libs['math.floor'] = lambda ex, a, kw: VInt(z3.ToInt(ex.as_real(ex.tov(a[0]))))

    def add(ex, o, a, kw):
        if len(a) != 2 or 'noreply' not in kw:
            ex.unsupported('memcache add call')
        t0, t1 = tick(ex)
        expire = iv(ex.tov(kw['expire'])) if 'expire' in kw else zero
        ok = ex.fresh('added', Bool_)
        # with noreply, memcache's answer is not waited for and add always returns True
        got = If(acc('VBool', 0, ex.tov(kw['noreply'])), BoolVal(True), ok)
        n = iv(ex.heap_get(ADDS, zero))
        ex.heap_set(ADDS, zero, VInt(n + 1))
        for f, v in (('.key', VStr(ex.as_str(a[0]))), ('.expire', VInt(expire)),
                     ('.at', VInt(t0)), ('.ok', VBool(ok)), ('.client', o)):
            ex.heap_set(ADDS + f, n, v)
        return VBool(simplify(got))

    def delete(ex, o, a, kw):
        t0, t1 = tick(ex)
        n = iv(ex.heap_get(DELS, zero))
        ex.heap_set(DELS, zero, VInt(n + 1))
        for f, v in (('.key', VStr(ex.as_str(a[0]))), ('.at', VInt(t0)), ('.client', o)):
            ex.heap_set(DELS + f, n, v)
        return VBool(ex.fresh('deleted', Bool_))
    reg.libclasses[CLIENT] = {'add': add, 'delete': delete}

    def compare(ex, op, a, b):
        if isinstance(a, ExprRef) and isinstance(b, ExprRef) and op in ('Lt', 'LtE', 'Gt', 'GtE'):
            for x, y in ((a, b), (b, a)):
                if ex.con(x) == 'VOpq' and ex.con(y) is None and ex.branch(RECOG['VOpq'](y)):
                    ex.setcon(y, 'VOpq')
            if ex.con(a) == 'VOpq' and ex.con(b) == 'VOpq':
                x, y = micros(ov(a)), micros(ov(b))
                return {'Lt': x < y, 'LtE': x <= y, 'Gt': x > y, 'GtE': x >= y}[op]
        return prev(ex, op, a, b) if prev else None
    prev = reg.hooks.get('compare')
    reg.hooks['compare'] = compare

    S = lambda c: c.ref('self')
    F = lambda c, n: c.h(f'{LEASE}.{n}', S(c))
    O = lambda c, n: c.old(f'{LEASE}.{n}', S(c))
    us = lambda v: tdus(ov(v))
    n_adds = lambda c: iv(c.h(ADDS)) - iv(c.old(ADDS))
    n_dels = lambda c: iv(c.h(DELS)) - iv(c.old(DELS))
    at = lambda c, k, n: Select(c.h_arr(k), n)
    last = lambda c, f: at(c, ADDS + f, iv(c.h(ADDS)) - 1)
    dlast = lambda c, f: at(c, DELS + f, iv(c.h(DELS)) - 1)
    same = lambda c, ks: And(*[c.h_arr(k) == c.oldarr(k) for k in ks])

    def setup(ex, c):
        ex.data['clock'] = True

    def typed(c):
        e, x, d = F(c, 'expiration'), F(c, 'expires_at'), F(c, 'initial_retry_delay')
        return [('expiration is a timedelta', RECOG['VOpq'](e)),
                ('it is positive', us(e) > 0),
                ('the delay is a timedelta', RECOG['VOpq'](d)),
                ('retries >= 0', And(RECOG['VInt'](F(c, 'retries')), iv(F(c, 'retries')) >= 0)),
                ('expires_at is a time or nothing', Or(x == VNone, And(
                    RECOG['VOpq'](x), is_dt(ov(x))))),
                ('clock', And(RECOG['VInt'](c.h(CLOCK)), RECOG['VInt'](c.h(ADDS)),
                              RECOG['VInt'](c.h(DELS))))]

    def init_setup(ex, c):
        setup(ex, c)
        for n in ('expiration', 'initial_retry_delay'):
            v = ex.fresh(n)
            ex.assume(RECOG['VOpq'](v)); ex.setcon(v, 'VOpq')
            c.vars[n] = v
    FIELDS = ['client', 'key', 'expiration', 'retries', 'initial_retry_delay', 'expires_at']
    reg.add(LEASE + '.__init__', params={'self': 'ref:' + LEASE, 'client': 'ref:' + CLIENT,
                                         'key': 'str', 'retries': 'int'}, returns='none',
            setup=init_setup, modifies=[f'{LEASE}.{n}' for n in FIELDS],
            frame=lambda c: [(f'{LEASE}.{n}', [S(c)]) for n in FIELDS],
            ensures=lambda c, r: [
                (f'{n} is set', F(c, n) == c.v(n)) for n in FIELDS[:-1]] + [
                ('not held', F(c, 'expires_at') == VNone)])

    def acq_post(c, r):
        ex_ = F(c, 'expires_at')
        return [
            ('memcache was asked', n_adds(c) >= 1),
            ('the key was added by this call', last(c, '.ok') == VBool(True)),
            ('for the key of the lease', And(last(c, '.key') == O(c, 'key'),
                                             last(c, '.client') == O(c, 'client'))),
            ('with a positive expiration', iv(last(c, '.expire')) >= 1),
            ('no shorter than requested', iv(last(c, '.expire')) * 1000000 >=
             us(O(c, 'expiration'))),
            ('at most retries + 1 attempts', n_adds(c) <= iv(O(c, 'retries')) + 1),
            ('the lease knows when it expires', And(RECOG['VOpq'](ex_), is_dt(ov(ex_)))),
            ('counted from before the key was added', micros(ov(ex_)) <=
             iv(last(c, '.at')) + us(O(c, 'expiration'))),
            ('and not before acquire started', micros(ov(ex_)) >=
             iv(c.old(CLOCK)) + us(O(c, 'expiration'))),
            ('nothing is deleted', n_dels(c) == 0)]
    _i = z3.Int('ai')

    def none_added(c):
        lo, hi = iv(c.old(ADDS)), iv(c.h(ADDS))
        return FA([_i], Implies(And(lo <= _i, _i < hi), Select(c.h_arr(ADDS + '.ok'), _i) ==
                                VBool(False)), Select(c.h_arr(ADDS + '.ok'), _i))

    def loop(L):
        ex = L.ex
        f = {k: (h0, h) for k, h0, h in L.fields()}
        if ADDS not in f:
            return
        n0, n = iv(Select(f[ADDS][0], zero)), iv(Select(f[ADDS][1], zero))
        yield 'adds counted', And(RECOG['VInt'](Select(f[ADDS][1], zero)), n >= n0)
        if L.i is not None:
            yield 'one add per attempt', n == n0 + L.i
        for nm, x0, cur in L.vals():
            if con_of(x0) == 'VInt':
                yield f'{nm} counts up', n - n0 == iv(cur) - iv(x0)
                yield f'{nm} counts down', n - n0 == iv(x0) - iv(cur)
        if ADDS + '.ok' in f:
            ok = f[ADDS + '.ok'][1]
            yield 'no attempt succeeded', FA([_i], Implies(And(n0 <= _i, _i < n), Select(
                ok, _i) == VBool(False)), Select(ok, _i))
        t0, t = f[CLOCK]
        yield 'clock', And(RECOG['VInt'](Select(t, zero)),
                           iv(Select(t, zero)) >= iv(Select(t0, zero)))

    held = lambda c: O(c, 'expires_at') != VNone
    MOD = [CLOCK, ADDS, f'{LEASE}.expires_at'] + [ADDS + f for f in ADDF]
    ACQ = dict(params={'self': 'ref:' + LEASE}, setup=setup, requires=typed, loops=[loop],
               modifies=MOD, frame=lambda c: [(f'{LEASE}.expires_at', [S(c)])])
    raises = [('AssertionError', held, lambda c: [('nothing was asked', n_adds(c) == 0)]),
              ('RuntimeError', None, lambda c: [
                  ('after exactly retries + 1 attempts', n_adds(c) == iv(O(c, 'retries')) + 1),
                  ('none of which succeeded', none_added(c)),
                  ('the lease is not held', F(c, 'expires_at') == VNone)])]
    reg.add(LEASE + '.acquire', returns='none', ensures=acq_post, raises=raises, **ACQ)
    reg.add(LEASE + '.__enter__', returns='ref:' + LEASE, raises=raises,
            ensures=lambda c, r: acq_post(c, r) + [('the lease itself', r == c.v('self'))], **ACQ)

    def rel_post(c, r):
        gone = n_dels(c) > 0
        x = ov(O(c, 'expires_at'))
        return [
            ('at most one key is deleted', And(n_dels(c) >= 0, n_dels(c) <= 1)),
            ('deleted only if it had not expired when the clock was read',
             Implies(gone, iv(c.old(CLOCK)) <= micros(x))),
            ("only the lease's key", Implies(gone, And(dlast(c, '.key') == O(c, 'key'), dlast(
                c, '.client') == O(c, 'client')))),
            ('deleted unless it expired', Implies(iv(c.h(CLOCK)) <= micros(x), gone))]
    REL = dict(params={'self': 'ref:' + LEASE}, setup=setup, requires=typed,
               modifies=[CLOCK, DELS] + [DELS + f for f in DELF])
    rr = [('AssertionError', lambda c: Not(held(c)), lambda c: [
        ('nothing is deleted', n_dels(c) == 0)])]
    reg.add(LEASE + '.release', returns='none', ensures=rel_post, raises=rr, **REL)
    reg.add(LEASE + '.__exit__', returns='bool', raises=rr, ensures=lambda c, r: rel_post(c, r) + [
        ('exceptions are not swallowed', r == VBool(False))], **REL)
