"""Contracts for arroba/util.py: TIDs, at:// URIs, signing."""
import z3
from theory import *
from values import *
import lib
from lib import CHARS, JOIN, REP, SREPLACE
from contract import fresh_of

p32 = Function('p32', Int_, Int_)
digit = Function('digit', Int_, Int_)
s32val = Function('s32val', Str, Int_)
s32ok = Function('s32ok', Str, Bool_)
_a, _b, _s, _t = Consts('a b s t', Str)
_i, _j, _n, _c, _d = Ints('i j n c d')
P11 = 32 ** 11

axiom('s32', 'p32 base', And(p32(0) == 1, p32(1) == 32, p32(2) == 1024, p32(11) == P11))
axiom('s32', 'p32 positive', FA([_n], Implies(_n >= 0, p32(_n) >= 1), p32(_n)))
axiom('s32', 'p32 step', FA([_n, _i], Implies(And(_n >= 0, _i == _n + 1), p32(_i) == 32 * p32(_n)),
                            [p32(_n), p32(_i)]))
# base32-sortable digits, as the atproto TID spec gives them
axiom('s32', 'digit', FA([_c], digit(_c) == If(And(50 <= _c, _c <= 55), _c - 50,
                                               If(And(97 <= _c, _c <= 122), _c - 91,
                                                  IntVal(-1))), digit(_c)))
axiom('s32', 'val empty', And(s32val(STR.empty) == 0, s32ok(STR.empty)))
axiom('s32', 'val unit', FA([_c], And(s32val(STR.unit_(_c)) == digit(_c),
                                      s32ok(STR.unit_(_c)) == (digit(_c) >= 0)), STR.unit_(_c)))
axiom('s32', 'val cat', FA([_a, _b], s32val(STR.cat_(_a, _b)) ==
                           s32val(_a) * p32(STR.len_(_b)) + s32val(_b),
                           s32val(STR.cat_(_a, _b))))
axiom('s32', 'val append one', FA([_a, _c], s32val(STR.cat_(_a, STR.unit_(_c))) ==
                                  32 * s32val(_a) + digit(_c),
                                  s32val(STR.cat_(_a, STR.unit_(_c)))))
axiom('s32', 'ok cat', FA([_a, _b], s32ok(STR.cat_(_a, _b)) == And(s32ok(_a), s32ok(_b)),
                          s32ok(STR.cat_(_a, _b))))
axiom('s32', 'ok at', FA([_a, _i], Implies(And(s32ok(_a), 0 <= _i, _i < STR.len_(_a)),
                                           digit(STR.at_(_a, _i)) >= 0),
                         [s32ok(_a), STR.at_(_a, _i)]))
axiom('s32', 'replace of an absent character', FA([_a], Implies(
    s32ok(_a), SREPLACE(_a, slit('-'), STR.empty) == _a), SREPLACE(_a, slit('-'), STR.empty)))
axiom('str', 'repeat unfold', FA([_c, _n], And(
    REP(_c, 0) == STR.empty,
    Implies(_n > 0, REP(_c, _n) == STR.cat_(STR.unit_(_c), REP(_c, _n - 1)))),
    [REP(_c, _n), Function('unroll', Int_, Bool_)(_n)]))
# lexicographic order
axiom('lex', 'first characters decide', FA([_c, _d, _s, _t], And(
    Implies(_c < _d, sord(STR.cat_(STR.unit_(_c), _s)) < sord(STR.cat_(STR.unit_(_d), _t))),
    Implies(And(_c == _d, sord(_s) < sord(_t)),
            sord(STR.cat_(STR.unit_(_c), _s)) < sord(STR.cat_(STR.unit_(_d), _t)))),
    [sord(STR.cat_(STR.unit_(_c), _s)), sord(STR.cat_(STR.unit_(_d), _t))]))
axiom('lex', 'equal-length prefixes decide', FA([_a, _b, _s, _t], Implies(
    And(STR.len_(_a) == STR.len_(_b), sord(_a) < sord(_b)),
    sord(STR.cat_(_a, _s)) < sord(STR.cat_(_b, _t))),
    [sord(STR.cat_(_a, _s)), sord(STR.cat_(_b, _t))]))

unroll = Function('unroll', Int_, Bool_)


def lemmas(reg):
    a, b = Consts('a0 b0', Str)
    n, m, c, d = Ints('n0 m0 c0 d0')
    # 32**n is strictly monotone
    reg.lemma('p32_mono', [
        ('base', [n >= 0], 32 * p32(n) <= p32(n + 1)),
        ('step', [n >= 0, m > n, 32 * p32(n) <= p32(m)], 32 * p32(n) <= p32(m + 1)),
    ], 'induction on the larger exponent')
    axiom('lemma:p32_mono', 'p32 monotone', FA([_n, _i], Implies(
        And(0 <= _n, _n < _i), 32 * p32(_n) <= p32(_i)), [p32(_n), p32(_i)]))
    # leading zeros
    reg.lemma('rep_zero', [
        ('base', [unroll(0)], And(s32ok(REP(50, 0)), s32val(REP(50, 0)) == 0)),
        ('step', [n > 0, unroll(n), s32ok(REP(50, n - 1)), s32val(REP(50, n - 1)) == 0],
         And(s32ok(REP(50, n)), s32val(REP(50, n)) == 0)),
    ], 'induction on n')
    axiom('lemma:rep_zero', 'zeros', FA([_n], Implies(_n >= 0, And(
        s32ok(REP(50, _n)), s32val(REP(50, _n)) == 0)), REP(50, _n)))
    reg.lemma('s32_range', [
        ('base', [], And(0 <= s32val(STR.empty), s32val(STR.empty) < p32(STR.len(STR.empty)))),
        ('step', [s32ok(STR.cat_(STR.unit_(c), a)),
                  Implies(s32ok(a), And(0 <= s32val(a), s32val(a) < p32(STR.len_(a))))],
         And(0 <= s32val(STR.cat_(STR.unit_(c), a)),
             s32val(STR.cat_(STR.unit_(c), a)) < p32(STR.len_(STR.cat_(STR.unit_(c), a))))),
    ], 'induction on the string')
    axiom('lemma:s32_range', 'range', FA([_a], Implies(s32ok(_a), And(
        0 <= s32val(_a), s32val(_a) < p32(STR.len_(_a)))), s32val(_a)))
    ca, db = STR.cat_(STR.unit_(c), a), STR.cat_(STR.unit_(d), b)
    reg.lemma('s32_order', [
        ('base', [s32val(STR.empty) < s32val(STR.empty)], BoolVal(False)),
        ('step', [s32ok(ca), s32ok(db), STR.len_(a) == STR.len_(b), s32val(ca) < s32val(db),
                  Implies(And(s32ok(a), s32ok(b), s32val(a) < s32val(b)), sord(a) < sord(b))],
         sord(ca) < sord(db)),
    ], 'induction on the length: numeric order is string order for equal lengths')
    axiom('lemma:s32_order', 'order', FA([_a, _b], Implies(
        And(s32ok(_a), s32ok(_b), STR.len_(_a) == STR.len_(_b), s32val(_a) < s32val(_b)),
        sord(_a) < sord(_b)), [s32val(_a), s32val(_b), sord(_a), sord(_b)]))


def TSNUM(s):
    return s32val(s) / 1024


def is_tid(s, num):
    return And(STR.len_(s) == 13, s32ok(s), TSNUM(s) == num)


# how the loops of the codecs relate to the value computed so far
def enc_inv(L):
    for nm, x0, cur in L.vals():
        if con_of(x0) != 'VInt':
            continue
        num0 = x0.arg(0)
        x = acc('VInt', 0, cur)
        for ln, t0, t in L.lists():
            n = SEQ.len_(t)
            j = JOIN(t)
            yield f'{nm},{ln} value', num0 == x * p32(n) + s32val(j)
            yield f'{nm},{ln} length', Or(n == 0, num0 >= p32(n - 1))
    for ln, t0, t in L.lists():
        yield f'{ln} digits', And(s32ok(JOIN(t)), STR.len_(JOIN(t)) == SEQ.len_(t))
    for nm, x0, cur in L.vals():
        # prepending to a string
        if con_of(x0) == 'VStr':
            t = acc('VStr', 0, cur)
            yield f'{nm} digits', s32ok(t)
            for n2, y0, cy in L.vals():
                if con_of(y0) == 'VInt':
                    yield f'{n2},{nm} value', y0.arg(0) == acc('VInt', 0, cy) * p32(
                        STR.len_(t)) + s32val(t)
                    yield f'{n2},{nm} length', Or(STR.len_(t) == 0,
                                                  y0.arg(0) >= p32(STR.len_(t) - 1))


def dec_inv(L):
    v = L.ex.data.get('s32dec')
    if v is None or L.seq is None:
        return
    yield 'prefix is digits', s32ok(STR.sub(v, IntVal(0), L.i))
    for nm, x0, cur in L.vals():
        if con_of(x0) == 'VInt':
            x = acc('VInt', 0, cur)
            yield f'{nm} decodes prefix', x == s32val(STR.sub(v, IntVal(0), L.i))


def register(reg):
    lemmas(reg)
    U = 'util.'

    reg.add(U + 's32encode', params={'num': 'int'}, returns='str', loops=[enc_inv], nl=True,
            requires=lambda c: [('num >= 0', c.i('num') >= 0)],
            ensures=lambda c, r: [
                ('alphabet', s32ok(acc('VStr', 0, r))),
                ('decodes to num', s32val(acc('VStr', 0, r)) == c.i('num')),
                ('no longer than needed', Or(STR.len_(acc('VStr', 0, r)) == 0, c.i('num') >=
                                             p32(STR.len_(acc('VStr', 0, r)) - 1)))])

    def dec_setup(ex, c):
        ex.data['s32dec'] = c.s('val')
    reg.add(U + 's32decode', params={'val': 'str'}, returns='int', loops=[dec_inv], nl=True,
            setup=dec_setup,
            ensures=lambda c, r: [('value', acc('VInt', 0, r) == s32val(c.s('val')))],
            raises=[('ValueError', lambda c: Not(s32ok(c.s('val'))))])

    def clock_ok(c):
        v = c.v('clock_id')
        return Or(v == VNone, And(acc('VInt', 0, v) >= 0, acc('VInt', 0, v) < 1024))
    reg.add(U + 'int_to_tid', params={'num': 'int', 'clock_id': 'opt:int'}, returns='str',
            requires=lambda c: [('0 <= num < 2**55', And(c.i('num') >= 0, c.i('num') < P11)),
                                ('clock id is 10 bits', clock_ok(c))],
            ensures=lambda c, r: [
                ('13 characters', STR.len_(acc('VStr', 0, r)) == 13),
                ('alphabet', s32ok(acc('VStr', 0, r))),
                ('timestamp part is num', TSNUM(acc('VStr', 0, r)) == c.i('num'))])
    reg.add(U + 'tid_to_int', params={'tid': 'str'}, returns='int',
            ensures=lambda c, r: [
                ('only 13 characters are accepted', STR.len_(c.s('tid')) == 13),
                ('inverse of int_to_tid', Implies(s32ok(c.s('tid')), acc('VInt', 0, r) ==
                                                  TSNUM(c.s('tid'))))],
            raises=[('ValueError', None, lambda c: [
                ('a well-formed TID is accepted', Not(And(STR.len_(c.s('tid')) == 13,
                                                          s32ok(c.s('tid')))))])])

    # time: microseconds of an aware datetime
    micros = Function('micros', Opq, Int_)
    dt_of = Function('dt_of', Int_, Opq)
    td_of = Function('td_of', Int_, Opq)
    tdus = Function('tdus', Opq, Int_)
    is_dt = Function('is_dt', Opq, Bool_)
    o1 = Const('o1', Opq)
    axiom('time', 'datetime microseconds', FA([_n], And(micros(dt_of(_n)) == _n,
                                                       is_dt(dt_of(_n))), dt_of(_n)))
    axiom('time', 'datetime determined by microseconds', FA([o1], Implies(
        is_dt(o1), dt_of(micros(o1)) == o1), micros(o1)))
    axiom('time', 'timedelta microseconds', FA([_n], tdus(td_of(_n)) == _n, td_of(_n)))
    reg.time = (micros, dt_of, td_of, tdus, is_dt)
    reg.libs['datetime.datetime'] = lambda ex, a, kw: VOpq(dt_of(IntVal(epoch_us(ex, a, kw))))

    def timedelta(ex, a, kw):
        u = {'microseconds': 1, 'milliseconds': 1000, 'seconds': 10 ** 6, 'minutes': 6 * 10 ** 7,
             'hours': 36 * 10 ** 8, 'days': 864 * 10 ** 8}
        t = IntVal(0)
        for k, v in kw.items():
            t = t + ex.as_int(v) * u[k]
        if a:
            t = t + ex.as_int(a[0]) * u['days']
        return VOpq(td_of(simplify(t)))
    reg.libs['datetime.timedelta'] = timedelta

    def binop(ex, op, a, b):
        if not (isinstance(a, ExprRef) and isinstance(b, ExprRef)):
            return None
        ca, cb = ex.con(a), ex.con(b)
        if ca == 'VOpq' and cb == 'VOpq':
            x, y = acc('VOpq', 0, a), acc('VOpq', 0, b)
            if op == 'Sub':
                return VOpq(td_of(simplify(micros(x)) - simplify(micros(y))))
            if op == 'FloorDiv':
                if not ex.branch(tdus(y) != 0):
                    ex.raise_('ZeroDivisionError')
                if y.decl().eq(td_of) and is_int_value(simplify(y.arg(0))):
                    k = simplify(y.arg(0)).as_long()
                    return VInt(tdus(x) / k)
                return None
            if op == 'Add':
                return VOpq(dt_of(micros(x) + tdus(y)))
        if op == 'Mult' and {ca, cb} == {'VInt', 'VOpq'}:
            i, o = (a, b) if ca == 'VInt' else (b, a)
            o_ = acc('VOpq', 0, o)
            k = simplify(o_.arg(0)) if o_.decl().eq(td_of) else tdus(o_)
            return VOpq(td_of(acc('VInt', 0, i) * k))
        if op == 'Add' and ca == 'VOpq' and cb is None:
            return None
        return None
    reg.hooks.setdefault('binop', []).append(binop)
    reg.val_methods[('VOpq', 'tzinfo')] = ('attr', lambda ex, o: VOpq(Function(
        'tzinfo', Opq, Opq)(acc('VOpq', 0, o))))
    reg.val_methods[('VOpq', 'astimezone')] = lambda ex, o, a, kw: o
    reg.libs['datetime.datetime.timestamp'] = None

    def epoch_us(ex, a, kw):
        import datetime
        vals = [simplify(ex.as_int(x)).as_long() for x in a]
        d = datetime.datetime(*vals, tzinfo=datetime.timezone.utc)
        return (d - datetime.datetime(1970, 1, 1, tzinfo=datetime.timezone.utc)) // \
            datetime.timedelta(microseconds=1)
    reg.libattrs['datetime.timezone.utc'] = VOpq(Const('utc', Opq))

    def dt_setup(ex, c):
        ex.assume(RECOG['VOpq'](c.v('dt')))
        ex.setcon(c.v('dt'), 'VOpq')
    reg.add(U + 'datetime_to_tid', params={'clock_id': 'opt:int'}, returns='str',
            requires=lambda c: [
                ('aware datetime', And(RECOG['VOpq'](c.v('dt')), is_dt(acc('VOpq', 0, c.v('dt'))))),
                ('from 1970 on', And(micros(acc('VOpq', 0, c.v('dt'))) >= 0,
                                     micros(acc('VOpq', 0, c.v('dt'))) < P11)),
                ('clock id is 10 bits', clock_ok(c))],
            ensures=lambda c, r: [('timestamp part is the exact microseconds', is_tid(
                acc('VStr', 0, r), micros(acc('VOpq', 0, c.v('dt')))))])
    reg.add(U + 'tid_to_datetime', params={'tid': 'str'}, returns='any',
            ensures=lambda c, r: [('exact inverse', Implies(
                s32ok(c.s('tid')), r == VOpq(dt_of(TSNUM(c.s('tid'))))))],
            raises=[('ValueError', None, lambda c: [
                ('a well-formed TID is accepted', Not(And(STR.len_(c.s('tid')) == 13,
                                                          s32ok(c.s('tid')))))])])

    LAST = 'util._tid_ts_last'
    reg.field_spec[LAST] = {'kind': 'int'}
    L = lambda c: acc('VInt', 0, c.h(LAST))
    L0 = lambda c: acc('VInt', 0, c.old(LAST))
    reg.add(U + 'time_ns', returns='int', trusted=True,
            ensures=lambda c, r: [('clock is after 1970 and before 3100', And(
                acc('VInt', 0, r) >= 0, acc('VInt', 0, r) < 35 * 10 ** 18))])
    reg.add(U + 'next_tid', returns='str', modifies=[LAST],
            requires=lambda c: [('last timestamp in range', And(
                RECOG['VInt'](c.h(LAST)), L(c) >= 0, L(c) < P11 - 1))],
            ensures=lambda c, r: [
                ('last timestamp strictly increases', And(RECOG['VInt'](c.h(LAST)),
                                                          L(c) > L0(c))),
                ('result is the TID of the new last timestamp', is_tid(acc('VStr', 0, r), L(c))),
                ('not before the clock', BoolVal(True))])
    # history lemma: any TID of a later call is greater than any TID of an earlier one
    x, y = Consts('tid1 tid2', Str)
    n, m = Ints('last1 last2')
    reg.lemma('tid_order', [
        ('later TID is greater', [is_tid(x, n), is_tid(y, m), n < m, sord(x) > 0, sord(y) > 0],
         sord(x) < sord(y))], 'timestamps order TIDs as strings, whatever the clock ids')
    reg.libs['random.randint'] = randint
    reg.func_models['util.<none>'] = None


def randint(ex, a, kw):
    lo, hi = ex.as_int(a[0]), ex.as_int(a[1])
    r = ex.fresh('rand', Int_)
    ex.assume(And(lo <= r, r <= hi))
    return VInt(r)
