"""TIDs against an independent codec, on the real code."""
from datetime import datetime, timedelta, timezone
from common import *
from arroba import util

ALPHA = '234567abcdefghijklmnopqrstuvwxyz'


def ref_encode(n, width):
    s = ''
    for _ in range(width):
        s = ALPHA[n % 32] + s
        n //= 32
    return s


def ref_decode(s):
    n = 0
    for c in s:
        n = n * 32 + ALPHA.index(c)
    return n


def interesting(rng):
    k = rng.random()
    if k < .25:
        e = rng.randrange(0, 56)
        return max(0, min(2 ** 55 - 1, 2 ** e + rng.randrange(-2, 3)))
    if k < .4:
        return rng.randrange(0, 40)
    if k < .7:
        return 32 ** rng.randrange(0, 11) * rng.randrange(0, 32)
    return rng.randrange(0, 2 ** 55)


def gen_pair(rng, n, scale):
    if n >= 4000 * scale:
        return None
    a = interesting(rng)
    b = a + 1 if rng.random() < .3 else interesting(rng)
    return {'a': a, 'b': min(b, 2 ** 55 - 1), 'clock': [rng.choice([None, 0, 1, 5, 31, 32, 33,
            1023, rng.randrange(1024)]) for _ in range(2)]}


def run_pair(c):
    t = []
    for n, k in zip((c['a'], c['b']), c['clock']):
        s = util.int_to_tid(n, clock_id=k)
        if len(s) != 13 or any(ch not in ALPHA for ch in s):
            raise Fail(f'int_to_tid({n}, {k}) = {s!r} is not 13 base32-sortable characters')
        if s[:11] != ref_encode(n, 11):
            raise Fail(f'int_to_tid({n}, {k}) = {s!r}: timestamp part should be {ref_encode(n, 11)}')
        if util.tid_to_int(s) != n:
            raise Fail(f'tid_to_int({s!r}) = {util.tid_to_int(s)}, expected {n}')
        t.append(s)
    if (c['a'] < c['b']) and not t[0] < t[1]:
        raise Fail(f'{c["a"]} < {c["b"]} but {t[0]} >= {t[1]}')


def gen_bad(rng, n, scale):
    if n >= 300 * scale:
        return None
    return {'s': ''.join(rng.choice(ALPHA) for _ in range(rng.choice([0, 1, 11, 12, 14, 15, 26])))}


def run_bad(c):
    try:
        r = util.tid_to_int(c['s'])
    except ValueError:
        return
    raise Fail(f'tid_to_int({c["s"]!r}) = {r}: accepted {len(c["s"])} characters')


def gen_dt(rng, n, scale):
    if n >= 4000 * scale:
        return None
    us = interesting(rng) % (250_000_000_000_000_000)
    return {'us': us, 'off': rng.choice([0, 0, 60, -420, 345])}


def run_dt(c):
    e = datetime(1970, 1, 1, tzinfo=timezone.utc)
    dt = (e + timedelta(microseconds=c['us'])).astimezone(timezone(timedelta(minutes=c['off'])))
    s = util.datetime_to_tid(dt, clock_id=3)
    if ref_decode(s[:11]) != c['us']:
        raise Fail(f'datetime_to_tid({dt.isoformat()}) = {s}: encodes {ref_decode(s[:11])}us, '
                   f'expected {c["us"]}')
    if util.tid_to_datetime(s) != dt:
        raise Fail(f'tid_to_datetime({s}) = {util.tid_to_datetime(s)}, expected {dt}')


def gen_clock(rng, n, scale):
    if n >= 300 * scale:
        return None
    t = interesting(rng) % 10 ** 16
    out = []
    for _ in range(rng.randrange(2, 14)):
        t += rng.choice([0, 0, 0, 1, 1, 999, -1, -1000, -5_000_000, 1_000_000,
                         rng.choice([-1, -1, 1]) * 10 ** rng.randrange(15)])
        out.append(max(0, t))
    return {'start': rng.choice([0, 0, max(0, t)]), 'us': out, 'ns': rng.randrange(1000)}


def run_clock(c):
    seq = [u * 1000 + c['ns'] for u in c['us']]
    it = iter(seq)
    old = util.time_ns, util._tid_ts_last
    try:
        util.time_ns = lambda: next(it)
        util._tid_ts_last = c['start']
        prev = util.int_to_tid(c['start'])
        for u in c['us']:
            s = util.next_tid()
            if len(s) != 13 or not s > prev:
                raise Fail(f'next_tid() returned {s} after {prev} (clock readings {c["us"]} us)')
            if ref_decode(s[:11]) < u:
                raise Fail(f'next_tid() returned {s}, before the clock ({u} us)')
            prev = s
    finally:
        util.time_ns, util._tid_ts_last = old


Finder({'C11': [('tid-codec', gen_pair, run_pair), ('tid-length', gen_bad, run_bad),
                ('tid-datetime', gen_dt, run_dt)],
        'C12': [('next-tid', gen_clock, run_clock)]},
       rule='timestamps biased to powers of 2 and 32 and neighbours, clock ids over the whole '
            'range; clock readings that repeat and go backwards; distinct inputs count').main()
