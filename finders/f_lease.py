"""Bounded cross-check of memcache leases (C24): a simulated memcache and clock."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import Finder, Fail
from datetime import datetime, timedelta, timezone
import webutil.util
from arroba import memcache
import time as time_mod

EPOCH = datetime(2024, 1, 1, tzinfo=timezone.utc)


class Sim:
    def __init__(self, steps):
        self.t, self.steps, self.k = 0, steps, 0
        self.store, self.adds, self.dels, self.reads, self.slept = {}, [], [], [], []

    def tick(self):
        if self.steps:
            self.t += self.steps[self.k % len(self.steps)]
            self.k += 1

    def now(self, *a, **kw):
        self.tick()
        self.reads.append(self.t)
        return EPOCH + timedelta(microseconds=self.t)

    def sleep(self, secs):
        self.slept.append(secs)
        self.t += int(secs * 10**6)


class Client:
    def __init__(self, sim, taken):
        self.sim, self.taken = sim, list(taken)

    def add(self, key, value, expire=0, noreply=None, **kw):
        s = self.sim
        start = s.t
        s.tick()
        other = self.taken.pop(0) if self.taken else False
        held = key in s.store and (s.store[key] is None or s.store[key] > s.t)
        ok = not held and not other
        if ok:
            s.store[key] = s.t + expire * 10**6 if expire else None
        s.adds.append({'key': key, 'expire': expire, 'start': start, 'ok': ok,
                       'int': isinstance(expire, int)})
        s.tick()
        return True if noreply is None or noreply else ok

    def set(self, *a, **kw):
        raise Fail('the key was set, not added')

    def delete(self, key, *a, **kw):
        s = self.sim
        s.dels.append({'key': key, 'read': s.reads[-1] if s.reads else None})
        s.store.pop(key, None)
        s.tick()
        return True

    def get(self, key, *a, **kw):
        return self.sim.store.get(key)


def gen(rng, n, scale):
    if n >= 2000 * scale:
        return None
    exp = rng.choice([1, 500_000, 999_999, 1_000_000, 1_000_001, 1_500_000, 60_000_000,
                      300_000_000, rng.randrange(1, 10**9)])
    retries = rng.randrange(5)
    return {'exp': exp, 'retries': retries, 'delay': rng.choice([0, 1000, 5_000_000]),
            'taken': [rng.random() < .5 for _ in range(rng.randrange(8))],
            'steps': [rng.choice([0, 0, 1, 1000, exp // 2, exp // 3, exp]) for _ in range(5)],
            'work': rng.choice([0, 1, exp // 2, exp - 1, exp, exp + 1, 2 * exp]),
            'cm': rng.random() < .4, 'boom': rng.random() < .3}


def run(c):
    sim = Sim(c['steps'])
    client = Client(sim, c['taken'])
    old = webutil.util.now, time_mod.sleep
    webutil.util.now, time_mod.sleep = sim.now, sim.sleep
    try:
        run2(c, sim, client)
    finally:
        webutil.util.now, time_mod.sleep = old


class Boom(Exception):
    pass


def run2(c, sim, client):
    lease = memcache.Lease(client, 'k', expiration=timedelta(microseconds=c['exp']),
                           retries=c['retries'],
                           initial_retry_delay=timedelta(microseconds=c['delay']))
    if sim.adds or lease.expires_at:
        raise Fail('a new lease is already held')
    got = boomed = False
    try:
        if c['cm']:
            with lease:
                got = True
                checkheld(c, sim)
                sim.t += c['work']
                if c['boom']:
                    raise Boom()
        else:
            lease.acquire()
            got = True
            checkheld(c, sim)
            sim.t += c['work']
            lease.release()
    except RuntimeError:
        if got:
            raise
    except Boom:
        boomed = True
    if c['cm'] and c['boom'] and got and not boomed:
        raise Fail('an exception was swallowed')
    want = any(not x for x in (c['taken'] + [False] * 9)[:c['retries'] + 1])
    if not got:
        if len(sim.adds) != c['retries'] + 1 or any(a['ok'] for a in sim.adds):
            raise Fail(f'gave up after {sim.adds}')
        if lease.expires_at or sim.dels:
            raise Fail('lease held or key deleted after failing to acquire')
        if want:
            raise Fail('not acquired')
        return
    add = next(a for a in sim.adds if a['ok'])
    if len(sim.dels) > 1:
        raise Fail(f'deletes {sim.dels}')
    if sim.dels:
        d = sim.dels[0]
        if d['key'] != 'k':
            raise Fail(f'deleted {d["key"]}')
        if d['read'] is None or d['read'] > add['start'] + c['exp']:
            raise Fail(f'deleted at {d["read"]}us, but the lease was acquired at '
                       f'{add["start"]}us for {c["exp"]}us')
    elif sim.t <= add['start'] + c['exp']:
        raise Fail('not released although it had not expired')


def checkheld(c, sim):
    if not sim.adds or not sim.adds[-1]['ok'] or sum(a['ok'] for a in sim.adds) != 1:
        raise Fail(f'acquired without adding the key: {sim.adds}')
    a = sim.adds[-1]
    if a['key'] != 'k' or len(sim.adds) > c['retries'] + 1:
        raise Fail(f'adds {sim.adds}')
    if not a['int'] or a['expire'] < 1 or a['expire'] * 10**6 < c['exp']:
        raise Fail(f"expiration {a['expire']}s for a lease of {c['exp']}us")


if __name__ == '__main__':
    Finder({'C24': [('lease', gen, run)]},
           rule='random lease lengths, retries, competing holders and clock steps against a '
                'simulated memcache').main()
