"""Bounded cross-check of the firehose (C14, C15): the real collector and subscribers run as
threads that hand each other a baton at every lock, queue, wait, stored event and delivered event,
in an order chosen by a seeded generator, with a controlled clock."""
import os, random, sys, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import Finder, Fail
from datetime import timedelta
from types import SimpleNamespace
from arroba import firehose, server, util
from arroba.repo import Repo, Write
from arroba.storage import Action, Block, MemoryStorage

KEY = util.new_key(seed=31)
NSID = 'com.atproto.sync.subscribeRepos'


class Done(BaseException):
    pass


class Sched:
    def __init__(self, seed):
        self.rng = random.Random(seed)
        self.threads, self.cur, self.over = [], None, False
        self.errors = []
        self.finished = threading.Event()
        self.steps = 0

    def spawn(self, name, fn):
        t = SimpleNamespace(name=name, sem=threading.Semaphore(0), cond=None, alive=True)

        def body():
            t.sem.acquire()
            try:
                if not self.over:
                    fn()
            except Done:
                pass
            except BaseException as e:
                self.errors.append((name, e))
            t.alive = False
            if not self.over:
                self.next()
        t.thread = threading.Thread(target=body, daemon=True)
        self.threads.append(t)
        t.thread.start()
        return t

    def next(self):
        """hands the baton to some thread that can run, or ends"""
        self.steps += 1
        ready = [t for t in self.threads if t.alive and (t.cond is None or t.cond())]
        if not ready or self.steps > 20000:
            self.over = True
            self.finished.set()
            return
        self.cur = self.rng.choice(ready)
        self.cur.cond = None
        self.cur.sem.release()

    def pause(self, cond=None, rare=0):
        me = self.cur
        if me is None or self.over:
            raise Done
        if cond is None and self.rng.random() < rare:
            return
        me.cond = cond
        self.next()
        me.sem.acquire()
        if self.over:
            raise Done

    def run(self):
        self.next()
        if not self.finished.wait(20):
            self.over = True
        self.over = True
        for t in self.threads:
            t.sem.release()
        for t in self.threads:
            t.thread.join(2)


class Lock:
    def __init__(self, s):
        self.s, self.owner, self.depth = s, None, 0

    def __enter__(self):
        s = self.s
        if s.over:
            return
        if self.owner is not s.cur:
            s.pause()
            while self.owner is not None and self.owner is not s.cur:
                s.pause(lambda: self.owner is None)
        self.owner = s.cur
        self.depth += 1

    def __exit__(self, *a):
        if self.s.over:
            return
        self.depth -= 1
        if not self.depth:
            self.owner = None
    acquire, release = __enter__, lambda self: self.__exit__()


class World:
    def __init__(self, case):
        self.case = case
        self.clock = 1000.0
        self.s = Sched(case['seed'])
        self.notified = self.in_wait = False
        self.waits = 0
        self.emitted = []       # (seq, payload, clock, lost then, newest then)
        self.subs = []
        self.writing = True


def run_case(case, prop):
    w = World(case)
    s = w.s
    st = MemoryStorage()
    old = {k: getattr(firehose, k) for k in (
        'new_events', 'subscribers', 'collector', 'rollback', 'started', 'lock', 'lost_seqs',
        'lost_seqs_lock', 'SimpleQueue', 'time', 'ROLLBACK_WINDOW', 'PRELOAD_WINDOW',
        'SUBSCRIBE_REPOS_BATCH_DELAY', 'SUBSCRIBE_REPOS_SKIPPED_SEQ_WINDOW',
        'SUBSCRIBE_REPOS_SKIPPED_SEQ_DELAY') if hasattr(firehose, k)}
    old_storage = server.storage
    server.storage = st
    repo = Repo.create(st, 'did:plc:fire', handle='f.com', signing_key=KEY)
    n = [0]

    def write(kind):
        """writes something to storage now"""
        if kind == 'commit':
            n[0] += 1
            st.commit(repo, [Write(Action.CREATE, 'a.b.c', f'k{n[0]}', {'$type': 'a.b.c',
                                                                       'n': n[0]})])
        elif kind == 'event':
            n[0] += 1
            st.write_event(repo, 'account', active=True, n=n[0])
        else:
            seq = st.sequences.allocate(NSID)
            if kind == 'lost':
                firehose.mark_seq_lost(seq)
            return seq

    def late(seq):
        if firehose.rollback is None or seq <= (c.last_seq or 0):
            passed.add(seq)     # the collector has gone past it, or may have
        b = Block(decoded={'$type': f'{NSID}#account', 'seq': seq, 'did': repo.did, 'late': True,
                           'time': '2025-01-01T00:00:00+00:00'}, seq=seq)
        b.repo = repo.did
        b.time = util.now() if hasattr(util, 'now') else None
        st.write_blocks([b])

    class Cond:
        def __enter__(self):
            return self

        def __exit__(self, *a):
            pass

        def wait(self, timeout=None):
            if w.waits > case['waits']:
                raise Done
            if not w.writing:
                w.waits += 1
            n0 = w.notified
            w.in_wait = True
            s.pause()
            w.in_wait = False
            if not w.notified:
                w.clock += timeout or 0
            w.notified = False
            return True

        def notify_all(self):
            w.notified = True
        notify = notify_all

    class Queue:
        def __init__(self):
            self.q, self.owner = [], s.cur
            owners[s.cur.name] = self

        def put_nowait(self, x):
            self.q.append(x)
        put = put_nowait

        def get(self, *a, **kw):
            s.pause(lambda: bool(self.q))
            return self.q.pop(0)

        def empty(self):
            return not self.q

        def qsize(self):
            return len(self.q)
    owners = {}

    class Probe:
        """an enrolled subscriber that observes every emission"""
        def put_nowait(self, x):
            if not firehose.rollback or firehose.rollback[-1] is not x and \
                    firehose.rollback[-1] != x:
                raise Boom('an event is delivered that is not the newest of the window')
            w.waits = 0
            w.emitted.append((x[1]['seq'], x[1], w.clock, set(firehose.lost_seqs),
                              st.sequences.last(NSID), [u for u in w.subs if u.q() in
                                                        firehose.subscribers]))
        put = put_nowait

    class Boom(Exception):
        pass
    delay, window = 10.0, case['skip']
    firehose.lock = Lock(s)
    firehose.lost_seqs_lock = Lock(s)
    firehose.lost_seqs = set()
    firehose.subscribers = [Probe()]
    firehose.rollback = None
    firehose.new_events = Cond()
    firehose.SimpleQueue = Queue
    firehose.time = SimpleNamespace(time=lambda: w.clock, sleep=lambda x: s.pause(),
                                    monotonic=lambda: w.clock)
    firehose.ROLLBACK_WINDOW, firehose.PRELOAD_WINDOW = case['rollback'], case['preload']
    firehose.SUBSCRIBE_REPOS_BATCH_DELAY = timedelta(0)
    firehose.SUBSCRIBE_REPOS_SKIPPED_SEQ_WINDOW = window
    firehose.SUBSCRIBE_REPOS_SKIPPED_SEQ_DELAY = timedelta(seconds=delay)

    class Started:
        def __init__(self):
            self.on = False

        def wait(self, *a):
            if not self.on:
                s.pause(lambda: self.on)

        def set(self):
            self.on = True
        is_set = lambda self: self.on
    firehose.started = Started()
    real_read = st.read_events_by_seq

    def read_events(*a, **kw):
        for e in real_read(*a, **kw):
            s.pause(rare=.5)
            yield e
    held, passed = [], set()
    try:
        for k in case['before']:
            x = write(k)
            if k == 'late':
                held.append(x)
        write('event')
        st.read_events_by_seq = read_events
        started_at = st.sequences.last(NSID)

        def writer():
            pend = list(held)
            for k in case['script']:
                s.pause()
                if k == 'flush':
                    if pend:
                        late(pend.pop(0))
                elif k == 'tick':
                    s.pause(lambda: w.in_wait)      # time passes while the collector waits
                    w.clock += 4
                elif k == 'notify':
                    firehose.send_events()
                else:
                    x = write(k)
                    if k == 'late':
                        pend.append(x)
            w.writing = False

        class C(firehose.Collector):
            def start(self):
                pass
        c = C()

        def collector():
            w.start_clock = w.clock
            real = type(c)._collect
            preloaded = []

            def collect():
                w.preloaded = list(firehose.rollback)
                w.collect_last = c.last_seq
                w.start_clock = w.clock
                try:
                    real(c)
                except Done:
                    pass
                except BaseException as e:
                    s.errors.append(('collector', e))
            c._collect = collect
            c.run()
        firehose.collector = c
        s.spawn('writer', writer)
        s.spawn('collector', collector)

        def subscriber(u):
            def body():
                for _ in range(u.after):
                    s.pause()
                firehose.started.wait()
                u.emitted0 = len(w.emitted)
                u.window0 = [p for _, p in firehose.rollback]
                rb = u.window0[0]['seq'] if u.window0 else 0
                u.stored0 = set()
                for e in real_read(start=0):
                    q = e['seq'] if isinstance(e, dict) else e.commit.seq
                    if q < rb and q not in passed:
                        u.stored0.add(q)
                u.begun = True
                for header, payload in firehose.subscribe(u.cursor):
                    u.got.append(payload)
                    s.pause(rare=u.fast)
            return body
        for k, (cur, after, fast) in enumerate(case['subs']):
            u = SimpleNamespace(cursor=None if cur is None else max(0, started_at + cur),
                                after=after, got=[], begun=False, name=f'sub{k}', fast=fast)
            u.q = lambda u=u: owners.get(u.name)
            w.subs.append(u)
            s.spawn(u.name, subscriber(u))
        s.run()
        if s.steps > 20000:
            return
        final = {}
        for e in real_read(start=0):
            q = e['seq'] if isinstance(e, dict) else e.commit.seq
            final[q] = e
        judge(w, s, final, delay, window, prop, owners)
    finally:
        s.over = True
        for k, v in old.items():
            setattr(firehose, k, v)
        server.storage = old_storage


def judge(w, s, final, delay, window, prop, owners):
    case = w.case
    total = len(w.emitted)
    for name, e in s.errors:
        if name.startswith('sub') and isinstance(e, AssertionError):
            u = next(u for u in w.subs if u.name == name)
            if total + len(w.preloaded) - 0 >= case['rollback']:
                u.begun = False     # fell out of the window
                continue
        raise Fail(f'{name} died: {e!r}')
    if not hasattr(w, 'preloaded'):
        return
    last = w.collect_last
    when = w.start_clock
    if prop == 'C15':
        pre = [p['seq'] for _, p in w.preloaded]
        if pre != sorted(set(pre)):
            raise Fail(f'preloaded window {pre}')
        roll = [p['seq'] for _, p in firehose.rollback]
        if roll != sorted(set(roll)) or len(roll) > case['rollback']:
            raise Fail(f'window {roll}')
        tail = (pre + [e[0] for e in w.emitted])[-case['rollback']:]
        if roll[-len(tail):] != tail:
            raise Fail(f'window {roll} does not end with what was emitted, {tail}')
    for seq, payload, now, lost, newest, enrolled in w.emitted:
        if seq <= last:
            raise Fail(f'emitted {seq} after {last}')
        if prop == 'C15':
            for q in range(last + 1, seq):
                if q in lost or now - when > delay or newest - q > window:
                    continue
                raise Fail(f'emitted {seq} after {last} without {q}: not lost, only '
                           f'{now - when}s after the last event, newest is {newest}')
            e = final[seq]
            if (isinstance(e, dict) and (payload['did'] != e['did'] or payload.get('n') != e.get(
                    'n'))) or (not isinstance(e, dict) and payload['commit'] != e.commit.cid):
                raise Fail(f'event {seq} emitted with other contents')
            for u in w.subs:
                if u in enrolled and payload not in [p for p in u.got] and payload not in [
                        p for _, p in owners[u.name].q]:
                    raise Fail(f'{seq} was not delivered to an enrolled subscriber')
        last, when = seq, now
    if prop == 'C15':
        # after several timeouts with nothing new, everything was emitted or passed over
        end = w.emitted[-1][0] if w.emitted else w.collect_last
        missed = [q for q in final if q > end]
        if missed and w.waits > w.case['waits']:
            raise Fail(f'stored events {missed} are never emitted; last emitted {end}')
    else:
        for u in w.subs:
            if not u.begun:
                continue
            got = [p['seq'] for p in u.got]
            if got != sorted(set(got)):
                raise Fail(f'subscriber from {u.cursor} got {got}')
            live = [e[0] for e in w.emitted[u.emitted0:]]
            if u.cursor is None:
                must = [e[0] for e in w.emitted if u in e[5]]
            else:
                must = u.stored0 | {p['seq'] for p in u.window0} | set(live)
                must = sorted(q for q in must if q >= u.cursor)
            miss = [q for q in must if q not in got]
            if miss:
                raise Fail(f'subscriber from {u.cursor} missed {miss}, got {got}, window at its '
                           f'start {[p["seq"] for p in u.window0]}')
            for p in u.got:
                e = final[p['seq']]
                if isinstance(e, dict):
                    if p['did'] != e['did'] or p.get('n') != e.get('n'):
                        raise Fail(f'event {p["seq"]} delivered with other contents')
                elif p['commit'] != e.commit.cid:
                    raise Fail(f'commit {p["seq"]} delivered with other contents')


def gen(count):
    def g(rng, n, scale):
        if n >= count * scale:
            return None
        kinds = ['event'] * 6 + ['commit', 'lost', 'never', 'late', 'flush', 'tick', 'notify',
                                 'notify', 'notify']
        return {
            'seed': rng.randrange(10**9),
            'before': [rng.choice(['event'] * 6 + ['commit', 'lost', 'never', 'late'])
                       for _ in range(rng.randrange(14))],
            'script': [rng.choice(kinds) for _ in range(rng.randrange(24))],
            'subs': [[rng.choice([None, 1, 0, -1, -2, -4, -6, -9, -15, 2, 3]),
                      rng.choice([0, 0, 1, 3, 8]), rng.choice([0, 0, .5, .9])]
                     for _ in range(rng.choice([1, 1, 2, 3]))],
            'rollback': rng.choice([3, 5, 8, 50, 50, 50]),
            'preload': rng.choice([1, 2, 4, 4, 50]),
            'skip': rng.choice([0, 1, 2, 5, 50]), 'waits': 5}
    return g


CHECKS = {p: [('schedules', gen(400), lambda c, p=p: run_case(c, p))] for p in ('C14', 'C15')}
if __name__ == '__main__':
    Finder(CHECKS, rule='random histories of events, commits, lost, late and missing sequence '
           'numbers, 1-3 subscribers, window sizes 3-50, seeded schedules').main()
