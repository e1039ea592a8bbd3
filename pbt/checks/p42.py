"""P42: data queues and thread-safe generators deliver the data once, in order, without running ahead."""
import importlib
import threading
import time

from pbt.core import *
from hyperion.utils.multithreading import ThreadSafeIter, threadsafe_generator

RULE = 'two or more workers or threads and more items than the queue holds'
MOD = {k: importlib.import_module('hyperion.%s.queues' % k) for k in ('utils', 'io')}
LIMIT = 20.0        # seconds until a queue is taken as stuck; the cases take milliseconds


def quiet(fn):
    """errors of the worker threads are not printed"""
    def w(c, ctx):
        old, threading.excepthook = threading.excepthook, lambda a: None
        try:
            fn(c, ctx)
        finally:
            threading.excepthook = old
    w.__name__, w.__doc__ = fn.__name__, fn.__doc__
    return w


def until(cond, what):
    t = time.time()
    while not cond():
        if time.time() - t > LIMIT:
            raise Violation('%s (%d s)' % (what, LIMIT))
        time.sleep(0.001)


class Within(object):
    """runs fn in a thread; a violation when it does not come back"""

    def __init__(self, what):
        self.what = what

    def __call__(self, fn):
        out = []

        def run():
            try:
                out.append((True, fn()))
            except BaseException as e:      # noqa
                out.append((False, e))
        t = threading.Thread(target=run)
        t.daemon = True
        t.start()
        t.join(LIMIT)
        if t.is_alive():
            raise Violation(self.what + ' does not return')
        if not out[0][0]:
            raise out[0][1]
        return out[0][1]


class Source(object):
    """endless generator that counts; some items take longer, some are None; may fail"""

    def __init__(self, delays, nones=(), fail=None, wrap=True):
        self.n, self.delays, self.nones, self.fail = 0, delays, set(nones), fail

    def gen(self):
        i = 0
        while True:
            if self.fail is not None and i >= self.fail:
                raise ValueError('no more data')
            d = self.delays[i % len(self.delays)] if self.delays else 0
            if d:
                time.sleep(d * 1e-3)
            self.n = i + 1
            yield None if i in self.nones else (i, 'x%d' % i)
            i += 1


delays_st = st.lists(st.sampled_from([0, 0, 0, 1, 3]), max_size=5)


@sub('P42', fd(threads=st.integers(1, 6), n=st.integers(0, 60), delays=delays_st, deco=st.booleans(), seed=seeds), quick=60, thorough=600, nontrivial=lambda c: c['threads'] > 1 and c['n'] > 10)
@quiet
def shared_generators(c, ctx):
    """threads that share a generator get every item once, each thread in order, and all of them see the end"""
    running = []
    peak = [0]

    def gen(n, tag='t'):
        for i in range(n):
            running.append(i)
            peak[0] = max(peak[0], len(running))
            d = c['delays'][i % len(c['delays'])] if c['delays'] else 0
            time.sleep(d * 1e-4)
            running.remove(i)
            yield (tag, i)
    it = threadsafe_generator(gen)(c['n'], tag='u') if c['deco'] else ThreadSafeIter(gen(c['n'], 'u'))
    require(iter(it) is it, 'the iterator is not its own iterator')
    got = [[] for _ in range(c['threads'])]
    errs = []

    def work(k):
        try:
            for x in it:
                got[k].append(x)
        except Exception as e:      # noqa
            errs.append(e)
    ts = [threading.Thread(target=work, args=(k,)) for k in range(c['threads'])]
    for t in ts:
        t.daemon = True
        t.start()
    for t in ts:
        t.join(LIMIT)
        require(not t.is_alive(), 'a thread does not see the end of the data')
    require(not errs, 'error in a thread: %r', errs[:1])
    for g in got:
        eq([x[1] for x in g], sorted(x[1] for x in g), 'order in a thread')
    eq(sorted(x for g in got for x in g), [('u', i) for i in range(c['n'])], 'items of all the threads')
    require(peak[0] <= 1, 'the generator ran in two threads at once')


@sub('P42', fd(mod=st.sampled_from(['utils', 'io']), workers=st.integers(1, 4), size=st.integers(1, 6), take=st.integers(0, 25), delays=delays_st, slow=st.booleans(), nones=st.lists(st.integers(0, 20), max_size=6), again=st.booleans(), timeout=st.booleans()),
     quick=60, thorough=500, nontrivial=lambda c: c['workers'] > 1 and c['take'] > c['size'])
@quiet
def generator_queues(c, ctx):
    """the consumer gets the items of the generator, none twice, at most a queue ahead; stopping ends the workers"""
    Q = MOD[c['mod']]
    src = Source(c['delays'], c['nones'])
    q = Q.GeneratorQueue(ThreadSafeIter(src.gen()) if c['workers'] > 1 else src.gen(), wait_time=0.001)
    require(not q.is_running(), 'running before the start')
    first = 0
    before = threading.active_count()
    for rnd in range(2 if c['again'] else 1):
        q.start(workers=c['workers'], max_queue_size=c['size'])
        require(q.is_running(), 'not running after the start')
        it = q.get()
        got = []
        ahead = []
        for i in range(c['take']):
            x = Within('get')(lambda: next(it))
            got.append(x[0])
            eq(x[1], 'x%d' % x[0], 'item')
            ahead.append(src.n)
            if c['slow'] and i == c['take'] // 2:
                time.sleep(0.02)
                # a full queue stops the workers (each may hold one item)
                lim = first + i + 1 + len([k for k in c['nones'] if k < src.n]) + c['size'] + c['workers'] + 1
                require(src.n <= lim, '%d items made, %d taken, queue of %d', src.n, i + 1, c['size'])
        require(None not in got, 'None delivered')
        eq(len(set(got)), len(got), 'items delivered twice %s; number of items' % got)
        if c['workers'] == 1:
            want = [i for i in range(first, first + 200) if i not in c['nones']][:c['take']]
            eqlist(got, want, 'items')
        elif got:
            # items are in the order made up to those that the other workers hold
            made = [i for i in range(first, max(got) + 1) if i not in c['nones']]
            require(len(made) - len(got) <= c['workers'] - 1 + 0, 'items missing: %s', got)
            require(min(got) >= first, 'item of the time before')
        if got and not c['slow']:
            pass
        Within('stop')(lambda: q.stop(*([5] if c['timeout'] else [])))
        require(not q.is_running(), 'running after the stop')
        until(lambda: threading.active_count() <= before, 'threads left after the stop')
        n = src.n
        time.sleep(0.005)
        eq(src.n, n, 'items made after the stop')
        first = n
    raises(lambda: next(q.get()), 'items after the stop', StopIteration)


@sub('P42', fd(mod=st.sampled_from(['utils', 'io']), workers=st.integers(1, 3), fail=st.integers(0, 6), size=st.integers(1, 4)), quick=25, thorough=200, nontrivial=lambda c: c['fail'] > 1)
@quiet
def failing_generators(c, ctx):
    """a generator that fails ends the consumer, which never waits for ever"""
    Q = MOD[c['mod']]
    src = Source([], fail=c['fail'])
    q = Q.GeneratorQueue(ThreadSafeIter(src.gen()), wait_time=0.001)
    q.start(workers=c['workers'], max_queue_size=c['size'])
    got = Within('the consumer of a failed generator')(lambda: [x[0] for x in q.get()])
    eqlist(sorted(got), sorted(set(got)), 'items')
    require(all(0 <= x < c['fail'] for x in got), 'items %s of %d', got, c['fail'])
    require(not q.is_running(), 'running after the failure')
    Within('stop')(q.stop)


def process_source(r, n):
    while True:
        yield float(np.random.rand())


@sub('P42', fd(workers=st.integers(1, 3), seed=st.integers(0, 1000), n=st.integers(1, 6)), quick=12, thorough=60, nontrivial=lambda c: c['workers'] > 1)
@quiet
def worker_processes(c, ctx):
    """worker processes draw from different, repeatable random streams"""
    q = MOD['utils'].GeneratorQueue(process_source(None, 0), use_multiprocessing=True, wait_time=0.001, random_seed=c['seed'])
    q.start(workers=c['workers'], max_queue_size=3)
    try:
        it = q.get()
        got = [Within('get')(lambda: next(it)) for _ in range(c['n'] * c['workers'])]
    finally:
        q.stop()
    # the draws of every worker are a prefix of its own stream
    streams = [list(np.random.RandomState(c['seed'] + k).rand(400)) for k in range(c['workers'])]
    pos = {}
    for k, s in enumerate(streams):
        for i, v in enumerate(s):
            pos[v] = (k, i)
    seen = {}
    for v in got:
        require(v in pos, 'value that is in none of the streams of the seeds')
        k, i = pos[v]
        seen.setdefault(k, []).append(i)
    for k, i in seen.items():
        eqlist(i, range(len(i)), 'draws of worker %d' % k)


class Seq(object):
    def __init__(self, n, delays=(), nones=(), fail=None):
        self.n, self.delays, self.nones, self.fail = n, list(delays), set(nones), fail

    def __len__(self):
        return self.n

    def __getitem__(self, i):
        if i == self.fail:
            raise ValueError('element %d' % i)
        d = self.delays[i % len(self.delays)] if self.delays else 0
        time.sleep(d * 1e-3)
        return None if i in self.nones else (i, 'y%d' % i)


@sub('P42', fd(mod=st.sampled_from(['utils', 'io']), workers=st.integers(1, 4), size=st.integers(1, 6), n=st.integers(1, 8), rounds=st.integers(1, 3), delays=delays_st, nones=st.lists(st.integers(0, 7), max_size=3), shuffle=st.booleans(), fail=st.one_of(st.none(), st.none(), st.integers(0, 7))),
     quick=60, thorough=500, nontrivial=lambda c: c['workers'] > 1 and c['n'] > 2)
@quiet
def ordered_queues(c, ctx):
    """elements come in the order of the sequence whichever worker ends first (every round all of them when shuffled); errors reach the consumer"""
    Q = MOD[c['mod']]
    nones = [i for i in c['nones'] if i < c['n'] - 1]
    fail = c['fail'] if c['fail'] is not None and c['fail'] < c['n'] else None
    if fail in nones:
        fail = None
    q = Q.OrderedQueue(Seq(c['n'], c['delays'], nones, fail), scheduling='random' if c['shuffle'] else 'sequential')
    require(not q.is_running(), 'running before the start')
    before = threading.active_count()
    q.start(workers=c['workers'], max_queue_size=c['size'])
    require(q.is_running(), 'not running after the start')
    it = q.get()
    keep = [i for i in range(c['n']) if i not in nones]
    total = len(keep) * c['rounds']
    got = []
    try:
        for _ in range(total):
            x = Within('get')(lambda: next(it))
            eq(x[1], 'y%d' % x[0], 'element')
            got.append(x[0])
        require(fail is None, 'the error of element %s was hidden: %s', fail, got)
    except ValueError as e:
        require(fail is not None and 'element %d' % fail in str(e), 'error %r', e)
        require(not q.is_running(), 'running after the error')
        if not c['shuffle']:
            eqlist(got, [i for i in keep if i < fail], 'elements before the error')
        until(lambda: threading.active_count() <= before, 'threads left after the error')
        return
    for k in range(c['rounds']):
        g = got[k * len(keep):(k + 1) * len(keep)]
        eqlist(sorted(g) if c['shuffle'] else g, keep, 'elements of round %d' % k)
    Within('stop')(q.stop)
    require(not q.is_running(), 'running after the stop')
    until(lambda: threading.active_count() <= before, 'threads left after the stop')
