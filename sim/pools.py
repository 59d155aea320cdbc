"""Simulated process pools: seeded workers, schedules and failures in one process.

A worker process is modelled by copying the function and its arguments with dill at the moment the
task is handed over (as multiprocess does), executing it on the copy, and copying the result back.
Time is virtual; which worker takes the next task and which finishes next is drawn from the seed.
"""
import dill, random, threading
from collections import deque
from core import Violation, fired, probe
import core


class Lost(Violation):
    pass


class InjectedError(OSError):
    """The failure injected into a task."""


class Sim:
    """One pool scenario: seed, failing tasks, failing creation."""
    def __init__(self, seed, fail=None, create_fail=False, line_hook=None):
        self.r = random.Random(seed)
        self.fail = dict(fail or {})          # nth task started (0-based) -> descriptor
        self.create_fail = create_fail
        self.pools = []
        self.started = 0
        self.t = 0.0
        self.order = []                       # completion order of tasks
        self.done = 0


class _Current(threading.local):
    """The scenario of the running thread; used as CURRENT[0]."""
    sim = None

    def __getitem__(self, i):
        return self.sim

    def __setitem__(self, i, v):
        self.sim = v


CURRENT = _Current()


class Task:
    __slots__ = ('job', 'idx', 'func', 'args', 'star', 'n')


class Job:
    def __init__(self, pool, n, callback=None, error_callback=None):
        self.pool, self.n, self.res, self.left = pool, n, {}, n
        self.callback, self.error_callback = callback, error_callback
        self.completed = deque()
        self.single = False

    def deliver(self, idx, ok, vals):
        # chunk result: ok -> list of values for idx.., else the exception for the chunk
        for k, i in enumerate(idx):
            self.res[i] = (ok, vals[k] if ok else vals)
            self.completed.append(i)
        self.left -= len(idx)
        if self.left == 0:
            err = [self.res[i][1] for i in self.completed if not self.res[i][0]]
            if err:
                if self.error_callback:
                    self.error_callback(err[0])
            elif self.callback:
                v = [self.res[i][1] for i in range(self.n)]
                self.callback(v[0] if self.single else v)


class AsyncResult:
    def __init__(self, job):
        self.job = job

    def ready(self):
        return self.job.left == 0

    def successful(self):
        if self.job.left:
            raise ValueError('not ready')
        return all(ok for ok, v in self.job.res.values())

    def wait(self, timeout=None):
        self.job.pool._run(lambda: self.job.left == 0, timeout)

    def get(self, timeout=None):
        j = self.job
        if not j.pool._run(lambda: j.left == 0, timeout):
            import multiprocess
            raise multiprocess.TimeoutError
        for i in j.completed:
            if not j.res[i][0]:
                raise j.res[i][1]
        v = [j.res[i][1] for i in range(j.n)]
        return v[0] if j.single else v

    result = get          # concurrent.futures spelling

    def done(self):
        return self.ready()

    def exception(self, timeout=None):
        try:
            self.get(timeout)
        except Exception as e:
            return e

    def add_done_callback(self, f):
        j, me = self.job, self
        if j.left == 0:
            f(me)
        else:
            j.callback = j.error_callback = lambda v: f(me)

    def cancel(self):
        return False


class SimPool:
    executor = False

    def __init__(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None, context=None, **kw):
        sim = self.sim = CURRENT[0]
        if sim is None:
            raise RuntimeError('no simulated pool scenario')
        if processes is None:
            processes = kw.pop('nodes', None) or kw.pop('max_workers', None) or 8
        processes = int(processes) if processes == int(processes) else processes
        if processes < 1:
            raise ValueError('Number of processes must be at least 1')
        sim.pools.append(self)
        self.released = None
        if sim.create_fail:
            self.released = 'never created'
            fired('pool_creation_fails')
            raise OSError(11, 'Resource temporarily unavailable')
        self.nw = processes
        self.state = 'run'
        self.queue = deque()
        self.busy = {}                        # worker -> (finish time, task, outcome)
        if initializer is not None:
            for _ in range(processes):
                initializer(*initargs)
        probe('workers_%s' % (processes if processes < 9 else '9+'))

    # -- life cycle
    def close(self):
        if self.state == 'run':
            self.state = 'close'
        self.released = 'closed'

    def terminate(self):
        self.state = 'terminated'
        self.queue.clear()
        self.busy.clear()
        self.released = 'terminated'

    def join(self, timeout=None):
        if self.state == 'run':
            raise ValueError('Pool is still running')
        self._run(lambda: not self.queue and not self.busy)

    def shutdown(self, wait=True, cancel_futures=False):
        if cancel_futures:
            self.queue.clear()
        self.state = 'close'
        self.released = 'shut down'
        if wait:
            self._run(lambda: not self.queue and not self.busy)

    clear = terminate
    restart = lambda self, *a, **k: None

    def __enter__(self):
        self._check()
        return self

    def __exit__(self, *a):
        if self.executor:
            self.shutdown()
        else:
            self.terminate()

    def _check(self):
        if self.state != 'run':
            raise ValueError('Pool not running')

    # -- scheduler
    def _step(self):
        sim, r = self.sim, self.sim.r
        idle = [w for w in range(self.nw) if w not in self.busy]
        if self.queue and idle and (not self.busy or r.random() < .6):
            w = r.choice(idle)
            t = self.queue.popleft()
            out = self._execute(t)
            dur = r.expovariate(1.0) * (30 if r.random() < .1 else 1)      # now and then a stalled worker
            self.busy[w] = (sim.t + dur, t, out)
            return True
        if self.busy:
            w = min(self.busy, key=lambda k: (self.busy[k][0], k))
            ft, t, (ok, v) = self.busy.pop(w)
            sim.t = max(sim.t, ft)
            sim.order.append(t.idx[0])
            sim.done += 1
            t.job.deliver(t.idx, ok, v)
            return True
        return False

    def _run(self, cond, timeout=None):
        end = None if timeout is None else self.sim.t + timeout
        while not cond():
            if end is not None and (not self.busy or min(b[0] for b in self.busy.values()) > end) and not self.queue:
                return False
            if not self._step():
                raise Violation('hang', 'the caller waits for a pool that has no work left (state %s)' % self.state)
        return True

    def _execute(self, t):
        sim = self.sim
        try:
            func, args = dill.loads(dill.dumps((t.func, t.args)))
        except Exception as e:
            return False, e
        vals = []
        for a in args:
            n = sim.started
            sim.started += 1
            f = sim.fail.get(str(n))
            try:
                if f:
                    fired('worker_' + f['t'])
                    if f['t'] == 'before':
                        raise err(f)
                    if f['t'] == 'inside':
                        prev = core._hook
                        core.set_line_hook(Bomb(f, prev))
                        try:
                            v = func(*a) if t.star else func(a)
                        finally:
                            b = core._hook
                            core.set_line_hook(prev)
                        if not b.gone:
                            raise err(f)
                    else:
                        v = func(*a) if t.star else func(a)
                        raise err(f)
                else:
                    v = func(*a) if t.star else func(a)
            except Exception as e:
                return False, e
            vals.append(v)
        try:
            return True, dill.loads(dill.dumps(vals))
        except Exception as e:
            return False, e

    def _submit(self, func, items, star, chunksize, callback=None, error_callback=None):
        self._check()
        items = list(items)
        if chunksize is None:
            chunksize, extra = divmod(len(items), self.nw * 4)
            chunksize += bool(extra)
        chunksize = max(1, chunksize)
        j = Job(self, len(items), callback, error_callback)
        for i in range(0, len(items), chunksize):
            t = Task()
            t.job, t.idx, t.func, t.args, t.star = j, list(range(i, min(i + chunksize, len(items)))), func, items[i:i + chunksize], star
            self.queue.append(t)
        if not items and callback:
            callback([])
        for _ in range(self.sim.r.randint(0, 3)):
            self._step()
        return j

    # -- interface of multiprocessing.Pool
    def map_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return AsyncResult(self._submit(func, iterable, False, chunksize, callback, error_callback))

    def starmap_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return AsyncResult(self._submit(func, iterable, True, chunksize, callback, error_callback))

    def map(self, func, iterable, chunksize=None, *more, **kw):
        return self.map_async(func, iterable, chunksize).get()

    def starmap(self, func, iterable, chunksize=None):
        return self.starmap_async(func, iterable, chunksize).get()

    def apply_async(self, func, args=(), kwds={}, callback=None, error_callback=None):
        if kwds:
            import functools
            func = functools.partial(func, **kwds)
        j = self._submit(func, [tuple(args)], True, 1, callback, error_callback)
        j.single = True
        return AsyncResult(j)

    def apply(self, func, args=(), kwds={}):
        return self.apply_async(func, args, kwds).get()

    def imap(self, func, iterable, chunksize=1):
        j = self._submit(func, iterable, False, chunksize)
        return self._ordered(j)

    def _ordered(self, j):
        for i in range(j.n):
            self._run(lambda: i in j.res)
            if not j.res[i][0]:
                raise j.res[i][1]
            yield j.res[i][1]

    def imap_unordered(self, func, iterable, chunksize=1):
        j = self._submit(func, iterable, False, chunksize)
        return self._unordered(j)

    def _unordered(self, j):
        for k in range(j.n):
            self._run(lambda: len(j.completed) > k)
            i = j.completed[k]
            if not j.res[i][0]:
                raise j.res[i][1]
            yield j.res[i][1]

    uimap = imap_unordered
    amap = map_async


class SimExecutor(SimPool):
    """concurrent.futures interface."""
    executor = True

    def __init__(self, max_workers=None, *a, **k):
        super().__init__(max_workers)

    def submit(self, fn, *a, **k):
        return self.apply_async(fn, a, k)

    def map(self, fn, *iterables, timeout=None, chunksize=1):
        return self._ordered(self._submit(fn, list(zip(*iterables)), True, chunksize))


class Bomb:
    """A line hook that fails the task at its n-th executed line."""
    def __init__(self, f, prev):
        self.f, self.n, self.prev, self.gone = f, f['line'], prev, False

    def __call__(self, code, line):
        if self.prev is not None:
            self.prev(code, line)
        if self.gone:
            return
        self.n -= 1
        if self.n < 0:
            self.gone = True
            raise err(self.f)


def err(f):
    return {'mem': MemoryError('injected'), 'os': InjectedError(5, 'injected'), 'arith': FloatingPointError('injected'),
            'value': RuntimeError('injected')}[f['e']]


def install():
    """Put the simulated pools wherever library code can get a process or thread pool from."""
    import importlib, sys
    real = {}
    for m, names in (('multiprocess.pool', ('Pool', 'ThreadPool')), ('multiprocessing.pool', ('Pool', 'ThreadPool')), ('multiprocess', ('Pool',)),
                     ('multiprocessing', ('Pool',)), ('pathos.multiprocessing', ('Pool', 'ProcessPool', 'ThreadPool', 'ProcessingPool', 'ThreadingPool', '_ProcessPool')),
                     ('pathos.pools', ('ProcessPool', 'ThreadPool', 'ParallelPool', '_ProcessPool', '_ThreadPool')),
                     ('pathos.threading', ('ThreadPool',)), ('concurrent.futures', ('ProcessPoolExecutor', 'ThreadPoolExecutor')),
                     ('multiprocess.dummy', ('Pool',)), ('multiprocessing.dummy', ('Pool',))):
        try:
            mod = importlib.import_module(m)
        except ImportError:
            continue
        for n in names:
            o = getattr(mod, n, None)
            if o is None:
                continue
            sub = SimExecutor if n.endswith('Executor') else SimPool
            real[id(o)] = (o, sub)
            setattr(mod, n, sub)
    import multiprocessing.context as c1
    for c in [c1] + [m for k, m in sys.modules.items() if k == 'multiprocess.context']:
        c.BaseContext.Pool = lambda self, *a, **k: SimPool(*a, **k)
        c.BaseContext.cpu_count = lambda self: 5
    import os
    os.cpu_count = lambda: 5
    from core import REPO
    for k, m in list(sys.modules.items()):
        if k == 'rsbeams' or k.startswith('rsbeams.'):
            for n, v in list(vars(m).items()):
                if id(v) in real:
                    setattr(m, n, real[id(v)][1])
