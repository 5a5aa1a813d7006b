"""A concurrent.futures whose schedule is chosen by the explorer.

Tasks run in this process, but arguments and results pass through pickle as they would between processes, and the state of
the copclib.mp modules (their globals and the attributes of their functions) is kept apart for every worker. The explorer
decides which running task ends next, how many end before the consumer looks again, and how many end while the tasks are
still being submitted. real() gives the genuine classes, which the conformance scenarios run."""
import concurrent.futures as cf
import concurrent.futures.process as cfp
import concurrent.futures.thread as cft
import pickle, sys, types

REAL = dict(ProcessPoolExecutor=cfp.ProcessPoolExecutor, ThreadPoolExecutor=cft.ThreadPoolExecutor,
            as_completed=cf.as_completed, wait=cf.wait)
BrokenProcessPool = cfp.BrokenProcessPool
BrokenThreadPool = cft.BrokenThreadPool


class WorkerDied(BaseException):
    """Raised by a task of a scenario: its worker process ends at once."""


class Sched:
    """The state of the schedule of one execution."""
    def __init__(self, c, interrupts=True, cpus=4, free_workers=False):
        self.c, self.pools, self.interrupts, self.cpus, self.free_workers = c, [], interrupts, cpus, free_workers
        self.late_pickle = False
        self.log = []            # what happened, in order
        self.current_worker = None
        self.quiet = False       # no choices: everything in order
        self.policy = None       # a fixed rule instead of choices: 'first', 'last' or 'middle'

    def choose(self, n, what):
        if self.quiet or n == 1:
            return 0
        if self.policy:
            return {'first': 0, 'last': n - 1, 'middle': n // 2}[self.policy]
        return self.c.choose(n, what)


S = None


def start(c, **k):
    global S
    S = Sched(c, **k)
    for name, v in FAKE.items():
        setattr(cf, name, v)
    return S


def real():
    for name, v in REAL.items():
        setattr(cf, name, v)


def mp_modules():
    return [m for n, m in list(sys.modules.items()) if n == 'copclib.mp' or n.startswith('copclib.mp.')]


def snapshot():
    mods = {}
    for m in mp_modules():
        fs = {f: dict(f.__dict__) for f in vars(m).values() if isinstance(f, types.FunctionType)}
        mods[m] = (dict(m.__dict__), fs)
    return mods


def restore(snap):
    for m, (d, fs) in snap.items():
        m.__dict__.clear()
        m.__dict__.update(d)
        for f, fd in fs.items():
            f.__dict__.clear()
            f.__dict__.update(fd)


class Task:
    def __init__(self, pool, fut, fn, args, kwargs, n):
        self.pool, self.fut, self.fn, self.args, self.kwargs, self.n = pool, fut, fn, args, kwargs, n
        self.blob = None
        self.worker = None

    def pack(self):
        if self.blob is None:
            self.blob = pickle.dumps((self.fn, self.args, self.kwargs))
            self.fn = self.args = self.kwargs = None


class Worker:
    def __init__(self, pool, n):
        self.pool, self.n = pool, n
        self.snap = None
        self.ready = False


class Pool:
    process = True
    broken_type = BrokenProcessPool

    def __init__(self, max_workers=None, mp_context=None, initializer=None, initargs=(), *, max_tasks_per_child=None,
                 thread_name_prefix=''):
        if max_workers is None:
            max_workers = S.cpus
        elif max_workers <= 0:
            raise ValueError('max_workers must be greater than 0')
        if initializer is not None and not callable(initializer):
            raise TypeError('initializer must be a callable')
        self.max_workers, self.initializer, self.initargs = max_workers, initializer, tuple(initargs)
        self.queue, self.running, self.workers = [], [], []
        self.closed, self.broken, self.n = False, False, 0
        S.pools.append(self)

    # ---- the API
    def submit(self, fn, /, *args, **kwargs):
        if self.broken:
            raise self.broken_type('A child process terminated abruptly, the process pool is not usable anymore')
        if self.closed:
            raise RuntimeError('cannot schedule new futures after shutdown')
        fut = Future()
        fut._mc_pool = self
        self.n += 1
        t = Task(self, fut, fn, args, kwargs, self.n)
        self.queue.append(t)
        if not S.late_pickle:
            self.pickle_task(t)
        self.fill()
        # some tasks may end while others are still being submitted
        while S.interrupts and self.running and S.choose(2, 'a task ends before the next call'):
            self.complete_one()
        return fut

    def map(self, fn, *iterables, timeout=None, chunksize=1):
        fs = [self.submit(fn, *a) for a in zip(*iterables)]

        def results():
            fs.reverse()
            while fs:
                yield fs.pop().result()
        return results()

    def shutdown(self, wait=True, *, cancel_futures=False):
        if cancel_futures:
            for t in list(self.queue):
                self.queue.remove(t)
                t.fut.cancel()
                t.fut.set_running_or_notify_cancel()
        self.closed = True
        q, S.quiet = S.quiet, True
        while self.running or self.queue:
            self.complete_one()
        S.quiet = q

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.shutdown(wait=True)
        return False

    # ---- the environment
    def pickle_task(self, t):
        if not self.process or t.blob is not None:
            return True
        try:
            t.pack()
            return True
        except Exception as e:
            if t in self.queue:
                self.queue.remove(t)
            if t.fut.set_running_or_notify_cancel():
                t.fut.set_exception(e)
            return False

    def fill(self):
        while self.queue and len(self.running) < self.max_workers:
            t = self.queue[0]
            if not self.pickle_task(t):
                continue
            self.queue.pop(0)
            if not t.fut.set_running_or_notify_cancel():
                continue
            busy = {r.worker for r in self.running}
            idle = [w for w in self.workers if w not in busy]
            if idle:
                t.worker = idle[S.choose(len(idle), 'worker') if S.free_workers else 0]
            else:
                t.worker = Worker(self, len(self.workers))
                self.workers.append(t.worker)
                t.worker.snap = snapshot()   # a forked process starts with the state of its parent
            self.running.append(t)
            S.log.append(('start', t.n, t.worker.n))

    def complete_one(self, which=None):
        if not self.running:
            self.fill()
            if not self.running:
                return
        t = self.running.pop(S.choose(len(self.running), 'ending task') if which is None else which)
        S.c.op('task %d ends on worker %d' % (t.n, t.worker.n))
        S.log.append(('end', t.n, t.worker.n))
        parent = snapshot()
        restore(t.worker.snap)
        S.current_worker = t.worker.n
        res = exc = None
        dead = False
        try:
            if not t.worker.ready:
                if self.initializer:
                    try:
                        ini, ia = (pickle.loads(pickle.dumps((self.initializer, self.initargs))) if self.process
                                   else (self.initializer, self.initargs))
                        ini(*ia)
                    except Exception:
                        dead = True   # a worker whose initializer fails ends, the pool is broken
                t.worker.ready = True
            if not dead:
                try:
                    fn, args, kwargs = pickle.loads(t.blob) if self.process else (t.fn, t.args, t.kwargs)
                    res = fn(*args, **kwargs)
                    if self.process:
                        res = pickle.loads(pickle.dumps(res))
                except Exception as e:
                    exc = e
                    if self.process:
                        try:
                            exc = pickle.loads(pickle.dumps(e))
                        except Exception as e2:
                            exc = e2
                except WorkerDied:
                    dead = True
        finally:
            S.current_worker = None
            t.worker.snap = snapshot()
            restore(parent)
        if dead:
            self.broken = True
            for x in [t] + self.running + self.queue:
                if not x.fut.done():
                    if x.fut._state == 'PENDING':
                        x.fut.set_running_or_notify_cancel()
                    x.fut.set_exception(self.broken_type('A process in the process pool was terminated abruptly while the future was running or pending.'))
            self.running, self.queue = [], []
            return
        if exc is not None:
            t.fut.set_exception(exc)
        else:
            t.fut.set_result(res)
        self.fill()


class ThreadPool(Pool):
    process = False
    broken_type = BrokenThreadPool


# blocking on a future lets the environment move
def _drive(f):
    p = getattr(f, '_mc_pool', None)
    while p is not None and not f.done():
        if not p.running and not p.queue:
            raise RuntimeError('deadlock: a future is waited for that nothing will complete')
        p.complete_one()


def result(self, timeout=None):
    _drive(self)
    return _result(self, 0)


def exception(self, timeout=None):
    _drive(self)
    return _exception(self, 0)


def as_completed(fs, timeout=None):
    fs = list(dict.fromkeys(fs))
    first = [f for f in fs if f.done()]   # come in any order (they are kept in a set)
    later = []
    pending = [f for f in fs if not f.done()]

    def note():
        for f in list(pending):
            if f.done():
                pending.remove(f)
                later.append(f)
    while first or later or pending:
        if first:
            yield first.pop(S.choose(len(first), 'which finished future comes first'))
            note()
            continue
        if not later:
            p = pending[0]._mc_pool
            if not p.running and not p.queue:
                raise RuntimeError('deadlock: nothing left that could complete a future')
            p.complete_one()
            note()
            continue
        # more may end before the consumer wakes up
        p = pending[0]._mc_pool if pending else None
        while S.interrupts and p and (p.running) and pending and S.choose(2, 'another task ends before the consumer wakes up'):
            p.complete_one()
            note()
        yield later.pop(0)
        note()


def wait(fs, timeout=None, return_when=cf.ALL_COMPLETED):
    fs = set(fs)

    def enough():
        d = [f for f in fs if f.done()]
        if len(d) == len(fs):
            return True
        if return_when == cf.FIRST_COMPLETED:
            return bool(d)
        if return_when == cf.FIRST_EXCEPTION:
            return any(not f.cancelled() and _exception(f, 0) is not None for f in d)
        return False
    while not enough():
        f = next(f for f in fs if not f.done())
        f._mc_pool.complete_one()
    p = next((f._mc_pool for f in fs if not f.done()), None)
    while S.interrupts and p and p.running and S.choose(2, 'another task ends before the consumer wakes up'):
        p.complete_one()
    d = {f for f in fs if f.done()}
    return cf._base.DoneAndNotDoneFutures(d, fs - d)


Future = type('Future', (cf.Future,), dict(result=result, exception=exception))
_result, _exception = cf.Future.result, cf.Future.exception
FAKE = dict(ProcessPoolExecutor=Pool, ThreadPoolExecutor=ThreadPool, as_completed=as_completed, wait=wait)
