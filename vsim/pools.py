"""Simulated process pools and thread pools (discrete-event, one OS process)."""
import concurrent.futures
import concurrent.futures._base as cf_base
import concurrent.futures.process as cf_process
import heapq
import itertools
import math
import multiprocessing
import multiprocessing.context
import multiprocessing.pool
import os
import pickle
import sys
import weakref
from concurrent.futures.process import BrokenProcessPool

from . import seams
from .seams import ProcessDied, traced


class _Remote(Exception):
    def __init__(self, tb):
        self.tb = tb

    def __str__(self):
        return self.tb


class Task:
    __slots__ = ("idx", "payload", "state", "worker", "start", "end", "ok",
                 "value", "on_done", "cancelled", "fut")

    def __init__(self, idx, payload, on_done):
        self.idx = idx
        self.payload = payload
        self.state = "queued"
        self.worker = None
        self.on_done = on_done
        self.cancelled = False
        self.fut = None


class Core:
    """Workers, a task queue and an event loop on the simulated clock."""

    def __init__(self, kind, method, nworkers, initializer=None, initargs=()):
        wd = self.wd = seams.WORLD
        self.kind = kind
        self.method = method
        self.n = nworkers
        self.initializer = initializer
        self.initargs = initargs
        self.workers = []
        self.queue = []
        self.events = []  # (time, seq, fn)
        self.seq = 0
        self.ntasks = 0
        self.broken = None
        self.closed = False
        self.lost = 0
        wd.pools_started += 1
        self.pool_no = wd.pools_started
        wd.slog("pool", self.pool_no, kind, method, nworkers)
        f = wd.fault
        if f and f["kind"] == "pool_start" and not f.get("done"):
            f["done"] = True
            wd.fire("pool_start")
            raise OSError(11, "Resource temporarily unavailable (simulated)")
        wd.pools.append(self)
        self.ended = None  # how the pool was ended
        if kind == "mp" or method == "fork":
            for _ in range(nworkers):
                self._spawn()

    # -- workers -----------------------------------------------------------
    def _spawn(self):
        wd = self.wd
        i = len(self.workers)
        if self.kind == "mp":
            name = {"fork": "Fork", "spawn": "Spawn"}.get(self.method, "ForkServer")
            name += f"PoolWorker-{i + 1}"
        else:
            name = f"{self.method.capitalize()}Process-{i + 1}"
        proc = wd.new_proc(name, self.method)
        lat = {"fork": 0.003, "spawn": 0.15}.get(self.method, 0.05)
        free = wd.now + lat * (0.5 + wd.sched.random())
        wk = {"i": i, "proc": proc, "free": free, "alive": True, "init": False}
        self.workers.append(wk)
        return wk

    def submit(self, fn, args, kwargs, on_done):
        payload = pickle.dumps((fn, args, kwargs))
        t = Task(self.ntasks, payload, on_done)
        self.ntasks += 1
        self.queue.append(t)
        if self.kind == "ppe" and self.method != "fork" and len(self.workers) < self.n:
            self._spawn()
        return t

    # -- event loop -----------------------------------------------------------
    def _push(self, t, fn):
        self.seq += 1
        heapq.heappush(self.events, (t, self.seq, fn))

    def _dispatch(self):
        """Hand queued tasks to workers that are idle (seeded tie-breaks)."""
        idle = [wk for wk in self.workers if wk["alive"] and not wk.get("busy")]
        while self.queue and idle and not self.broken:
            # Whoever becomes free first takes the head of the queue.
            wk = min(idle, key=lambda x: (x["free"], x["i"]))
            idle.remove(wk)
            t = self.queue.pop(0)
            if t.cancelled:
                idle.append(wk)
                continue
            wk["busy"] = True
            if t.fut is not None:
                t.fut.set_running_or_notify_cancel()  # cannot be cancelled any more
            self.wd.busy += 1
            self.wd.peak_busy = max(self.wd.peak_busy, self.wd.busy)
            start = max(self.wd.now, wk["free"]) + self.wd.sched.random() * 1e-3
            self._push(start, lambda t=t, wk=wk: self._start(t, wk))

    def step(self):
        """Process one event; False if there is nothing left to happen."""
        self._dispatch()
        if not self.events:
            return False
        f = self.wd.fault
        if f and f["kind"] == "interrupt_wait" and not self.wd.in_task and not f.get("done"):
            f["left"] = f.get("left", f["event"]) - 1
            if f["left"] <= 0:
                # Ctrl-C while the caller waits for the workers.
                f["done"] = True
                self.wd.fire("interrupt_wait")
                raise KeyboardInterrupt("simulated")
        at, _, fn = heapq.heappop(self.events)
        self.wd.now = max(self.wd.now, at)
        fn()
        return True

    def run_until(self, pred, timeout=None):
        end = None if timeout is None else self.wd.now + timeout
        while not pred():
            self._dispatch()
            if not self.events:
                return False
            if end is not None and self.events[0][0] > end:
                self.wd.now = end
                return False
            self.step()
        return True

    def _start(self, t, wk):
        wd = self.wd
        if self.broken:
            return
        s = wd.sched
        dur = 0.001 * math.exp(s.gauss(1.5, 1.5))
        f = wd.fault
        crash_line = raise_line = None
        crash_kind = None
        if f and not f.get("done") and f["kind"] in (
                "worker_crash", "task_raise", "stall") and f["task"] == wd.tasks_run:
            f["done"] = True
            if f["kind"] == "stall":
                wd.fire("stall")
                dur += f.get("secs", 100.0)
            elif f["kind"] == "worker_crash":
                crash_line = f["line"]
                wd.fire("worker_crash")
            elif f["kind"] == "task_raise":
                raise_line = f["line"]
                crash_kind = f["exc"]
        wd.slog("start", self.pool_no, t.idx, wk["i"], round(wd.now - wd.t0, 6))
        wd.tasks_run += 1
        t.state = "running"
        died = False
        wd.in_task += 1
        try:
            with wd.enter(wk["proc"]):
                ok, payload = _run_payload(self, wk, t.payload, crash_line,
                                           raise_line, crash_kind)
        except ProcessDied:
            died = True
        finally:
            wd.in_task -= 1
        end = wd.now + dur
        if died:
            self._push(end, lambda: self._crashed(wk))
            return
        self._push(end, lambda: self._finish(t, wk, ok, payload))

    def _finish(self, t, wk, ok, payload):
        wd = self.wd
        wk["busy"] = False
        wd.busy -= 1
        wk["free"] = wd.now
        if self.broken:
            return
        t.state = "done"
        wd.slog("done", self.pool_no, t.idx, ok)
        value = pickle.loads(payload)
        t.ok, t.value = ok, value
        t.on_done(ok, value)

    def _crashed(self, wk):
        self.wd.slog("crash", self.pool_no, wk["i"])
        wk["alive"] = False
        self.wd.busy -= 1
        if self.kind == "mp":
            # multiprocessing.Pool replaces the worker; the task is lost.
            self._spawn()
            self.lost += 1
            return
        self.broken = "A process in the process pool was terminated abruptly."
        self.on_broken()

    def on_broken(self):
        pass

    def left(self):
        """Tasks that are not finished."""
        if self.broken or self.ended == "terminated":
            return 0
        return sum(1 for t in self.queue if not t.cancelled) + sum(
            1 for wk in self.workers if wk["alive"] and wk.get("busy"))


def _run_payload(core, wk, payload, crash_line, raise_line, exc):
    wd = core.wd
    count = [0]

    def hook(frame):
        count[0] += 1
        if crash_line is not None and count[0] >= crash_line:
            raise ProcessDied()
        if raise_line is not None and count[0] == raise_line:
            wd.fire("task_raise")
            raise EXC[exc]("simulated failure in a worker")

    try:
        if not wk["init"]:
            wk["init"] = True
            if core.initializer is not None:
                init, ia = pickle.loads(pickle.dumps((core.initializer, core.initargs)))
                init(*ia)
        if crash_line is not None or raise_line is not None:
            if crash_line == 0:
                raise ProcessDied()
            with traced(hook):
                fn, args, kwargs = pickle.loads(payload)
                r = fn(*args, **kwargs)
            if crash_line is not None:
                raise ProcessDied()  # died before the result was sent
        else:
            fn, args, kwargs = pickle.loads(payload)
            r = fn(*args, **kwargs)
        return True, pickle.dumps(r)
    except seams.SimAbort:
        raise
    except BaseException as e:  # noqa
        try:
            return False, pickle.dumps(e)
        except Exception:
            return False, pickle.dumps(RuntimeError(f"{type(e).__name__}: {e}"))


EXC = {"MemoryError": MemoryError, "OSError": OSError,
       "KeyboardInterrupt": KeyboardInterrupt, "RuntimeError": RuntimeError}


# --------------------------------------------------------------------------
# concurrent.futures
# --------------------------------------------------------------------------
def _collected(core):
    """The pool object was garbage collected: its workers end."""
    core.ended = core.ended or "collected"


class SimFuture(cf_base.Future):
    def __init__(self, core):
        super().__init__()
        self._core = core

    def _drive(self, timeout):
        if not self._core.run_until(self.done, timeout) and not self.done():
            if timeout is not None:
                raise concurrent.futures.TimeoutError()
            raise seams.Deadlock("a future that can never complete is waited for")

    def result(self, timeout=None):
        self._drive(timeout)
        return super().result(0)

    def exception(self, timeout=None):
        self._drive(timeout)
        return super().exception(0)

    def cancel(self):
        ok = super().cancel()
        if ok:
            t = getattr(self, "_task", None)
            if t is not None:
                t.cancelled = True
            self.set_running_or_notify_cancel()
        return ok


class ProcessPoolExecutor(cf_base.Executor):
    def __init__(self, max_workers=None, mp_context=None, initializer=None,
                 initargs=(), *, max_tasks_per_child=None):
        if seams.WORLD is None:
            raise RuntimeError("no simulation running")
        if max_workers is None:
            max_workers = os.cpu_count() or 1
        elif max_workers <= 0:
            raise ValueError("max_workers must be greater than 0")
        if mp_context is None:
            mp_context = multiprocessing.get_context()
        method = mp_context.get_start_method(allow_none=False)
        self._max_workers = max_workers
        self._core = Core("ppe", method, max_workers, initializer, initargs)
        self._core.on_broken = self._on_broken
        self._futures = []
        self._shut = False
        weakref.finalize(self, _collected, self._core)

    def _on_broken(self):
        for f in self._futures:
            if not f.done():
                f.set_exception(BrokenProcessPool(self._core.broken))

    def submit(self, fn, /, *args, **kwargs):
        if self._core.broken:
            raise BrokenProcessPool(self._core.broken)
        if self._shut:
            raise RuntimeError("cannot schedule new futures after shutdown")
        fut = SimFuture(self._core)

        def on_done(ok, value):
            if fut.done():
                return
            if ok:
                fut.set_result(value)
            else:
                fut.set_exception(value)
        try:
            fut._task = self._core.submit(fn, args, kwargs, on_done)
            fut._task.fut = fut
        except Exception as e:  # pickling errors surface on the future
            fut.set_exception(e)
        self._futures.append(fut)
        return fut

    def map(self, fn, *iterables, timeout=None, chunksize=1):
        if chunksize < 1:
            raise ValueError("chunksize must be >= 1.")
        from functools import partial
        items = list(zip(*iterables))
        chunks = [tuple(items[i:i + chunksize]) for i in range(0, len(items), chunksize)]
        results = super().map(partial(cf_process._process_chunk, fn), chunks,
                              timeout=timeout)
        return cf_process._chain_from_iterable_of_lists(results)

    def shutdown(self, wait=True, *, cancel_futures=False):
        self._shut = True
        self._core.ended = "shut down"
        if cancel_futures:
            for f in self._futures:
                if not f.done():
                    f.cancel()
        if wait and not self._core.broken:
            self._core.run_until(lambda: all(f.done() for f in self._futures))


def _drive_any(fs, pred, timeout):
    wd = seams.WORLD
    end = None if timeout is None else wd.now + timeout
    cores = []
    for f in fs:
        c = getattr(f, "_core", None)
        if c is not None and c not in cores:
            cores.append(c)
    while not pred():
        for c in cores:
            c._dispatch()
        live = [c for c in cores if c.events]
        if not live:
            return
        c = min(live, key=lambda c: c.events[0][:2])
        if end is not None and c.events[0][0] > end:
            wd.now = end
            return
        c.step()


def sim_wait(fs, timeout=None, return_when=cf_base.ALL_COMPLETED):
    fs = set(fs)
    order = list(fs)

    def pred():
        done = [f for f in order if f.done()]
        if return_when == cf_base.FIRST_COMPLETED:
            return bool(done) or not order
        if return_when == cf_base.FIRST_EXCEPTION and any(
                not f.cancelled() and f._exception is not None for f in done):
            return True
        return len(done) == len(order)
    _drive_any(order, pred, timeout)
    done = {f for f in fs if f.done()}
    return cf_base.DoneAndNotDoneFutures(done, fs - done)


def sim_as_completed(fs, timeout=None):
    pending = list(dict.fromkeys(fs))
    seq = {}
    counter = itertools.count()
    for f in pending:
        f.add_done_callback(lambda f: seq.setdefault(f, next(counter)))
    while pending:
        _drive_any(pending, lambda: any(f.done() for f in pending), timeout)
        done = sorted((f for f in pending if f.done()), key=lambda f: seq.get(f, 0))
        if not done:
            raise concurrent.futures.TimeoutError()
        for f in done:
            pending.remove(f)
            yield f


class ThreadPoolExecutor(cf_base.Executor):
    """Threads of the caller's process; line-level interleaving when small."""

    def __init__(self, max_workers=None, thread_name_prefix="", initializer=None,
                 initargs=()):
        if max_workers is None:
            max_workers = min(32, (os.cpu_count() or 1) + 4)
        if max_workers <= 0:
            raise ValueError("max_workers must be greater than 0")
        self._max_workers = max_workers
        self._tasks = []
        self._init = (initializer, initargs)
        self._core = self
        self.events = []
        self.broken = None
        seams.WORLD.slog("threadpool", max_workers)

    def submit(self, fn, /, *args, **kwargs):
        fut = SimFuture(self)
        self._tasks.append((fut, fn, args, kwargs))
        return fut

    def _dispatch(self):
        pass

    def run_until(self, pred, timeout=None):
        from .coop import run_threads
        while self._tasks and not pred():
            batch, self._tasks = self._tasks[:self._max_workers], self._tasks[self._max_workers:]

            def runner(item):
                fut, fn, args, kwargs = item

                def go():
                    if fut.cancelled():
                        return
                    try:
                        if self._init[0]:
                            self._init[0](*self._init[1])
                        r = fn(*args, **kwargs)
                    except seams.SimAbort:
                        raise
                    except BaseException as e:  # noqa
                        fut.set_exception(e)
                    else:
                        fut.set_result(r)
                return go
            run_threads([runner(it) for it in batch])
        return pred()

    def shutdown(self, wait=True, *, cancel_futures=False):
        if cancel_futures:
            for fut, *_ in self._tasks:
                fut.cancel()
            self._tasks = []
        self.run_until(lambda: not self._tasks)


# --------------------------------------------------------------------------
# multiprocessing.Pool
# --------------------------------------------------------------------------
class AsyncResult:
    def __init__(self, pool, n, single, callback, error_callback):
        self._pool, self._left, self._single = pool, n, single
        self._ok, self._val = True, [None] * n
        self._cb, self._ecb = callback, error_callback
        if n == 0:
            self._fin()

    def _fin(self):
        if self._ok and self._cb:
            self._cb(self._value())
        if not self._ok and self._ecb:
            self._ecb(self._val)

    def _value(self):
        return self._val[0] if self._single else [x for c in self._val for x in c]

    def _set(self, i, ok, value):
        self._left -= 1
        if ok and self._ok:
            self._val[i] = value
        elif not ok and self._ok:
            self._ok, self._val = False, value
        if self._left == 0:
            self._fin()

    def ready(self):
        return self._left == 0

    def successful(self):
        if not self.ready():
            raise ValueError(f"{self!r} not ready")
        return self._ok

    def wait(self, timeout=None):
        if not self._pool._core.run_until(self.ready, timeout) and timeout is None \
                and not self.ready():
            raise seams.Deadlock("a pool result that can never arrive is waited for")

    def get(self, timeout=None):
        self.wait(timeout)
        if not self.ready():
            raise multiprocessing.TimeoutError
        if self._ok:
            return self._value()
        raise self._val


def _mapstar(args):
    return [args[0](x) for x in args[1]]


def _starmapstar(args):
    return [args[0](*x) for x in args[1]]


class Pool:
    def __init__(self, processes=None, initializer=None, initargs=(),
                 maxtasksperchild=None, context=None):
        if processes is None:
            processes = os.cpu_count() or 1
        if processes < 1:
            raise ValueError("Number of processes must be at least 1")
        ctx = context or multiprocessing.get_context()
        self._processes = processes
        self._core = Core("mp", ctx.get_start_method(allow_none=False), processes,
                          initializer, initargs)
        self._state = "RUN"
        weakref.finalize(self, _collected, self._core)

    def _check(self):
        if self._state != "RUN":
            raise ValueError("Pool not running")

    def _chunks(self, it, chunksize):
        it = list(it)
        if chunksize is None:
            chunksize, extra = divmod(len(it), self._processes * 4)
            if extra:
                chunksize += 1
        if len(it) == 0:
            chunksize = 1
        return [it[i:i + chunksize] for i in range(0, len(it), chunksize)]

    def _map_async(self, fn, it, star, chunksize, callback=None, error_callback=None):
        self._check()
        chunks = self._chunks(it, chunksize)
        res = AsyncResult(self, len(chunks), False, callback, error_callback)
        for i, c in enumerate(chunks):
            self._core.submit(star, ((fn, c),), {},
                              lambda ok, v, i=i: res._set(i, ok, v))
        return res

    def map(self, func, iterable, chunksize=None):
        return self._map_async(func, iterable, _mapstar, chunksize).get()

    def map_async(self, func, iterable, chunksize=None, callback=None,
                  error_callback=None):
        return self._map_async(func, iterable, _mapstar, chunksize, callback,
                               error_callback)

    def starmap(self, func, iterable, chunksize=None):
        return self._map_async(func, iterable, _starmapstar, chunksize).get()

    def starmap_async(self, func, iterable, chunksize=None, callback=None,
                      error_callback=None):
        return self._map_async(func, iterable, _starmapstar, chunksize, callback,
                               error_callback)

    def apply_async(self, func, args=(), kwds={}, callback=None, error_callback=None):
        self._check()
        res = AsyncResult(self, 1, True, callback, error_callback)
        self._core.submit(func, tuple(args), dict(kwds),
                          lambda ok, v: res._set(0, ok, v))
        return res

    def apply(self, func, args=(), kwds={}):
        return self.apply_async(func, args, kwds).get()

    def imap(self, func, iterable, chunksize=1):
        self._check()
        rs = []
        for c in self._chunks(iterable, chunksize):
            r = AsyncResult(self, 1, True, None, None)
            self._core.submit(_mapstar, ((func, c),), {},
                              lambda ok, v, r=r: r._set(0, ok, v))
            rs.append(r)

        def gen():
            for r in rs:
                yield from r.get()
        return gen()

    def imap_unordered(self, func, iterable, chunksize=1):
        self._check()
        out = []
        chunks = self._chunks(iterable, chunksize)
        for c in chunks:
            self._core.submit(_mapstar, ((func, c),), {},
                              lambda ok, v: out.append((ok, v)))

        def gen():
            for i in range(len(chunks)):
                if not self._core.run_until(lambda: len(out) > i):
                    raise seams.Deadlock("a pool result that can never arrive is waited for")
                ok, v = out[i]
                if not ok:
                    raise v
                yield from v
        return gen()

    def close(self):
        if self._state == "RUN":
            self._state = "CLOSE"
            self._core.ended = "closed"

    def terminate(self):
        self._state = "TERMINATE"
        self._core.ended = "terminated"
        self._core.queue = []
        self._core.events = []

    def join(self):
        if self._state == "RUN":
            raise ValueError("Pool is still running")
        self._core.run_until(lambda: False)
        if self._state == "CLOSE" and getattr(self._core, "lost", 0):
            raise seams.Deadlock("joined a pool that lost a task")

    def __enter__(self):
        self._check()
        return self

    def __exit__(self, *a):
        self.terminate()


class ThreadPool(Pool):
    def __init__(self, processes=None, initializer=None, initargs=()):
        self._ex = ThreadPoolExecutor(processes or os.cpu_count() or 1,
                                      initializer=initializer, initargs=initargs)
        self._processes = self._ex._max_workers
        self._state = "RUN"
        self._core = self
        self.queue, self.events = [], []

    def submit(self, fn, args, kwargs, on_done):
        fut = self._ex.submit(fn, *args, **kwargs)

        def cb(f):
            e = f._exception
            on_done(e is None, f._result if e is None else e)
        fut.add_done_callback(cb)

    def run_until(self, pred, timeout=None):
        return self._ex.run_until(pred, timeout)


def install():
    concurrent.futures.ProcessPoolExecutor = ProcessPoolExecutor
    cf_process.ProcessPoolExecutor = ProcessPoolExecutor
    concurrent.futures.ThreadPoolExecutor = ThreadPoolExecutor
    import concurrent.futures.thread as cf_thread
    cf_thread.ThreadPoolExecutor = ThreadPoolExecutor
    for mod in (concurrent.futures, cf_base):
        mod.wait = sim_wait
        mod.as_completed = sim_as_completed

    def ctx_pool(self, processes=None, initializer=None, initargs=(),
                 maxtasksperchild=None):
        return Pool(processes, initializer, initargs, maxtasksperchild,
                    context=self.get_context())
    multiprocessing.context.BaseContext.Pool = ctx_pool
    multiprocessing.Pool = multiprocessing.context._default_context.Pool
    multiprocessing.pool.Pool = Pool
    multiprocessing.pool.ThreadPool = ThreadPool
    import multiprocessing.dummy as mp_dummy
    mp_dummy.Pool = ThreadPool
