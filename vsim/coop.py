"""Caller threads under a seeded scheduler: real threads, one baton.

A thread gives up the baton only at a traced line of theboss code, when the
seeded scheduler says so, or when it waits for a lock; who runs next is a seeded
choice.  Locks that theboss creates (threading.Lock, threading.RLock) are
cooperative.
"""
import _thread
import sys
import threading

from . import seams

STUCK_S = 30.0  # real seconds without any progress: the run is given up
SLOW_S = 100.0  # real seconds for one set of threads: the run is given up
GIVEN_UP = False


class CoopLock:
    """threading.Lock / RLock for code under simulation."""

    def __init__(self, reentrant):
        self.re = reentrant
        self.owner = None
        self.count = 0

    def _me(self):
        co = seams.WORLD.coop if seams.WORLD is not None else None
        return (co, co.me() if co is not None else threading.get_ident())

    def acquire(self, blocking=True, timeout=-1):
        while True:
            co, me = self._me()
            if self.count == 0 or (self.re and self.owner == me):
                self.owner = me
                self.count += 1
                return True
            if not blocking:
                return False
            if co is None or len(co.alive) < 2 or co.waiting(me):
                raise seams.Deadlock("every thread waits for a lock")
            if timeout is not None and timeout >= 0:
                seams.WORLD.now += timeout
                return False

    def release(self):
        if self.count == 0:
            raise RuntimeError("release unlocked lock")
        self.count -= 1
        if self.count == 0:
            self.owner = None
            co, _ = self._me()
            if co is not None:
                co.blocked.clear()

    def locked(self):
        return self.count > 0

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def __reduce__(self):
        raise TypeError("cannot pickle '_thread.lock' object")

    def __deepcopy__(self, memo):
        raise TypeError("cannot pickle '_thread.lock' object")


def install():
    real = {"Lock": threading.Lock, "RLock": threading.RLock}

    def factory(name):
        def make(*a, **k):
            f = sys._getframe(1)
            if seams.WORLD is not None and f.f_code.co_filename.startswith(seams.BOSS_PREFIX):
                return CoopLock(name == "RLock")
            return real[name](*a, **k)
        make.__name__ = make.__qualname__ = name
        return make
    for name in real:
        setattr(threading, name, factory(name))


def importing(frame):
    """True while a module body is being executed up the stack."""
    while frame is not None:
        if frame.f_code.co_name == "<module>" and frame.f_code.co_filename.startswith(
                seams.BOSS_PREFIX):
            return True
        frame = frame.f_back
    return False


class Coop:
    def __init__(self, wd, rate):
        self.wd = wd
        self.rate = rate
        self.batons = {}  # thread -> lock that it waits for
        self.stop = False
        self.alive = []
        self.nlines = 0
        self.blocked = set()
        self.ids = {}

    def me(self):
        return self.ids.get(threading.get_ident(), -1)

    def waiting(self, me):
        """Thread `me` cannot go on; True if nobody else can either."""
        self.blocked.add(me)
        if not [i for i in self.alive if i not in self.blocked]:
            return True
        self.switch(me)
        return False

    def switch(self, me):
        wd = self.wd
        others = [i for i in self.alive if i != me and i not in self.blocked]
        if not others:
            return
        nxt = others[wd.sched.randrange(len(others))]
        wd.switches += 1
        wd.slog("switch", me, nxt, self.nlines)
        self.batons[nxt].release()
        self.batons[me].acquire()

    def line(self, me, frame):
        self.nlines += 1
        if self.stop:
            raise seams.GaveUp("threads take too long")
        wd = self.wd
        if wd.in_task:
            return
        if wd.line_budget is not None:
            wd.lines += 1
            if wd.lines > wd.line_budget:
                raise seams.LineBudget(f"more than {wd.line_budget} lines")
        if wd.sched.random() < self.rate and not importing(frame):
            self.switch(me)


_cpu = [0.0, 0.0]


def cpu_moves():
    """Whether this process has used CPU since the last call."""
    import resource
    u = resource.getrusage(resource.RUSAGE_SELF)
    used = u.ru_utime + u.ru_stime
    moved = used - _cpu[0] > 0.5
    _cpu[0] = used
    return moved


def run_threads(fns, rate=0.05):
    """Run the functions as interleaved threads; re-raises the first SimAbort."""
    global GIVEN_UP
    wd = seams.WORLD
    if wd.coop is not None or len(fns) == 1 or GIVEN_UP:
        for f in fns:  # nested pools of threads run one after another
            f()
        return
    co = wd.coop = Coop(wd, rate)
    errs = [None] * len(fns)

    def body(i, fn):
        co.ids[threading.get_ident()] = i
        tr = seams.Tracer(lambda frame: co.line(i, frame))
        co.batons[i].acquire()
        sys.settrace(tr.global_trace)
        try:
            fn()
        except BaseException as e:  # noqa
            errs[i] = e
        finally:
            sys.settrace(None)
            co.alive.remove(i)
            free = [x for x in co.alive if x not in co.blocked] or co.alive
            if free:
                nxt = free[wd.sched.randrange(len(free))]
                wd.slog("exit", i, nxt)
                co.batons[nxt].release()

    ths = [threading.Thread(target=body, args=(i, f), daemon=True)
           for i, f in enumerate(fns)]
    co.alive = list(range(len(fns)))
    for i in co.alive:
        co.batons[i] = _thread.allocate_lock()
        co.batons[i].acquire()
    try:
        for t in ths:
            t.start()
        co.batons[wd.sched.randrange(len(fns))].release()
        last, since = -1, seams.real_perf()
        start = since
        while any(t.is_alive() for t in ths):
            for t in ths:
                t.join(0.5 if t.is_alive() else 0)
            if seams.real_perf() - start > SLOW_S and not co.stop:
                co.stop = True
                wd.probe("threads_too_slow")
            if co.nlines != last:
                last, since = co.nlines, seams.real_perf()
            elif seams.real_perf() - since > STUCK_S and not cpu_moves():
                GIVEN_UP = True
                wd.probe("threads_given_up")
                raise seams.GaveUp("threads wait for something the simulator "
                                   "does not control")
    finally:
        wd.coop = None
    for e in errs:
        if isinstance(e, seams.SimAbort):
            raise e
    for e in errs:
        if e is not None:
            raise e
