"""Every source of nondeterminism theboss can reach, behind one simulator.

install() must run before theboss is imported.  It replaces, in the standard
library and numpy, the functions through which a process meets the outside:
global random number generators, OS entropy, clocks, CPU counts, process ids,
process pools and thread pools.  Everything dispatches to the current World.
"""
import contextlib
import hashlib
import importlib
import importlib.abc
import importlib.machinery
import importlib.util
import os
import random as _random
import sys
import threading
import time as _time
import warnings

REPO = os.environ.get("VSIM_REPO", "/repo")

real_perf = _time.perf_counter
real_sleep_fn = _time.sleep
real_time = _time.time
real_getpid = os.getpid

WORLD = None  # the current World


class SimAbort(BaseException):
    """Base of exceptions the simulator itself raises through theboss code."""


class DrawBudget(SimAbort):
    pass


class LineBudget(SimAbort):
    pass


class Deadlock(SimAbort):
    pass


class GaveUp(SimAbort):
    """The simulator cannot run this schedule; the run is not judged."""


class HangSuspect(SimAbort):
    pass


class ProcessDied(SimAbort):
    """The simulated process was killed (never seen by the parent's code)."""


# --------------------------------------------------------------------------
# theboss modules: one copy of the package per simulated process
# --------------------------------------------------------------------------
_code_cache = {}


class _Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        code = _code_cache.get(fullname)
        if code is None:
            path = self.get_filename(fullname)
            with open(path, "rb") as f:
                code = compile(f.read(), path, "exec", dont_inherit=True)
            _code_cache[fullname] = code
        return code


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path=None, target=None):
        if fullname.split(".")[0] != "theboss":
            return None
        if fullname not in _specs:
            _specs[fullname] = self._find(fullname)
        kind, init, base = _specs[fullname]
        if kind is None:
            return None
        return importlib.util.spec_from_file_location(
            fullname, init, loader=_Loader(fullname, init),
            submodule_search_locations=[base] if kind == "package" else None)

    def _find(self, fullname):
        base = os.path.join(REPO, *fullname.split("."))
        init = os.path.join(base, "__init__.py")
        if os.path.isdir(base):
            return ("package", init, base) if os.path.isfile(init) else (None, None, None)
        if os.path.isfile(base + ".py"):
            return "module", base + ".py", base
        return None, None, None


def _boss_modules():
    return {k: v for k, v in sys.modules.items()
            if k == "theboss" or k.startswith("theboss.")}


_specs = {}


def _clear_boss():
    for k in list(_boss_modules()):
        del sys.modules[k]


BOSS_PREFIX = os.path.join(REPO, "theboss") + os.sep


# --------------------------------------------------------------------------
# processes
# --------------------------------------------------------------------------
class Proc:
    """A simulated operating system process: pid, RNG states, modules."""

    def __init__(self, pid, name, method, identity=()):
        self.pid = pid
        self.name = name
        self.method = method
        self.identity = identity
        self.np_state = None
        self.py_state = None
        self.mods = None  # None: shares the parent's copy of the package
        self.is_main = False


def settings(np):
    """What a process has only one of, and a library call leaves alone."""
    import decimal
    import gc
    import multiprocessing
    import signal
    return {
        "environment": dict(os.environ), "working directory": os.getcwd(),
        "numpy error handling": np.geterr(), "numpy print options": np.get_printoptions(),
        "recursion limit": sys.getrecursionlimit(),
        "warning filters": list(warnings.filters),
        "start method": multiprocessing.get_start_method(allow_none=True)
        or multiprocessing.get_all_start_methods()[0],
        "garbage collector": gc.isenabled(), "decimal precision": decimal.getcontext().prec,
        "interrupt handler": signal.getsignal(signal.SIGINT),
        "termination handler": signal.getsignal(signal.SIGTERM),
        "exception hook": sys.excepthook,
    }


def restore_settings(np, old):
    """Undo what a simulated process did to its settings."""
    import decimal
    import gc
    import multiprocessing
    import signal
    for k, v in old["environment"].items():
        if os.environ.get(k) != v:
            os.environ[k] = v
    for k in list(os.environ):
        if k not in old["environment"]:
            del os.environ[k]
    os.chdir(old["working directory"])
    np.seterr(**old["numpy error handling"])
    np.set_printoptions(**old["numpy print options"])
    sys.setrecursionlimit(old["recursion limit"])
    warnings.filters[:] = old["warning filters"]
    if multiprocessing.get_start_method(allow_none=True) not in (None, old["start method"]):
        multiprocessing.set_start_method(old["start method"], force=True)
    (gc.enable if old["garbage collector"] else gc.disable)()
    decimal.getcontext().prec = old["decimal precision"]
    for sig, key in ((signal.SIGINT, "interrupt handler"),
                     (signal.SIGTERM, "termination handler")):
        if signal.getsignal(sig) is not old[key]:
            signal.signal(sig, old[key])
    sys.excepthook = old["exception hook"]


class World:
    """One simulated execution."""

    def __init__(self, seed, cpu=4, isolate=False):
        import numpy as np
        self.np = np
        self.seed = seed
        self.sched = _random.Random(f"sched/{seed}")
        self.entropy = _random.Random(f"entropy/{seed}")
        self.now = 1.6e9 + self.entropy.random() * 1e8
        self.t0 = self.now
        self.cpu = cpu
        self.isolate = isolate
        self.next_pid = self.first_pid = 1000 + self.entropy.randrange(1000)
        self.pid_step = 3
        self.next_identity = 1
        self.fired = {}
        self.hash = hashlib.sha256()
        self.sched_hash = hashlib.sha256()
        self.events = []
        self.draws = 0
        self.draw_budget = 10 ** 9
        self.fault = None
        self.extreme = None
        self.lines = 0
        self.line_budget = None
        self.coop = None
        self.in_task = 0
        self.watch_settings = False
        self.pools = []  # cores of the pools of this operation
        self.busy = self.peak_busy = 0
        self.pools_started = 0
        self.tasks_run = 0
        self.switches = 0
        self.procs_started = 0
        self.probes = {}
        self.main = None
        self.cur = None

    # -- log ---------------------------------------------------------------
    def log(self, *ev):
        s = repr(ev)
        self.hash.update(s.encode())
        if len(self.events) < 400:
            self.events.append(s)

    def slog(self, *ev):
        """An event that is a scheduling decision."""
        self.sched_hash.update(repr(ev).encode())
        self.log(*ev)

    def fire(self, kind):
        self.fired[kind] = self.fired.get(kind, 0) + 1
        self.log("fault", kind)

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    # -- processes -----------------------------------------------------------
    def _fresh_rng(self, proc):
        np = self.np
        seed = [self.entropy.getrandbits(32) for _ in range(8)]
        rs = np.random.RandomState(np.random.MT19937(seed))
        proc.np_state = rs.get_state(legacy=False)
        proc.py_state = _random.Random(self.entropy.getrandbits(128)).getstate()

    def new_proc(self, name, method, main=False):
        p = Proc(self.next_pid, name, method, (self.next_identity,))
        self.next_pid += 1 + self.entropy.randrange(3) % self.pid_step
        self.next_identity += 1
        self.procs_started += 1
        p.is_main = main
        if method in ("fork", "forkserver_inherit") and self.cur is not None:
            # numpy's global generator is inherited through fork; the standard
            # library reseeds its own in the child (os.register_at_fork).
            p.np_state = self.np.random.get_state(legacy=False)
            p.py_state = _random.Random(self.entropy.getrandbits(128)).getstate()
            p.mods = None
        else:
            self._fresh_rng(p)
            if main or self.isolate:
                p.mods = {}
        return p

    @contextlib.contextmanager
    def enter(self, proc):
        """Run the body as `proc`."""
        np = self.np
        prev = self.cur
        if prev is not None:
            prev.np_state = np.random.get_state(legacy=False)
            prev.py_state = _random.getstate()
            prev_mods = _boss_modules()
        np.random.set_state(proc.np_state)
        _random.setstate(proc.py_state)
        swapped = proc.mods is not None
        if swapped:
            _clear_boss()
            sys.modules.update(proc.mods)
        self.cur = proc
        own = settings(np) if self.watch_settings and prev is not None else None
        try:
            yield proc
        finally:
            if own is not None and settings(np) != own:
                restore_settings(np, own)
            proc.np_state = np.random.get_state(legacy=False)
            proc.py_state = _random.getstate()
            if swapped:
                proc.mods = _boss_modules()
                _clear_boss()
                if prev is not None:
                    sys.modules.update(prev_mods)
            self.cur = prev
            if prev is not None:
                np.random.set_state(prev.np_state)
                _random.setstate(prev.py_state)

    # -- time ------------------------------------------------------------------
    def clock(self):
        self.now += 1e-6
        return self.now

    # -- draws -------------------------------------------------------------------
    def draw(self):
        self.draws += 1
        if self.draws > self.draw_budget:
            raise DrawBudget(f"more than {self.draw_budget} random draws")

    def sim_elapsed(self):
        return self.now - self.t0


def w():
    return WORLD


# --------------------------------------------------------------------------
# line tracing: interrupts, line budgets, cooperative switching
# --------------------------------------------------------------------------
class Tracer:
    """sys.settrace function calling `hook()` before each line of theboss."""

    def __init__(self, hook):
        self.hook = hook
        self.codes = {}

    def global_trace(self, frame, event, arg):
        code = frame.f_code
        ok = self.codes.get(code)
        if ok is None:
            ok = self.codes[code] = code.co_filename.startswith(BOSS_PREFIX)
        return self.local_trace if ok else None

    def local_trace(self, frame, event, arg):
        if event == "line":
            self.hook(frame)
        return self.local_trace


@contextlib.contextmanager
def traced(hook):
    prev = sys.gettrace()
    tr = Tracer(hook)
    sys.settrace(tr.global_trace)
    try:
        yield
    finally:
        sys.settrace(prev)


# --------------------------------------------------------------------------
# installation
# --------------------------------------------------------------------------
_installed = False

NP_SCALAR = ("random", "random_sample", "ranf", "sample", "rand")
LO, HI = 0.0, 1.0 - 2.0 ** -53


def install():
    global _installed
    if _installed:
        return
    _installed = True
    warnings.simplefilter("ignore")
    import numpy as np
    import numpy.linalg  # noqa
    import scipy.special  # noqa
    import scipy  # noqa
    import concurrent.futures  # noqa
    import multiprocessing  # noqa
    import multiprocessing.pool  # noqa
    import secrets
    import uuid  # noqa

    sys.meta_path.insert(0, _Finder())

    # ---- numpy's global generator: count draws, allow extreme draws -------
    def scalar_wrapper(name, real):
        def f(*a, **k):
            wd = WORLD
            if wd is None:
                return real(*a, **k)
            wd.draw()
            r = real(*a, **k)
            if wd.extreme is not None:
                r = wd.extreme.uniform(r)
            return r
        f.__name__ = f.__qualname__ = name
        return f

    def choice_wrapper(real):
        def choice(a, size=None, replace=True, p=None):
            wd = WORLD
            if wd is None:
                return real(a, size=size, replace=replace, p=p)
            wd.draw()
            if wd.extreme is None or size is not None:
                return real(a, size=size, replace=replace, p=p)
            if p is None:
                n = a if isinstance(a, (int, np.integer)) else len(a)
                i = wd.extreme.index(int(real(n)), n)
            else:
                real(len(p), p=p)  # validates p, consumes the draw
                u = wd.extreme.uniform(float(real_np["random_sample"]()))
                cdf = np.asarray(p, dtype=float).cumsum()
                cdf /= cdf[-1]
                i = int(cdf.searchsorted(u, side="right"))
            return i if isinstance(a, (int, np.integer)) else np.asarray(a)[i]
        return choice

    def randint_wrapper(real):
        def randint(low, high=None, size=None, dtype=int):
            wd = WORLD
            if wd is None:
                return real(low, high, size, dtype)
            wd.draw()
            r = real(low, high, size, dtype)
            if wd.extreme is not None and size is None:
                lo, hi = (0, low) if high is None else (low, high)
                r = lo + wd.extreme.index(int(r) - lo, hi - lo)
            return r
        return randint

    def plain_wrapper(name, real):
        def f(*a, **k):
            if WORLD is not None:
                WORLD.draw()
            return real(*a, **k)
        f.__name__ = f.__qualname__ = name
        return f

    skip = {"get_state", "set_state", "seed", "Generator", "RandomState",
            "SeedSequence", "MT19937", "Philox", "PCG64", "PCG64DXSM", "SFC64",
            "default_rng", "BitGenerator"}
    real_np = {}
    for name in np.random.__all__:
        if name in skip:
            continue
        real_np[name] = getattr(np.random, name)
    for name, real in real_np.items():
        if name in NP_SCALAR:
            wr = scalar_wrapper(name, real)
        elif name == "choice":
            wr = choice_wrapper(real)
        elif name == "randint":
            wr = randint_wrapper(real)
        else:
            wr = plain_wrapper(name, real)
        setattr(np.random, name, wr)
        if hasattr(np.random.mtrand, name):
            setattr(np.random.mtrand, name, wr)

    # ---- standard library generator ------------------------------------------
    real_py = {}
    for name in ("random", "uniform", "randint", "randrange", "choice", "choices",
                 "sample", "shuffle", "getrandbits", "gauss", "betavariate",
                 "expovariate", "normalvariate", "triangular", "binomialvariate"):
        if hasattr(_random, name):
            real_py[name] = getattr(_random, name)
    for name, real in real_py.items():
        setattr(_random, name,
                scalar_wrapper(name, real) if name == "random"
                else plain_wrapper(name, real))

    real_py_seed = _random.Random.seed

    def py_seed(self, a=None, version=2):
        if a is None and WORLD is not None:
            a = WORLD.entropy.getrandbits(256)
        return real_py_seed(self, a, version)
    _random.Random.seed = py_seed
    _random.seed = lambda a=None, version=2: _random._inst.seed(a, version)

    # ---- OS entropy ---------------------------------------------------------------
    real_urandom = os.urandom

    def urandom(n):
        return WORLD.entropy.randbytes(n) if WORLD is not None else real_urandom(n)
    os.urandom = urandom
    _random._urandom = urandom
    real_randbits = np.random.bit_generator.randbits

    def randbits(k):
        return WORLD.entropy.getrandbits(k) if WORLD is not None else real_randbits(k)
    np.random.bit_generator.randbits = randbits
    secrets.randbits = randbits
    secrets.token_bytes = lambda n=None: urandom(32 if n is None else n)

    # ---- clocks ---------------------------------------------------------------------
    def clock(real, scale=1.0, cast=float):
        def f():
            return cast(WORLD.clock() * scale) if WORLD is not None else real()
        return f
    for name in ("time", "monotonic", "perf_counter", "process_time", "thread_time"):
        setattr(_time, name, clock(getattr(_time, name)))
        ns = name + "_ns"
        setattr(_time, ns, clock(getattr(_time, ns), 1e9, int))
    real_sleep = _time.sleep

    def sleep(s):
        if WORLD is None:
            return real_sleep(s)
        WORLD.now += max(0.0, float(s))
        WORLD.log("sleep", float(s))
    _time.sleep = sleep

    # ---- machine and process identity ---------------------------------------------------
    real_cpu = os.cpu_count

    def cpu_count():
        return WORLD.cpu if WORLD is not None else real_cpu()
    os.cpu_count = cpu_count
    multiprocessing.cpu_count = cpu_count
    multiprocessing.context.BaseContext.cpu_count = lambda self: cpu_count()
    real_aff = os.sched_getaffinity
    os.sched_getaffinity = lambda pid=0: (
        set(range(WORLD.cpu)) if WORLD is not None else real_aff(pid))

    def getpid():
        return WORLD.cur.pid if WORLD is not None and WORLD.cur else real_getpid()
    os.getpid = getpid

    class _ProcView:
        def __init__(self, p):
            self.name = p.name
            self.pid = self.ident = p.pid
            self._identity = () if p.is_main else p.identity
            self.daemon = False
            self.exitcode = None

        def is_alive(self):
            return True

    real_current = multiprocessing.current_process

    def current_process():
        if WORLD is None or WORLD.cur is None:
            return real_current()
        return _ProcView(WORLD.cur)
    multiprocessing.current_process = current_process

    from . import coop, pools
    pools.install()
    coop.install()


def start_world(seed, cpu=4, isolate=False):
    """Create a World whose main process has theboss freshly loaded."""
    global WORLD
    install()
    import multiprocessing
    multiprocessing.context._default_context._actual_context = None \
        if hasattr(multiprocessing, "context") else None
    WORLD = World(seed, cpu, isolate)
    return WORLD


_names = []


def _preload():
    """Import every module of theboss (into the current simulated process)."""
    if not _names:
        for d, dirs, files in os.walk(os.path.join(REPO, "theboss")):
            dirs[:] = sorted(x for x in dirs if not x.startswith((".", "__")))
            for f in sorted(files):
                if f.endswith(".py"):
                    rel = os.path.relpath(os.path.join(d, f), REPO)[:-3].split(os.sep)
                    if rel[-1] == "__init__":
                        rel.pop()
                    if "tests" not in rel and "r_simulation" not in rel[-1]:
                        _names.append(".".join(rel))
    for name in _names:
        if name not in sys.modules:
            try:
                importlib.import_module(name)
            except Exception:  # noqa: whoever needs it will meet the error
                pass


@contextlib.contextmanager
def world(seed, cpu=4, isolate=False, fresh_main=False):
    """A whole simulated execution: enters the main process."""
    global WORLD
    wd = start_world(seed, cpu, isolate)
    try:
        main = wd.new_proc("MainProcess", "main", main=True)
        wd.main = main
        with wd.enter(main):
            # Every run starts a new program: nothing in the modules of theboss
            # survives from another run.
            if not fresh_main:
                _preload()
            yield wd
    finally:
        WORLD = None
