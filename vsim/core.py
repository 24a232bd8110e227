"""Running one spec: operations, faults, verdicts."""
import hashlib
import json
import random
import signal
import traceback

import numpy as np

from . import objs, seams
from .objs import Bad
from .pools import EXC

CPU_LIMIT = 40.0        # seconds of user CPU per operation before suspicion
LINE_BUDGET = 25_000_000
DRAW_BUDGET = 4_000_000


class Violation(Exception):
    def __init__(self, cls, msg):
        super().__init__(f"{cls}: {msg}")
        self.cls = cls
        self.msg = msg


class Extreme:
    """Replaces some uniform draws by values at the ends of their range."""

    def __init__(self, wd, rng, rate, values):
        self.wd, self.rng, self.rate, self.values = wd, rng, rate, values

    def uniform(self, r):
        if isinstance(r, np.ndarray) or self.rng.random() >= self.rate:
            return r
        self.wd.fire("extreme_draw")
        v = self.values[self.rng.randrange(len(self.values))]
        return v

    def index(self, i, n):
        if self.rng.random() >= self.rate:
            return i
        self.wd.fire("extreme_draw")
        return 0 if self.rng.random() < 0.5 else n - 1


class Stuck:
    """An unlucky stream: the first draws are all the same."""

    def __init__(self, wd, many, value):
        self.wd, self.left, self.value = wd, many, value

    def _next(self):
        if self.left == 0:
            return False
        self.left -= 1
        if self.left == 0:
            self.wd.fire("stuck_draws")
        return True

    def uniform(self, r):
        return r if isinstance(r, np.ndarray) or not self._next() else self.value

    def index(self, i, n):
        return int(self.value * n) if self._next() else i


def _alarm(signum, frame):
    raise seams.HangSuspect("operation used too much CPU time")


class Run:
    """State of one simulated execution of a spec."""

    def __init__(self, spec, wd, careful=False):
        self.spec = spec
        self.wd = wd
        self.careful = careful
        self.cpu_limit = CPU_LIMIT
        self.objs = {}
        self.stats = {"ops": 0, "raised": 0, "samples": 0, "max_log_e": 0.0,
                      "nontrivial": False, "kinds": {}}

    def kind(self, k):
        self.stats["kinds"][k] = self.stats["kinds"].get(k, 0) + 1

    # ------------------------------------------------------------------
    def op(self, op, fn, allow_exc=None):
        """Run fn() as one operation.  Returns ("ok", value) or ("exc", e).

        An exception with no fault fired is a violation, unless allow_exc.
        """
        wd = self.wd
        self.stats["ops"] += 1
        wd.sched = random.Random(f"op/{self.spec['seed']}/{op.get('sid', 0)}")
        if "cpu" in op:
            if op["cpu"] != wd.cpu:
                wd.fire("cpu_count_change")
            wd.cpu = op["cpu"]
        f = dict(op["fault"]) if op.get("fault") else None
        wd.fault = f
        wd.tasks_run = 0
        wd.pools = []
        wd.busy = wd.peak_busy = 0
        wd.draws = 0
        wd.draw_budget = op.get("draws", DRAW_BUDGET)
        wd.lines = 0
        wd.extreme = None
        if op.get("extreme"):
            e = op["extreme"]
            wd.extreme = Extreme(wd, random.Random(f"ext/{self.spec['seed']}/{op.get('sid', 0)}"),
                                 e["rate"], e["values"])
        if op.get("stuck"):
            wd.extreme = Stuck(wd, *op["stuck"])
            wd.draw_budget += op["stuck"][0]
        before = dict(wd.fired)
        wd.log("op", op.get("op"), op.get("obj"), op.get("sid"))
        harmless = ("stall", "cpu_count_change", "extreme_draw", "stuck_draws")
        value = exc = None
        hook = None
        if f and f["kind"] == "interrupt":
            cnt = [0]

            def hook(frame):
                if wd.in_task:
                    return
                cnt[0] += 1
                if cnt[0] == f["line"]:
                    wd.fire("interrupt_" + f["exc"])
                    raise EXC[f["exc"]]("simulated")
        if self.careful:
            inner = hook

            def hook(frame):
                wd.lines += 1
                if wd.lines > LINE_BUDGET:
                    raise seams.LineBudget(f"more than {LINE_BUDGET} lines of code")
                if inner:
                    inner(frame)
        use_timer = not self.careful
        if use_timer:
            signal.signal(signal.SIGVTALRM, _alarm)
            signal.setitimer(signal.ITIMER_VIRTUAL, self.cpu_limit)
        try:
            if hook is not None:
                with seams.traced(hook):
                    value = fn()
            else:
                value = fn()
        except (Bad, Violation, seams.HangSuspect, seams.GaveUp):
            raise
        except (seams.DrawBudget, seams.LineBudget, seams.Deadlock) as e:
            raise Violation("no_progress", f"{op.get('op')} did not finish: {e}")
        except (Exception, KeyboardInterrupt) as e:
            exc = e
        finally:
            if use_timer:
                signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            wd.fault = None
            wd.extreme = None
        fired = [k for k, v in wd.fired.items()
                 if v > before.get(k, 0) and k not in harmless]
        if exc is not None:
            self.stats["raised"] += 1
            wd.log("raised", type(exc).__name__)
            if not fired and not (allow_exc and isinstance(exc, allow_exc)):
                tb = traceback.extract_tb(exc.__traceback__)
                where = [t for t in tb if t.filename.startswith(seams.BOSS_PREFIX)]
                at = f" at {where[-1].name}" if where else ""
                raise Violation(f"crash:{type(exc).__name__}",
                                f"{op.get('op')} raised {type(exc).__name__}: {exc}{at} "
                                f"with no fault injected")
            return "exc", exc
        return "ok", value

    # ------------------------------------------------------------------
    def digest(self, x):
        self.wd.log("result", hashlib.sha256(repr(x).encode()).hexdigest()[:16])


def execute(prop, spec, careful=False, give_up=None):
    """Execute a spec; returns a result dict (deterministic)."""
    if spec.get("careful"):
        careful = True
    try:
        with seams.world(spec["seed"], spec.get("cpu", 4), spec.get("iso", False),
                         spec.get("fresh", False)) as wd:
            run = Run(spec, wd, careful)
            if give_up:
                run.cpu_limit = give_up
            viol = None
            try:
                prop.run(run, spec)
            except Violation as v:
                viol = {"cls": v.cls, "msg": v.msg}
            except Bad as b:
                viol = {"cls": "bad_value", "msg": str(b)}
            except seams.GaveUp:
                pass  # counted in probes
            wd.log("end", viol and viol["cls"])
            return {"violation": viol, "hash": wd.hash.hexdigest(),
                    "sched": wd.sched_hash.hexdigest(), "fired": wd.fired,
                    "sim_s": wd.sim_elapsed(), "stats": run.stats,
                    "pools": wd.pools_started, "procs": wd.procs_started,
                    "switches": wd.switches, "probes": wd.probes,
                    "events": wd.events}
    except seams.HangSuspect:
        if careful or give_up:
            raise
        res = execute(prop, dict(spec, careful=True), True)
        res["probes"]["hang_suspect"] = res["probes"].get("hang_suspect", 0) + 1
        return res


# ----------------------------------------------------------------------
# minimisation
# ----------------------------------------------------------------------
def candidates(spec):
    """Smaller specs, most drastic first."""
    ops = spec.get("ops", [])
    n = len(ops)
    size = n // 2
    while size >= 1:
        for i in range(0, n, size):
            c = ops[:i] + ops[i + size:]
            if c and len(c) < n:
                yield dict(spec, ops=c)
        size //= 2
    for key, val in (("iso", False), ("cpu", 1), ("cpu", 2), ("threads_mode", False)):
        if key in spec and spec[key] != val and not (
                key == "cpu" and isinstance(spec[key], int) and spec[key] < val):
            yield dict(spec, **{key: val})
    for i, op in enumerate(ops):
        def rep(new):
            return dict(spec, ops=ops[:i] + [new] + ops[i + 1:])
        if op.get("fault"):
            yield rep({k: v for k, v in op.items() if k != "fault"})
            f = op["fault"]
            if f.get("line", 0) > 1:
                for v in (1, f["line"] // 2, f["line"] - 1):
                    yield rep(dict(op, fault=dict(f, line=v)))
            if f.get("event", 0) > 1:
                yield rep(dict(op, fault=dict(f, event=1)))
            if f.get("task", 0) > 0:
                yield rep(dict(op, fault=dict(f, task=0)))
        if "cpu" in op:
            yield rep({k: v for k, v in op.items() if k != "cpu"})
        if isinstance(op.get("n"), int) and op["n"] > 1:
            for v in (1, op["n"] // 4, op["n"] // 2, op["n"] - 1):
                if 0 < v < op["n"]:
                    yield rep(dict(op, n=v))
        if op.get("itype") not in (None, "list"):
            yield rep(dict(op, itype="list"))
        if op.get("route") not in (None, "direct"):
            yield rep(dict(op, route="direct"))
    for i, o in enumerate(spec.get("objs", [])):
        def repo(new):
            l = list(spec["objs"])
            l[i] = new
            return dict(spec, objs=l)
        if isinstance(o, dict):
            if o.get("mat", {}).get("type") not in (None, "identity"):
                yield repo(dict(o, mat=dict(o["mat"], type="identity")))
            if o.get("mat_as", "ndarray") != "ndarray":
                yield repo(dict(o, mat_as="ndarray"))
            if o.get("bare"):
                yield repo({k: v for k, v in o.items() if k != "bare"})
            if o.get("via") == "factory":
                yield repo(dict(o, via="direct"))
            if o.get("threads", 1) != 1:
                yield repo(dict(o, threads=1))
                yield repo(dict(o, threads=2))


def minimise(prop, spec, cls, deadline):
    tries = 0
    progress = True
    while progress and seams.real_perf() < deadline:
        progress = False
        for c in candidates(spec):
            if seams.real_perf() > deadline or tries > 400:
                return spec, tries
            tries += 1
            try:
                r = execute(prop, c, give_up=10.0)
            except (Exception, seams.HangSuspect):
                continue
            if r["violation"] and r["violation"]["cls"] == cls:
                spec = c
                progress = True
                break
    return spec, tries
