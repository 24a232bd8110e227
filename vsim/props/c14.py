"""C14: the R-backed sampler is a faithful adapter of the external sampler."""
import random
import sys
import types

from .. import ref
from .common import *
from .. import gen as g

RUNS = {"quick": 16000, "thorough": 320000}
RULE = ("A run replaces R by a simulated external sampler (exact law of the columns it "
        "is given, 1-based column-major results) and performs a history of "
        "simulations, probability searches and matrix exchanges on one or two adapters, "
        "made directly or by the factory, with missing packages, errors in R at a "
        "seeded call and interrupts at seeded lines; results are compared with what the "
        "external sampler drew. Non-trivial: a result judged that has two different "
        "entries.")
STUB = STUB + ["rpy2 and the R package BosonSampling"]


class RError(RuntimeError):
    pass


class Vec(list):
    """An R vector."""


class Mat:
    def __init__(self, values, nrow=None, ncol=None, byrow=False):
        v = np.array(list(values), dtype=complex)
        nrow, ncol = nrow and int(nrow), ncol and int(ncol)
        if nrow is None and ncol is None:
            nrow = len(v)
        if nrow is None:
            nrow = len(v) // ncol
        if ncol is None:
            ncol = len(v) // nrow
        if len(v) != nrow * ncol:
            raise RError("data length differs from size of matrix")
        self.a = v.reshape(nrow, ncol) if byrow else v.reshape(ncol, nrow).T
        self.nrow, self.ncol = nrow, ncol
        self.dim = (nrow, ncol)


class RList(list):
    names = ("values", "perm", "pmf")

    def rx2(self, name):
        return self[self.names.index(name)]


def columns_law(A):
    """Outcome -> probability for one particle in every column."""
    m, n = A.shape
    out = {}
    for t in ref.states(n, m):
        rows = [i for i, x in enumerate(t) for _ in range(x)]
        p = abs(ref.permanent(A[rows, :])) ** 2
        for x in t:
            for k in range(2, x + 1):
                p /= k
        out[t] = p
    return out


class R:
    """The external process."""

    def __init__(self, wd, seed):
        self.wd = wd
        self.rng = random.Random(seed)
        self.calls = []  # (law, samples)
        self.installed = True
        self.fail_at = None
        self.budget = None
        self.laws = {}
        self.flat = False

    def sampler(self, A, sampleSize=1, perm=False):
        self.wd.now += 1e-4 * (1 + self.rng.random())
        if self.fail_at is not None:
            if self.fail_at == 0:
                self.fail_at = None
                self.wd.fire("r_error")
                raise RError("Error in bosonSampler: simulated")
            self.fail_at -= 1
        if self.budget is not None and len(self.calls) >= self.budget:
            raise seams_budget(f"more than {self.budget} calls of the external sampler")
        N = int(sampleSize)
        key = (A.a.shape, A.a.tobytes())
        if key not in self.laws:
            self.laws[key] = columns_law(A.a)
        law = self.laws[key]
        outs = list(law)
        tot = sum(law.values())
        if not abs(tot - 1) < 1e-6:
            raise RError("the columns are not orthonormal")
        if self.flat:
            # A stream in which rare outcomes come early.
            outs = [t for t in outs if law[t] > 1e-9]
            drawn = self.rng.choices(outs, k=N)
        else:
            drawn = self.rng.choices(outs, [law[t] for t in outs], k=N)
        values = Vec()
        for t in drawn:
            modes = [i + 1 for i, x in enumerate(t) for _ in range(x)]
            self.rng.shuffle(modes)
            values.extend(modes)
        self.calls.append((law, drawn))
        pmf = Vec([law[t] for t in drawn]) if perm else None
        return RList([values, Vec([1j] * N) if perm else None, pmf])


def seams_budget(msg):
    from .. import seams
    return seams.DrawBudget(msg)


def install(r):
    rpy2 = types.ModuleType("rpy2")
    ro = types.ModuleType("rpy2.robjects")
    pk = types.ModuleType("rpy2.robjects.packages")
    rpy2.__path__ = []
    ro.__path__ = []
    rpy2.robjects = ro
    ro.packages = pk

    class _R:
        matrix = staticmethod(Mat)

        def __getitem__(self, name):
            return getattr(self, name)
    ro.r = _R()
    for name in ("ComplexVector", "FloatVector", "IntVector"):
        setattr(ro, name, Vec)
    pkg = types.SimpleNamespace(bosonSampler=r.sampler)

    def importr(name, *a, **k):
        if not r.installed or name != "BosonSampling":
            raise RError(f"no package {name}")
        return pkg
    pk.importr = importr
    pk.isinstalled = lambda name, *a, **k: r.installed
    mods = {"rpy2": rpy2, "rpy2.robjects": ro, "rpy2.robjects.packages": pk}
    sys.modules.update(mods)
    return mods


def gen(r, tier, i):
    m = r.randrange(1, 5)
    if r.random() < 0.03:
        m = r.randrange(9, 13)
    objs_ = [{"kind": "R", "m": m, "via": r.choice(("direct", "factory")),
              "mat_as": g.gen_mat_as(r), "mat": g.gen_matrix(r, m)}
             for _ in range(r.choice((1, 1, 2)))]
    ops = []
    sizes = [m for _ in objs_]
    now = [inst["mat"] for inst in objs_]
    for _ in range(g.steps(r, (1, 2, 3, 4))):
        k = r.choice(("sim", "sim", "sim", "find", "random", "setm"))
        op = {"op": k, "obj": r.randrange(len(objs_)), "sid": r.randrange(10 ** 6)}
        j = op["obj"]
        if k == "setm":
            if r.random() < 0.4:
                sizes[j] = r.randrange(1, 5)
            op["mat"] = g.gen_matrix(r, sizes[j])
            if r.random() < 0.3 and now[j]["m"] == sizes[j]:
                op["mat"] = g.related_matrix(r, now[j])
            now[j] = op["mat"]
            op["mat_as"] = g.gen_mat_as(r)
        else:
            m = sizes[j]
            n = r.randrange(1, min(m, 4) + 1 if m < 9 else 3)
            s = [0] * m
            for j in r.sample(range(m), n):
                s[j] = 1
            op.update(input=s, itype=itype(r), n=r.choice((1, 2, 3, 5, 8, 17, 40, 150)),
                      pick=r.randrange(10 ** 6), otype=itype(r),
                      flat=r.random() < 0.3)
            x = r.random()
            if x < 0.15:
                op["r_error"] = r.choice((0, 0, 1, 3))
            elif x < 0.3:
                op["fault"] = {"kind": "interrupt", "line": int(10 ** r.uniform(0, 2.2)),
                               "exc": r.choice(("KeyboardInterrupt", "MemoryError"))}
        ops.append(op)
    return {"cpu": 4, "iso": False, "objs": objs_, "ops": ops,
            "missing": r.random() < 0.1}


def run(run, spec):
    R_ = R(run.wd, f"R/{spec['seed']}")
    mods = install(R_)
    try:
        _run(run, spec, R_)
    finally:
        for k in mods:
            sys.modules.pop(k, None)


def _run(run, spec, R_):
    O = {}

    def make(inst):
        M = objs.make_matrix(inst["mat"], inst["mat_as"])
        if inst["via"] == "factory":
            F = objs.mod(objs.S + "simulation_strategy_factory")
            m = inst["m"]
            cfg = objs.make_config(M, [0] * m, m)
            pc = objs.make_pc("RYSER", M, [0] * m, [0] * m)
            return F.SimulationStrategyFactory(
                cfg, pc, F.StrategyType.CLIFFORD_R).generate_strategy()
        return objs.mod(objs.S + "cliffords_r_simulation_strategy"
                        ).CliffordsRSimulationStrategy(M)

    for j, inst in enumerate(spec["objs"]):
        if spec["missing"]:
            R_.installed = False
            run.wd.fire("missing_package")
            st, v = run.op({"op": "build", "sid": -1 - j}, lambda: make(inst),
                           allow_exc=(ImportError, RError))
            R_.installed = True
            if st == "ok":
                raise Violation("adapter", "built although the R packages are missing")
        st, x = run.op({"op": "build", "sid": -11 - j}, lambda: make(inst))
        O[j] = {"x": x, "A": g.matrix(inst["mat"])}
    for op in spec["ops"]:
        o = O[op["obj"]]
        if op["op"] == "setm":
            M = objs.make_matrix(op["mat"], op["mat_as"])
            run.op(op, lambda: o["x"].set_matrix(M))
            o["A"] = g.matrix(op["mat"])
            continue
        s = objs.conv(op["input"], op["itype"])
        m = len(op["input"])
        if m != len(o["A"]):
            raise seams.GaveUp("not an experiment")  # only while minimising
        law = columns_law(o["A"][:, [i for i, x in enumerate(op["input"]) if x]])
        R_.calls.clear()
        R_.fail_at = op.get("r_error")
        R_.budget = None
        R_.flat = op.get("flat", False)
        run.kind(op["op"])
        what = f"{op['op']} of input {op['input']}"
        if op["op"] == "sim":
            R_.budget = op["n"] + 5
            st, v = run.op(op, lambda: o["x"].simulate(s, op["n"]))
            if st == "ok":
                v = objs.norm_samples(v, m, op["n"])
                drawn = [t for c in R_.calls for t in c[1]]
                if sorted(v) != sorted(drawn):
                    raise Violation("adapter", f"{what}: the external sampler drew {drawn}, "
                                    f"returned {v}"[:400])
                if len(set(v)) > 1:
                    run.stats["nontrivial"] = True
                run.stats["samples"] += len(v)
        else:
            if R_.flat:
                likely = [t for t, p in law.items() if p > 1e-9]
                R_.budget = 60 * len(likely) + 20
            else:
                likely = [t for t, p in law.items() if p > 2e-3]
                if op["op"] == "random" and any(1e-9 < p <= 2e-3 for p in law.values()):
                    run.wd.probe("too_rare_to_judge")
                    continue
                rare = min(law[t] for t in likely)
                R_.budget = int(60 / rare) + 20
            rr = random.Random(op["pick"])
            if op["op"] == "find":
                outs = rr.sample(likely, rr.randrange(1, len(likely) + 1))
                if rr.random() < 0.3:
                    outs += rr.choices(outs, k=rr.randrange(1, 4))
                st, v = run.op(op, lambda: o["x"].find_probabilities(
                    s, [objs.conv(t, op["otype"]) for t in outs]))
            else:
                # More states than the experiment has are asked for as well.
                k = rr.randrange(1, len(likely) + 1) if rr.random() < 0.8 else \
                    len(likely) + rr.randrange(1, 4)
                st, v = run.op(op, lambda: o["x"].find_probabilities_of_n_random_states(s, k))
            if st == "ok":
                v = {tuple(int(x) for x in t): float(np.real(p)) for t, p in dict(v).items()}
                if op["op"] == "find" and set(v) != set(outs):
                    raise Violation("adapter", f"{what}: probabilities of {sorted(v)}, "
                                    f"asked for {sorted(set(outs))}"[:400])
                if op["op"] == "random":
                    drawn = list(dict.fromkeys(t for c in R_.calls for t in c[1]))
                    if len(v) < k and sum(law.get(t, 0.0) for t in v) < 1 - 1e-3:
                        raise Violation("adapter", f"{what}: {len(v)} states, asked for {k}")
                    if set(v) != set(drawn[:k]):
                        raise Violation("adapter", f"{what}: probabilities of {sorted(v)}, the "
                                        f"first {k} states drawn are {drawn[:k]}"[:400])
                for t, p in v.items():
                    if not abs(p - law.get(t, 0.0)) < 1e-8:
                        raise Violation("adapter", f"{what}: probability of {t} is {p}, "
                                        f"exact {law.get(t, 0.0)}")
                if len(v) > 1:
                    run.stats["nontrivial"] = True
        if st == "ok":
            for cl, _ in R_.calls:
                if cl.keys() != law.keys() or any(abs(cl[t] - law[t]) > 1e-8 for t in law):
                    raise Violation("adapter", f"{what}: the external sampler was given "
                                    f"another experiment")
            run.digest(sorted(v) if isinstance(v, dict) else v)
        else:
            run.wd.probe("fault_then_raised")
