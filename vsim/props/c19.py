"""C19: calls leave the process as they found it, and keep to their workers."""
import decimal
import gc
import os
import sys

from .common import *
from .. import gen as g
from .. import seams

RUNS = {"quick": 12000, "thorough": 240000}
RULE = ("A run builds one to three samplers and distribution calculators (mostly those with "
        "worker pools, directly or through the factory, with any number of threads) and "
        "calls them under changing CPU counts, stalls, failing and dying workers, pools that "
        "cannot start and interrupts while the caller waits for its workers. After every "
        "call: each pool it started has been ended and (unless interrupted) has nothing left to do, no "
        "more workers were ever at work at once than the threads allow, and the process-wide settings "
        "(environment, working directory, numpy's error handling, signal handlers, start "
        "method, warning filters, ...) are as before. Non-trivial: a call that started a pool.")

# Settings the machinery itself runs with: the simulated process has its own.
NUMBERS = ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS", "PYTHONHASHSEED",
           "PYTHONDONTWRITEBYTECODE")


def gen(r, tier, i):
    cpu = r.choice((1, 2, 3, 4, 8))
    objs_, ops = [], []
    for j in range(r.choice((1, 1, 2, 3))):
        if r.random() < 0.3:
            m, n = r.randrange(1, 4), r.randrange(0, 4)
            objs_.append({"kind": "udist", "m": m, "pc": r.choice(g.CALCS),
                          "mat": g.gen_matrix(r, m), "input": g.gen_input(r, m, n),
                          "eta": g.gen_eta(r)})
            continue
        kind = r.choice(("BOBS", "ULBOBS") * 5 + ALL)
        m = r.randrange(1, {"BOBS": 3, "LNET": 3, "ULBOBS": 4}.get(kind, 5) + 1)
        objs_.append(g.gen_inst(r, kind, m, min(m, small_n(r, kind, 3))))
    for _ in range(g.steps(r, (1, 2, 3, 4), 0.02)):
        j = r.randrange(len(objs_))
        inst = objs_[j]
        if inst["kind"] == "udist":
            op = {"op": "distribution", "obj": j, "sid": r.randrange(10 ** 6)}
            if r.random() < 0.5:
                op.update(op="outcomes", pick=r.randrange(10 ** 6),
                          count=r.choice((0, 1, 2, 5, 17, 60)))
        else:
            op = sim_op(r, j, inst, r.choice((0, 1, 2, 3, 5, 8, 9, 20, 33)), n=None)
        x = r.random()
        if x < 0.5:
            f = gen_fault(r, True)
            if f["kind"] != "interrupt":
                op["fault"] = f
        elif x < 0.6:
            op["fault"] = stall(r)
        if r.random() < 0.2:
            op["cpu"] = r.choice((1, 2, 3, 6, 9, 32))
        ops.append(op)
    env = {k: r.choice((None, None, "2", "7")) for k in NUMBERS}
    return {"cpu": cpu, "iso": r.random() < 0.03, "objs": objs_, "ops": ops, "env": env,
            "own": {"err": {k: r.choice(("warn", "ignore"))
                            for k in ("divide", "over", "under", "invalid")},
                    "precision": r.choice((8, 4)), "limit": r.choice((1000, 4000)),
                    "gc": r.random() < 0.8, "decimal": r.choice((28, 12))}}


def make_dist(inst):
    M = objs.make_matrix(inst["mat"])
    cfg = objs.make_config(M, list(inst["input"]), inst["m"], eta=inst["eta"])
    return objs.mod(objs.D + "bs_exact_distribution_with_uniform_losses"
                    ).BSDistributionCalculatorWithUniformLosses(
        cfg, objs.make_pc(inst["pc"], M))


def run(run, spec):
    wd = run.wd
    wd.watch_settings = True
    built_with = {}
    before = seams.settings(np)
    try:
        for k, v in spec.get("env", {}).items():
            os.environ.pop(k, None)
            if v is not None:
                os.environ[k] = v
        own = spec.get("own")
        if own:
            np.seterr(**own["err"])
            np.set_printoptions(precision=own["precision"])
            sys.setrecursionlimit(max(own["limit"], sys.getrecursionlimit()))
            decimal.getcontext().prec = own["decimal"]
            (gc.enable if own["gc"] else gc.disable)()
        base = seams.settings(np)
        for op in spec["ops"]:
            inst = spec["objs"][op["obj"]]
            if inst["kind"] == "udist":
                if op["obj"] not in run.objs:
                    run.objs[op["obj"]] = run.op(
                        {"op": "build", "sid": -1 - op["obj"]}, lambda: make_dist(inst))[1]
                    same_settings(base, "constructing a distribution calculator")
            elif op["obj"] not in run.objs:
                build(run, op["obj"])
                same_settings(base, f"constructing a {inst['kind']} sampler")
            built_with.setdefault(op["obj"], wd.cpu)
            if inst["kind"] == "udist":
                call = call_dist(run, op, inst)
                run.kind("udist")
            else:
                def call():
                    return do_sim(run, op)
            fired = dict(wd.fired)
            st, v = call()
            what = f"{inst['kind']} {op['op']}"
            waiting = wd.fired.get("interrupt_wait", 0) > fired.get("interrupt_wait", 0)
            judge(run, op, inst, st, what, waiting, built_with[op["obj"]])
            same_settings(base, what)
    finally:
        seams.restore_settings(np, before)


def call_dist(run, op, inst):
    calc = run.objs[op["obj"]]
    if op["op"] == "distribution":
        return lambda: run.op(op, calc.calculate_distribution)
    import random
    rr = random.Random(op["pick"])
    allo = ref.lossy_states(sum(inst["input"]), inst["m"])
    outs = [rr.choice(allo) for _ in range(op["count"])]
    return lambda: run.op(op, lambda: calc.calculate_probabilities_of_outcomes(outs))


def judge(run, op, inst, st, what, waiting, cpu_built):
    wd = run.wd
    top = wd.cpu if inst["kind"] == "udist" else threads_of(inst, cpu_built)
    if inst["kind"] in ("udist",) + g.POOLED and wd.peak_busy > top:
        raise Violation("workers", f"{what}: {wd.peak_busy} workers at work at once, "
                        f"at most {top} allowed")
    for core in wd.pools:
        run.stats["nontrivial"] = True
        wd.probe("pool_" + str(core.ended).replace(" ", "_"))
        if core.ended is None:
            raise Violation("left_behind", f"{what} {'returned' if st == 'ok' else 'raised'} "
                            "and left its worker pool running")
        if core.left() and not waiting:
            raise Violation("left_behind", f"{what} {'returned' if st == 'ok' else 'raised'} "
                            f"while {core.left()} tasks of its workers were not finished")


def same_settings(base, what):
    now = seams.settings(np)
    for k, v in base.items():
        if now[k] != v:
            raise Violation("settings", f"{what} changed the process's {k}: "
                            f"{v!r} -> {now[k]!r}"[:300])
