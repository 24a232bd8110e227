"""C07: operations are all-or-nothing under faults, and the next one is clean."""
from .common import *
from .. import gen as g

RUNS = {"quick": 8000, "thorough": 160000}
RULE = ("A run builds one sampler and performs calls of which some meet a fault: pool "
        "start failure, a worker raising (MemoryError, OSError) at a random line, a "
        "worker dying before, inside or after its task, an interrupt or allocation "
        "failure at a random line of the caller or while it waits for its workers, "
        "stalls; after every fault the call must "
        "have raised or returned a complete valid result, and later fault-free calls on "
        "the same object must be valid: exact outcome for deterministic "
        "experiments, sequential test (e-value 1e12) otherwise; what calls that lost a worker "
        "return is tested for samples that repeat others. Non-trivial: a fault "
        "that fired, followed by a judged call.")


def gen_salvage(r):
    """Calls of a pooled sampler with many possible outcomes that lose some workers."""
    kind = r.choice(g.POOLED)
    m = 3 if kind == "BOBS" else 4
    inst = g.gen_inst(r, kind, m, 3, types=("haar",))
    inst["mat"] = g.gen_matrix(r, m, ("haar",))
    inst["k"] = r.choice((m, m, 0, 1))
    if "eta" in inst:
        inst["eta"] = r.choice((1.0, 0.8))
    inst["threads"] = r.choice((-1, 2, 3, 4))
    cpu = r.choice((2, 3, 4))
    base = sim_op(r, 0, inst, 0, 3, "spread")
    ops = []
    for _ in range(8):
        op = dict(base, n=r.choice((12, 20, 31, 40)), sid=r.randrange(10 ** 6), salvage=True)
        k = r.choice(("task_raise", "task_raise", "worker_crash"))
        op["fault"] = {"kind": k, "task": r.randrange(0, 4),
                       "line": r.choice((1, 50, int(10 ** r.uniform(0, 3.3))))}
        if k == "task_raise":
            op["fault"]["exc"] = r.choice(("MemoryError", "OSError", "RuntimeError"))
        ops.append(op)
    return {"cpu": cpu, "iso": False, "objs": [inst], "ops": ops}


def run_salvage(run, spec):
    """Whatever these calls return has to be fresh samples."""
    eps = None
    for op in spec["ops"]:
        st, v = do_sim(run, op)
        o = run.objs[0]
        if st != "ok":
            run.wd.probe("fault_then_raised")
            continue
        run.wd.probe("salvage_returned")
        run.stats["nontrivial"] = True
        check_particles(o, op, v)
        if eps is None:
            law = objs.law(o["inst"], op["input"], o["mat"])
            eps = [stats.EProcess(law), stats.EProcess(law)]
        T = threads_of(o["inst"], run.wd.cpu)
        N = len(v)
        refs = chunk_refs(v, T)
        for j in range(1, T):
            for lag in {j * (N // T), j * -(-N // T)}:
                if lag:
                    refs[f"lag {j} {lag - j * (N // T)}"] = \
                        lambda i, lag=lag: v[i - lag] if i >= lag else None
        for ep, starts in zip(eps, ((0,), share_starts(N, T))):
            msg = ep.feed(v, refs, starts)
            run.stats["max_log_e"] = max(run.stats["max_log_e"], ep.max_log)
            if msg:
                raise Violation("salvaged", f"{o['inst']['kind']} input {op['input']}: calls "
                                f"that lost a worker returned: {msg}")


def gen(r, tier, i):
    if r.random() < 0.04:
        return gen_salvage(r)
    cpu = r.choice((1, 2, 3, 4, 8))
    kind = r.choice(ALL + ("BOBS", "ULBOBS", "BOBS", "ULBOBS"))
    det = kind not in ("FIXED", "UNIF") and r.random() < 0.75
    mmax = {"BOBS": 3, "LNET": 3, "ULBOBS": 4}.get(kind, 5 if det else 4)
    m = r.randrange(1 if det else 2, mmax + 1)
    n = r.randrange(0, 4)
    if kind in ("FIXED", "UNIF"):
        n = max(1, min(n, m))
    inst = g.gen_inst(r, kind, m, n)
    if det:
        inst["mat"] = g.gen_matrix(r, m, ("perm", "identity"))
        if "eta" in inst:
            inst["eta"] = 1.0
        if "k" in inst:
            inst["k"] = m
    ops = []
    built, inst = inst, dict(inst)
    pooled = kind in g.POOLED
    nf = r.choice((1, 1, 2, 3))
    for _ in range(nf):
        if r.random() < 0.3:
            ops.append(sim_op(r, 0, inst, r.randrange(1, 12)))
        if kind in SETM and r.random() < 0.25:
            types = ("perm", "identity") if det else None
            op = gen_setm(r, 0, inst, mmax, 0.25, types, kind == "LNET" and not det)
            if r.random() < 0.4:
                op["fault"] = {"kind": "interrupt", "line": r.randrange(1, 25),
                               "exc": "KeyboardInterrupt"}
            ops.append(op)
        op = sim_op(r, 0, inst, r.randrange(1, 20))
        op["fault"] = gen_fault(r, pooled)
        ops.append(op)
    N = r.randrange(1, 12) if det else {"GCC": 1500, "MA": 1500, "ULGCC": 1500,
                                        "FIXED": 1500, "UNIF": 800}.get(kind, 400)
    style = None
    if ops[-1]["op"] == "sim" and r.random() < 0.5 and kind not in ("FIXED", "UNIF"):
        op = sim_op(r, 0, inst, N, judge=True)
        op["input"] = list(ops[-1]["input"])
        assert len(op["input"]) == inst["m"]
        ops.append(op)
    else:
        ops.append(sim_op(r, 0, inst, N, judge=True))
    if r.random() < 0.5:
        ops.append(sim_op(r, 0, inst, r.randrange(1, 12), judge=True))
    return {"cpu": cpu, "iso": r.random() < 0.05, "objs": [built], "ops": ops}


HARMLESS = ("stall", "cpu_count_change", "extreme_draw", "stuck_draws")


def run(run, spec):
    if all(op.get("salvage") for op in spec["ops"]):
        return run_salvage(run, spec)
    faulted = False
    for op in spec["ops"]:
        before = sum(v for k, v in run.wd.fired.items() if k not in HARMLESS)
        if op["op"] == "setm":
            o = build(run, 0)
            st = do_setm(run, op)
            if st == "exc":
                # All or nothing: the caller sets it again.
                again = {k: v for k, v in op.items() if k != "fault"}
                do_setm(run, again)
        else:
            st, v = do_sim(run, op)
            o = run.objs[0]
            if st == "ok":
                check_particles(o, op, v)
                only = deterministic_outcome(o["inst"], op["input"], o["mat"])
                if only is not None:
                    for t in v:
                        if t != only:
                            raise Violation(
                                "after_fault" if faulted else "wrong_outcome",
                                f"{o['inst']['kind']} input {op['input']}: sample {t}, "
                                f"only {only} is possible")
                elif op.get("judge") and op["n"] > 50:
                    check_law(run, o, op, v, more=more_of(run, op))
                if faulted and op.get("judge"):
                    run.stats["nontrivial"] = True
        if sum(v for k, v in run.wd.fired.items() if k not in HARMLESS) > before:
            faulted = True
            run.wd.probe("fault_then_raised" if st == "exc" else "fault_then_result")
