"""C06: samples are independent across workers, calls, objects and restarts."""
from .. import seams
from .common import *
from .. import gen as g

RUNS = {"quick": 4000, "thorough": 80000}
RULE = ("A run makes 2-3 calls of the same experiment: on one object, on two objects, "
        "or in a restarted process (whose process ids may repeat), with several workers, "
        "CPU counts and schedules; "
        "the concatenated history is tested sequentially against independence: bets "
        "that a sample repeats the neighbour, the same place in another worker's "
        "share, or the same place in an earlier call (alarm at e-value 1e12). "
        "Non-trivial: more than one possible outcome and at least two shares.")


def gen(r, tier, i):
    cpu = r.choice((1, 2, 3, 4, 8, 12))
    kind = r.choice(("BOBS", "ULBOBS", "BOBS", "ULBOBS") + ALL)
    m = r.randrange(3, 5) if kind != "BOBS" else 3
    n = r.choice((2, 3))
    frozen = kind in g.POOLED and r.random() < 0.3
    inst = g.gen_inst(r, kind, m, n, types=("identity", "perm", "block") if frozen else
                      ("haar", "haar", "dft", "real"))
    if "eta" in inst:
        inst["eta"] = round(r.uniform(0.5, 1.0), 3)
    if kind == "FIXED":
        inst["left"] = n
    if "threads" in inst:
        inst["threads"] = r.choice((-1, 2, 3, 4, 8))
        if inst["via"] == "factory" and kind == "BOBS":
            inst["threads"] = -1
    if frozen:
        # Whatever is drawn at random for a sample (phases, permutations) shows.
        inst["k"] = r.randrange(1, m)
        inst["threads"] = r.choice((2, 3, 4, -1) if inst["threads"] != -1 else (-1,))
        n = r.choice((1, 2, 2, 3))
    base = sim_op(r, 0, inst, 0, n, "spread")
    T = threads_of(inst, cpu)
    per = r.choice((20, 40, 60))
    N = per * T if kind in g.POOLED else r.choice((100, 200))
    N = min(N, 320) + r.choice((0, 0, 1, 3))
    if frozen:
        N = r.choice((160, 320))
    ops = []
    for c in range(r.choice((2, 2, 3))):
        op = dict(base, n=N, sid=r.randrange(10 ** 6))
        op["obj"] = r.choice((0, 0, c))
        if kind in g.POOLED and r.random() < 0.2:
            op["fault"] = stall(r)
        op["where"] = r.choice(("same", "same", "restart")) if c else "same"
        ops.append(op)
    return {"cpu": cpu, "pids": r.choice(("any", "again")), "iso": r.random() < 0.35, "fresh": r.random() < 0.1,
            "objs": [inst] * 3, "ops": ops}


def run(run, spec):
    prev = None
    ep = None
    wd = run.wd
    if spec.get("pids") == "again":
        wd.pid_step = 1
    for op in spec["ops"]:
        if op["where"] == "restart":
            # Another run of the user's program: fresh process, fresh modules.
            wd.fire("process_restart")
            if spec.get("pids") == "again":
                # E.g. in a container: the same process ids again.
                wd.next_pid = wd.first_pid
            proc = wd.new_proc("MainProcess", "restart", main=True)
            saved, run.objs = run.objs, {}
            with wd.enter(proc):
                st, v = do_sim(run, op)
            run.objs = saved
            build(run, op["obj"])
        else:
            st, v = do_sim(run, op)
        o = run.objs[op["obj"]]
        if ep is None:
            law = objs.law(o["inst"], op["input"], o["mat"])
            ep = stats.EProcess(law)
        T = threads_of(o["inst"], wd.cpu)
        if ep.nontrivial and (T > 1 or prev is not None):
            run.stats["nontrivial"] = True
        msg = ep.feed(v, chunk_refs(v, T, prev), share_starts(len(v), T))
        run.stats["max_log_e"] = max(run.stats["max_log_e"], ep.max_log)
        if msg:
            raise Violation("dependence", f"{o['inst']['kind']} input {op['input']}, call "
                            f"of {op['n']} samples, {T} shares, {op['where']}: {msg}")
        prev = v
