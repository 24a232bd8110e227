"""C01: exactly the requested number of well-formed samples."""
from .common import *
from .. import gen

RUNS = {"quick": 12000, "thorough": 240000}
RULE = ("A run builds one or two samplers (any kind, any calculator, direct or through "
        "the factory), simulates 1-4 calls with varying input, container, sample "
        "number, thread number, CPU count, module isolation and pool schedule, with "
        "stalled workers; non-trivial: at least one call asked for a sample.")


MODES = {"BOBS": 4, "LNET": 5, "ULBOBS": 6}


def gen_N(r, inst, cpu):
    T = threads_of(inst, cpu)
    N = r.choice((0, 1, 2, 3, T - 1, T, T + 1, 2 * T, 2 * T + 1, 3 * T - 1,
                  r.randrange(0, 25), r.randrange(0, 60), 7, 13))
    return max(0, N)


def gen(r, tier, i):
    from .. import gen as g
    cpu = r.choice((1, 2, 3, 4, 5, 7, 8, 12, 16, 16, 64))
    kinds = ALL + ("BOBS", "ULBOBS", "BOBS", "ULBOBS")
    objs_, ops = [], []
    if r.random() < 0.015:
        # One big call of a small experiment.
        kind = r.choice(ALL)
        m, n = r.choice(((1, 1), (2, 1), (2, 1), (2, 2), (2, 0)))
        inst = g.gen_inst(r, kind, m, n)
        N = r.choice((300, 513, 1000, 1001, 1025, 2049, 3000))
        if kind in g.POOLED:
            N = min(N, 1100)
        return {"cpu": cpu, "iso": False, "objs": [inst],
                "ops": [sim_op(r, 0, inst, N, n)]}
    for j in range(r.choice((1, 1, 2))):
        kind = r.choice(kinds)
        m = r.randrange(1, MODES.get(kind, 7) + 1)
        n = min(small_n(r, kind), m)
        if kind not in ("BOBS", "LNET") and r.random() < 0.03:
            m, n = r.randrange(8, 17), r.randrange(0, 4)
        objs_.append(g.gen_inst(r, kind, m, n))
    now = [dict(d) for d in objs_]
    for _ in range(g.steps(r, (1, 2, 3, 4))):
        j = r.randrange(len(objs_))
        inst = now[j]
        N = gen_N(r, inst, cpu)
        if inst["kind"] in g.POOLED and r.random() < 0.02:
            N = r.choice((100, 128, 257))
        if inst["kind"] in ("GCC", "FIXED", "ULGCC", "UNIF") and r.random() < 0.1:
            N = r.choice((500, 1000, 1024, 2000))
        n = None
        if inst["m"] <= 2 and inst["pc"] in ("RYSER", "CHIN_HUH") and r.random() < 0.1:
            n = r.randrange(9, 14)
        if inst["m"] > 7:
            N, n = min(N, 20), r.randrange(0, 3)
        op = sim_op(r, j, inst, N, n)
        if inst["kind"] in g.POOLED:
            if r.random() < 0.3:
                op["fault"] = stall(r)
            if r.random() < 0.2:
                op["cpu"] = r.choice((1, 2, 3, 6, 9, 32))
        ops.append(op)
        if inst["kind"] in SETM and r.random() < 0.2:
            ops.append(gen_setm(r, j, inst, MODES.get(inst["kind"], 7)))
    return {"cpu": cpu, "iso": r.random() < 0.06, "objs": objs_, "ops": ops}


def run(run, spec):
    for op in spec["ops"]:
        if op["op"] == "setm":
            do_setm(run, op)
            continue
        st, v = do_sim(run, op)
        if op["n"]:
            run.stats["nontrivial"] = True
