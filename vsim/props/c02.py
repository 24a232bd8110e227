"""C02: the particle-number law of every sampler, in every call of a history."""
from .common import *
from .. import gen as g
from math import comb

RUNS = {"quick": 2000, "thorough": 40000}
RULE = ("A run builds one or two samplers and simulates 1-4 calls on them, with "
        "different inputs (vacuum, bunched, standard), matrices exchanged between calls, "
        "different CPU counts, schedules, stalls and module isolation; every sample's "
        "particle number is checked against its bounds, and where the law is "
        "binomial the numbers are tested sequentially (e-value 1e12). Non-trivial: a "
        "call with at least one particle and one sample.")


def gen(r, tier, i):
    cpu = r.choice((1, 2, 3, 4, 6, 8))
    objs_, ops = [], []
    for j in range(r.choice((1, 1, 1, 2))):
        kind = r.choice(ALL + ("ULGCC", "ULGCCB", "UNIF", "ULBOBS", "BOBS"))
        m = r.randrange(1, {"BOBS": 4, "LNET": 4, "ULBOBS": 5}.get(kind, 7) + 1)
        n = min(small_n(r, kind), m)
        objs_.append(g.gen_inst(r, kind, m, n))
    now = [dict(d) for d in objs_]
    steps = g.steps(r, (1, 2, 2, 3, 4))
    for _ in range(steps):
        j = r.randrange(len(objs_))
        inst = now[j]
        kind = inst["kind"]
        big = {"ULGCC": 1500, "UNIF": 700, "ULGCCB": 300, "ULBOBS": 250, "BOBS": 120,
               "LNET": 120}.get(kind, 100)
        N = r.choice((1, 5, 30, big, big, big) if steps < 10 else (1, 2, 5, 9, 30))
        n = r.randrange(0, 8) if kind in ("GCC", "ULGCC", "MA") and r.random() < 0.2 else None
        if inst["m"] <= (2 if kind in ("BOBS", "LNET") else 3) and r.random() < 0.3:
            # Many particles.
            n = r.randrange(5, 7 if kind in ("BOBS", "LNET") or inst["pc"] == "CLASSIC" else 9)
            if inst["pc"] in ("RYSER", "CHIN_HUH") and inst["m"] < 3 and r.random() < 0.3 \
                    and kind not in ("BOBS", "LNET"):
                n = r.randrange(10, 14)
            N = min(N, 100 if kind == "MA" else 250)
        op = sim_op(r, j, inst, N, n)
        if kind in g.POOLED:
            if r.random() < 0.2:
                op["fault"] = stall(r)
            if r.random() < 0.15:
                op["cpu"] = r.choice((1, 2, 5, 9))
        ops.append(op)
        if kind in SETM and r.random() < 0.25:
            ops.append(gen_setm(r, j, inst, 4 if kind == "LNET" else 6,
                                lossy=kind == "LNET" and r.random() < .5))
    return {"cpu": cpu, "iso": r.random() < 0.05, "objs": objs_, "ops": ops}


def number_law(o, op):
    """Law of the particle number when it is binomial, else None."""
    inst = o["inst"]
    kind, n = inst["kind"], sum(op["input"])
    A = o["mat"]
    unit = is_unitary(A)
    eta = None
    if kind in ("ULGCC", "ULGCCB", "ULBOBS") or (kind == "UNIF" and unit):
        eta = inst["eta"]
    else:
        G = A.conj().T @ A
        c = G[0, 0].real
        if not unit and np.allclose(G, c * np.eye(len(G)), atol=1e-12):
            if kind in ("LNET", "BOBS"):
                eta = c
            if kind == "FIXED":
                eta, n = c, inst["left"]
            if kind == "UNIF":
                eta = c * inst["eta"]
    if eta is None:
        return None
    return {(l,): comb(n, l) * eta ** l * (1 - eta) ** (n - l) for l in range(n + 1)}


def run(run, spec):
    for op in spec["ops"]:
        if op["op"] == "setm":
            do_setm(run, op)
            continue
        st, v = do_sim(run, op)
        o = run.objs[op["obj"]]
        if sum(op["input"]) and op["n"]:
            run.stats["nontrivial"] = True
        check_particles(o, op, v)
        law = number_law(o, op)
        if law is not None and len(v) > 20:
            def more():
                e = more_of(run, op)()
                return e and [(sum(t),) for t in e]
            check_law(run, o, op, [(sum(t),) for t in v], law=law, more=more,
                      cls="number_law", features=False)
