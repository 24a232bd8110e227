"""Shared by C03, C04, C05: distribution tests over histories."""
from .common import *
from .. import gen as g


def gen_law(r, kinds, sizes, budget, full=False, approx=False):
    """budget: kind -> number of samples of the judged call."""
    cpu = r.choice((1, 2, 3, 4, 8))
    kind = r.choice(kinds)
    mmax, nmax = sizes.get(kind, (4, 4))
    m = r.randrange(1, mmax + 1) if r.random() < 0.25 else r.randrange(2, mmax + 1)
    n = r.randrange(1, nmax + 1)
    heavy = kind in g.EXACT and r.random() < 0.08
    if heavy:
        m, n = r.randrange(2, 4), r.randrange(4, 7)
    if kind in ("BOBS", "ULBOBS") and r.random() < 0.12:
        m, n = (4, r.randrange(1, 4)) if kind == "BOBS" else (r.randrange(4, 6), r.randrange(1, 4))
    if kind in ("BOBS", "ULBOBS", "LNET") and r.random() < 0.03:
        m, n = r.randrange(5, 8), r.randrange(1, 3)
    crowd = kind in g.EXACT and r.random() < 0.04
    if crowd:
        m, n = r.choice((1, 2, 2, 2)), r.randrange(10, 14)
    wide = kind in g.EXACT + ("FIXED", "UNIF") and not crowd and r.random() < 0.03
    if wide:
        m, n = r.randrange(9, 15), r.randrange(1, 3)
        if kind == "FIXED":
            n = r.randrange(1, m + 1)
    if kind in ("FIXED", "UNIF"):
        n = min(n, m)
    inst = g.gen_inst(r, kind, m, n)
    if crowd:
        inst["pc"] = r.choice(("RYSER", "CHIN_HUH"))
        if inst["pc"] == "CHIN_HUH" and kind != "MA" and r.random() < 0.5:
            n = r.randrange(12, 24)
    if wide and kind == "FIXED":
        inst["left"] = r.randrange(1, min(n, 2) + 1)
    if full:
        inst["k"] = m
    elif approx and kind in ("BOBS", "ULBOBS") and r.random() < 0.8:
        inst["k"] = r.randrange(0, m)
    ops = []
    N = budget[kind]

    def other_sim(N):
        op = sim_op(r, 0, inst, N, r.randrange(0, nmax + 1))
        if kind in g.POOLED and r.random() < 0.2:
            op["fault"] = stall(r)
        elif r.random() < 0.2:
            op["fault"] = gen_fault(r, kind in g.POOLED)
        return op

    def setm(mm=m):
        mat = g.gen_matrix(r, mm, lossy=kind == "LNET" and r.random() < .8)
        if inst["m"] == mm and r.random() < 0.4:
            # Close to the object's matrix, or a rearrangement of it.
            if r.random() < 0.4 and kind != "LNET" and not ops:
                inst["mat"] = g.gen_matrix(r, mm, ("dft",) if mm == 4 else
                                           ("perm", "identity", "block"))
            mat = g.related_matrix(r, inst["mat"])
            if r.random() < 0.5 and not ops:
                inst["mat"], mat = mat, inst["mat"]
        return {"op": "setm", "obj": 0, "sid": r.randrange(10 ** 6), "mat": mat,
                "mat_as": g.gen_mat_as(r)}
    resized = False
    h = r.random()
    if h < 0.15 and kind in SETM:
        # A smaller or a bigger experiment on the same object.
        resized = True
        big = dict(inst, m=r.randrange(1, mmax + 1))
        inst["mat"] = g.gen_matrix(r, big["m"], lossy=kind == "LNET" and r.random() < .8)
        inst["m"] = big["m"]
        for N0 in r.choice(((1,), (20,), (0, 5))):
            ops.append(sim_op(r, 0, big, N0, r.randrange(0, nmax + 1)))
        ops.append(setm())
    elif h < (0.35 if kind in SETM else 0.55):
        ops.append(other_sim(r.choice((1, 3, 40))))
    elif h < 0.6 and kind in SETM:
        if r.random() < 0.7:
            ops.append(other_sim(r.choice((1, 10, 60))))
        ops.append(setm())
    elif h < 0.7 and kind in SETM:
        ops += [setm(), other_sim(20), setm()]
    style = r.choice(("std", "spread", "bunched", "any", "one_mode"))
    if heavy:
        style = r.choice(("bunched", "one_mode"))
        N //= 3
    if crowd:
        style = r.choice(("bunched", "any"))
        N //= 4
    if wide:
        N //= 4
    now = dict(inst, m=m)
    main = sim_op(r, 0, now, N, n, style, judge=True)
    if kind in g.POOLED and r.random() < 0.15:
        main["fault"] = stall(r)
    if ops and ops[0]["op"] == "sim" and r.random() < 0.7 and not resized:
        # The same or a similar input, e.g. before set_new_matrix
        ops[0]["input"] = related_input(r, inst, main["input"])
    ops.append(main)
    if r.random() < 0.2:
        ops.append(sim_op(r, 0, now, N // 2, n, None, judge=True))
    return {"cpu": cpu, "iso": r.random() < 0.04, "objs": [inst], "ops": ops}


def run_law(run, spec):
    prev = None
    for op in spec["ops"]:
        if op["op"] == "setm":
            do_setm(run, op)
            prev = None
            continue
        st, v = do_sim(run, op)
        o = run.objs[op["obj"]]
        if op.get("judge"):
            check_law(run, o, op, v, more=more_of(run, op))
        prev = v
