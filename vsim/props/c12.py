"""C12: distributions up to an accuracy: progress and exactness."""
from .common import *
from .. import gen as g

RUNS = {"quick": 24000, "thorough": 480000}
RULE = ("A run builds the uniformly lossy sampler and performs a history of simulations "
        "and of (unweighted) distributions up to an accuracy, with random streams from "
        "the seed (or streams that repeat one value up to 200,000 times before), some interrupted at a random line and repeated; each must finish "
        "within 2,000,000 random draws (experiments whose rarest partial outcome has "
        "probability below 1e-4 are skipped), every entry must be the exact probability or "
        "not yet computed (0), and the total must reach the accuracy. Non-trivial: a "
        "finished distribution with more than one entry.")


def gen(r, tier, i):
    m = r.randrange(1, 4)
    crowd = r.random() < 0.02
    if crowd:
        m = r.choice((1, 1, 6, 8, 11))
    inst = g.gen_inst(r, "ULGCC", m, 2)
    inst["eta"] = r.choice((1.0, 1.0, 0.5, round(r.uniform(0.3, 1.0), 3)))
    ops = []
    built, inst = inst, dict(inst)
    for _ in range(g.steps(r, (1, 2, 3), 0.02)):
        x = r.random()
        n = r.randrange(0, 4)
        if crowd:
            n = r.randrange(4, 13) if m == 1 else 1
            if m == 1 and inst["pc"] in ("CLASSIC", "GLYNN"):
                n = min(n, 7)
        if x < 0.2:
            ops.append(sim_op(r, 0, inst, r.choice((1, 5, 30)), n))
            continue
        if x < 0.3:
            ops.append(gen_setm(r, 0, inst, 3))
            m, crowd = inst["m"], False
            continue
        un = r.random() < 0.4
        op = {"op": "unweighted" if un else "weighted", "obj": 0,
              "input": g.gen_input(r, m, max(n, 1) if un else n), "itype": itype(r),
              "acc": r.choice((1.0, 1.0, 0.9, 0.5, round(r.random(), 3))),
              "sid": r.randrange(10 ** 6), "draws": 2_000_000}
        if r.random() < 0.012:
            op["stuck"] = [r.choice((10 ** 3, 10 ** 4, 5 * 10 ** 4, 2 * 10 ** 5)),
                           round(r.uniform(0.01, 0.99), 3)]
        elif r.random() < 0.3:
            f = dict(op, fault={"kind": "interrupt", "line": int(10 ** r.uniform(0, 3.3)),
                                "exc": r.choice(("KeyboardInterrupt", "MemoryError"))})
            ops.append(f)
        ops.append(op)
    return {"cpu": 4, "iso": False, "objs": [built], "ops": ops}


def run(run, spec):
    for op in spec["ops"]:
        if op["op"] == "setm":
            do_setm(run, op)
            continue
        if op["op"] == "sim":
            st, v = do_sim(run, op)
            check_particles(run.objs[0], op, v)
            continue
        o = build(run, 0)
        if len(op["input"]) != len(o["mat"]):
            raise seams.GaveUp("not an experiment")  # only while minimising
        if rarest(o["mat"], op["input"], o["inst"]["eta"]) < 1e-4:
            # Needs an outcome too rare for the bound on the draws.
            run.wd.probe("too_rare_to_judge")
            continue
        s = objs.conv(op["input"], op["itype"])
        fn = (o["s"].compute_unweighted_distribution_up_to_accuracy
              if op["op"] == "unweighted" else o["s"].compute_distribution_up_to_accuracy)
        st, v = run.op(op, lambda: list(fn(s, op["acc"])))
        run.kind(op["op"])
        if st == "exc":
            run.wd.probe("interrupted")
            continue
        inp, n, m = op["input"], sum(op["input"]), len(op["input"])
        order = ref.lossy_states(n, m)
        eta = o["inst"]["eta"]
        law = ref.uniform_losses(o["mat"], inp, eta)
        if op["op"] == "unweighted":
            want = unweighted(o["mat"], inp, order)
            total = sum(float(x) for x in v) / n
        else:
            want = [law.get(t, 0.0) for t in order]
            total = sum(float(x) for x in v)
        if len(v) != len(want):
            raise Violation("accuracy", f"{len(v)} entries, expected {len(want)}")
        for t, a, b in zip(order, v, want):
            if not (abs(a - b) < 1e-8 or a == 0):
                raise Violation("accuracy", f"{op['op']} probability of {t} is {a}, exact "
                                f"value {b}, for input {inp}")
        if total < op["acc"] - 1e-6:
            raise Violation("accuracy", f"total {total} below the accuracy {op['acc']}")
        run.digest([round(float(x), 8) for x in v])
        if len(v) > 1:
            run.stats["nontrivial"] = True


def rarest(A, s, eta):
    """Lower bound on the probability, per sample, of meeting any partial outcome."""
    n = sum(s)
    p = [x for x in unweighted(A, s, ref.lossy_states(n, len(s))) if x > 1e-12]
    return min(p, default=1.0) * eta ** n


def unweighted(A, s, order):
    """Probabilities given the number of particles left (vacuum: 0 by definition)."""
    eta = 0.5
    n = sum(s)
    from math import comb
    law = ref.uniform_losses(A, s, eta)
    out = []
    for t in order:
        l = sum(t)
        w = comb(n, l) * eta ** l * (1 - eta) ** (n - l)
        out.append(0.0 if l == 0 else law.get(t, 0.0) / w)
    return out
