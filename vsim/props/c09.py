"""C09: exact distributions, whatever the schedule, CPU count or earlier failures."""
import copy

from .common import *
from .. import gen as g

RUNS = {"quick": 24000, "thorough": 480000}
RULE = ("A run builds an exact distribution calculator (uniform losses: parallel; fixed "
        "losses: serial) and asks for the whole distribution or for outcome lists "
        "in arbitrary order with repetitions, under different CPU counts, worker "
        "schedules, stalls and faults (pool start failure, failing or dying workers, "
        "interrupts), "
        "toggling weightlessness, the caller using its permanent calculator in between; every returned list is compared value by value with "
        "the reference, in order. Non-trivial: a compared list with at least two "
        "different values.")


def gen(r, tier, i):
    m = r.randrange(1, 5)
    n = r.randrange(0, 4)
    if r.random() < 0.08:
        m, n = r.randrange(1, 4), r.randrange(4, 7)
    pc = r.choice(g.CALCS)
    x = r.random()
    if x < 0.01:  # two-digit occupations
        m, n, pc = r.choice((1, 2, 2)), r.randrange(10, 13), r.choice(("RYSER", "CHIN_HUH"))
    elif x < 0.025:  # two-digit modes
        m, n = r.randrange(8, 13), r.randrange(1, 3)
    kind = r.choice(("uniform", "uniform", "uniform", "fixed"))
    inst = {"kind": kind, "m": m, "mat": g.gen_matrix(r, m), "pc": pc,
            "mat_as": g.gen_mat_as(r), "input": g.gen_input(r, m, n, "bunched" if n > 3 else None),
            "itype": itype(r), "eta": g.gen_eta(r), "left": r.randrange(0, n + 1)}
    ops = []
    for _ in range(g.steps(r, (1, 2, 3, 4))):
        x = r.random()
        sid = r.randrange(10 ** 6)
        if x < 0.2 and kind == "uniform":
            ops.append({"op": "weightless", "value": r.random() < 0.6, "sid": sid})
            continue
        if x < 0.3:
            # The caller changes its own copy of the configuration afterwards.
            ops.append({"op": "caller_edit", "sid": sid})
        elif x < 0.4:
            # ... or uses the permanent calculator for something else.
            mm = r.choice((m, m, r.randrange(1, 4)))
            ops.append({"op": "caller_pc", "sid": sid, "mat": g.gen_matrix(r, mm),
                        "s": g.gen_input(r, mm, 2), "t": g.gen_input(r, mm, 2)})
        if r.random() < 0.5:
            op = {"op": "distribution", "sid": sid}
        else:
            op = {"op": "outcomes", "sid": sid, "pick": r.randrange(10 ** 6),
                  "count": r.choice((0, 1, 2, 3, 5, 9, 17, 40)), "otype": itype(r)}
            if r.random() < 0.06:
                op["count"] = r.choice((150, 300, 700))
        if r.random() < 0.3:
            op["cpu"] = r.choice((1, 2, 3, 8, 32, 96))
        y = r.random()
        if y < 0.3:
            op["fault"] = gen_fault(r, kind == "uniform")
        elif y < 0.45:
            op["fault"] = stall(r)
        ops.append(op)
    return {"cpu": r.choice((1, 2, 3, 4, 7, 8, 16)), "iso": r.random() < 0.02,
            "objs": [inst], "ops": ops}


def exact(inst, weightless):
    """(outcomes in order, outcome -> value)"""
    s, m, n = inst["input"], inst["m"], sum(inst["input"])
    U = g.matrix(inst["mat"])
    net = ref.Net(U)
    from math import comb

    def fixed_law(l):
        pairs = []
        for sub in __import__("itertools").product(*[range(x + 1) for x in s]):
            if sum(sub) != l:
                continue
            w = 1.0
            for a, b in zip(s, sub):
                w *= comb(a, b)
            pairs.append((w / comb(n, l), net.law(sub)))
        return ref.mix(pairs)
    if inst["kind"] == "fixed":
        l = inst["left"]
        law = fixed_law(l)
        order = ref.states(l, m)
        return order, {t: law.get(t, 0.0) for t in order}
    order = ref.lossy_states(n, m)
    eta = inst["eta"]
    vals = {}
    for l in range(n + 1):
        law = fixed_law(l)
        w = 1.0 if weightless else comb(n, l) * eta ** l * (1 - eta) ** (n - l)
        for t in ref.states(l, m):
            vals[t] = w * law.get(t, 0.0)
    return order, vals


def run(run, spec):
    inst = spec["objs"][0]
    weightless = False
    M = objs.make_matrix(inst["mat"], inst["mat_as"])
    s = objs.conv(inst["input"], inst["itype"])
    cfg = objs.make_config(M, s, inst["m"], inst["left"], inst["eta"])
    if inst["kind"] == "uniform":
        cfg.number_of_particles_left = sum(inst["input"])
        cfg.number_of_particles_lost = 0
    run.kind(inst["kind"])

    pc = objs.make_pc(inst["pc"], M, list(inst["input"]), list(inst["input"]))

    def make():
        if inst["kind"] == "fixed":
            return objs.mod(objs.D + "bs_distribution_calculator_with_fixed_losses"
                            ).BSDistributionCalculatorWithFixedLosses(cfg, pc)
        return objs.mod(objs.D + "bs_exact_distribution_with_uniform_losses"
                        ).BSDistributionCalculatorWithUniformLosses(cfg, pc)
    st, calc = run.op({"op": "build", "sid": -1}, make)
    import random
    tables = {}

    def table():
        if weightless not in tables:
            tables[weightless] = exact(inst, weightless)
        return tables[weightless]
    for op in spec["ops"]:
        if op["op"] == "weightless":
            run.op(op, lambda: calc.set_weightless(op["value"]))
            weightless = op["value"]
            continue
        if op["op"] == "caller_pc":
            pc.matrix, pc.input_state, pc.output_state = g.matrix(op["mat"]), op["s"], op["t"]
            run.op(op, pc.compute_permanent)
            continue
        if op["op"] == "caller_edit":
            cfg.number_of_particles_left = 0
            cfg.uniform_transmissivity = 0.123
            if isinstance(s, list):
                s[:] = s[::-1] if s != s[::-1] else [x + 1 for x in s]
            elif isinstance(s, np.ndarray):
                s += 1
            if isinstance(M, np.ndarray):
                M *= 0.5
            elif isinstance(M, list):
                M[0] = [0.5 * x for x in M[0]]
            continue
        order, vals = table()
        if op["op"] == "distribution":
            st, v = run.op(op, calc.calculate_distribution)
            want = [vals[t] for t in order]
            if st == "ok":
                st2, got_order = run.op({"op": "order", "sid": op["sid"] + 1},
                                        calc.get_outcomes_in_proper_order)
                got_order = [tuple(int(x) for x in t) for t in got_order]
                if got_order != order:
                    if sorted(got_order) != sorted(order):
                        raise Violation("order", f"outcomes {got_order} are not the "
                                        f"possible outcomes {order}"[:400])
                    want = [vals[t] for t in got_order]
        else:
            rr = random.Random(op["pick"])
            outs = [rr.choice(order) for _ in range(op["count"])]
            want = [vals[t] for t in outs]
            arg = [objs.conv(t, op["otype"]) for t in outs]
            st, v = run.op(op, lambda: calc.calculate_probabilities_of_outcomes(arg))
            if [tuple(int(x) for x in t) for t in arg] != outs:
                raise Violation("caller_data", f"the caller's outcomes {outs} became {arg}"[:300])
        if st == "ok":
            close_list(v, want, "distribution",
                       f"{inst['kind']} losses, input {inst['input']}, {op['op']}")
            run.digest([round(float(np.real(x)), 9) for x in v])
            if len(set(round(x, 6) for x in want)) > 1:
                run.stats["nontrivial"] = True
        else:
            run.wd.probe("fault_then_raised")
