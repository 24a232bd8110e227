"""C10: sample-based distributions are the exact frequencies of the drawn samples."""
from .common import *
from .. import gen as g

RUNS = {"quick": 20000, "thorough": 400000}
RULE = ("A run builds the sample-based calculator on a sampler (real, behind a recorder "
        "of what it returned, with faults, or a scripted one returning arbitrary "
        "sample types) and performs a history of: whole distribution, listed outcomes, "
        "explicit sample numbers (now and then hundreds or thousands), changes of sample number, outcomes, sampler and "
        "configuration; each result must be the recorded counts divided by the number "
        "asked, in the order of the outcomes. Non-trivial: at least two different "
        "frequencies in a result.")


def gen(r, tier, i):
    m = r.randrange(1, 4)
    wide = r.random() < 0.03
    if wide:
        m = r.randrange(9, 13)
    objs_ = []
    big = r.random() < 0.05 and not wide  # occupations beyond the small integer types
    for _ in range(2):
        kind = r.choice(("GCC", "GCCB", "LNET", "BOBS", "ULBOBS", "ULGCC", "ULGCCB", "MA",
                         "scripted", "scripted"))
        if big or (wide and kind in ("LNET", "BOBS", "ULBOBS")):
            kind = "scripted"
        if kind == "scripted":
            objs_.append({"kind": kind, "m": m, "stype": itype(r), "big": big,
                          "seed": r.randrange(10 ** 6)})
        else:
            objs_.append(g.gen_inst(r, kind, m, 2))
    n = r.randrange(1, 3 if wide else 4)
    state = g.gen_input(r, m, n)
    spec = {"cpu": r.choice((1, 2, 4)), "iso": False, "objs": objs_, "input": state,
            "itype": itype(r), "left": r.randrange(0, n + 1),
            "samples": many(r, objs_, (1, 2, 7, 30, 100)),
            "outcomes": gen_outs(r, n, m, big) if r.random() < 0.5 else None,
            "otype": itype(r), "ops": []}
    for _ in range(g.steps(r, (1, 2, 3, 4, 5))):
        sid = r.randrange(10 ** 6)
        k = r.choice(("distribution",) * 3 + ("outcomes", "outcomes", "approx", "samples",
                                              "strategy", "set_outcomes", "config"))
        op = {"op": k, "sid": sid}
        if k in ("outcomes", "set_outcomes"):
            op["outs"] = gen_outs(r, n, m, big)
            op["otype"] = itype(r)
            if k == "set_outcomes" and r.random() < 0.3:
                op["outs"] = None
        if k in ("approx", "samples"):
            op["n"] = many(r, objs_, (1, 3, 10, 64))
        if k == "strategy":
            op["obj"] = r.randrange(2)
        if k == "config":
            op["left"] = r.randrange(0, n + 1)
            op["input"] = g.gen_input(r, m, n)
        if k in ("distribution", "outcomes", "approx") and r.random() < 0.3:
            op["fault"] = gen_fault(r, r.random() < 0.5)
        spec["ops"].append(op)
    return spec


def many(r, objs_, few):
    """A number of samples, sometimes as big as the calculator's default."""
    if all(o["kind"] == "scripted" for o in objs_) and r.random() < 0.15:
        return r.choice((129, 257, 300, 1000, 1025, 2501, 5000))
    return r.choice(few)


def big_states(m):
    import itertools
    return [t for t in itertools.product((0, 1, 2, 11, 12, 111, 256, 257, 512, 70000), repeat=min(m, 2))
            ] if m < 3 else [(a, b, 1) for a in (0, 1, 11, 256) for b in (0, 1, 11, 2, 258, 65536)]


def gen_outs(r, n, m, big=False):
    if r.random() < 0.04:
        return []
    allo = big_states(m) if big else ref.lossy_states(n, m)
    r.shuffle(allo)
    outs = allo[:r.randrange(1, len(allo) + 1)]
    if r.random() < 0.2:
        outs += r.choices(outs, k=r.randrange(1, 4))
        r.shuffle(outs)
    return [list(t) for t in outs]


class Recorder:
    """A sampler (the calculator's collaborator) that remembers what it returned."""

    def __init__(self, inner, inst, wd):
        self.inner, self.inst, self.wd = inner, inst, wd
        self.calls = []

    def simulate(self, input_state, samples_number=1):
        if self.inst["kind"] == "scripted":
            import random
            rr = random.Random(f"{self.inst['seed']}/{len(self.calls)}")
            m = self.inst["m"]
            pool = (big_states(m) if self.inst.get("big")
                    else ref.lossy_states(int(sum(input_state)), m))
            out = [objs.conv(rr.choice(pool), self.inst["stype"])
                   for _ in range(samples_number)]
        else:
            out = self.inner.simulate(input_state, samples_number)
        self.calls.append(([int(x) for x in input_state], samples_number,
                           [tuple(int(v) for v in t) for t in out]))
        return out


def run(run, spec):
    m = spec["objs"][0]["m"]
    recs = []
    for j, inst in enumerate(spec["objs"]):
        run.kind(inst["kind"])
        if inst["kind"] == "scripted":
            recs.append(Recorder(None, inst, run.wd))
        else:
            st, s = run.op({"op": "build", "sid": -1 - j}, lambda: objs.make_strategy(inst))
            recs.append(Recorder(s, inst, run.wd))
    M = g.matrix({"type": "identity", "m": m})
    model = {"rec": recs[0], "n": spec["samples"], "input": spec["input"],
             "left": spec["left"],
             "outs": spec["outcomes"]}

    def cfg(inp, left):
        return objs.make_config(M, objs.conv(inp, spec["itype"]), m, left)

    given = []  # the outcomes lists handed over, which stay the caller's

    def conv_outs(outs, t):
        if outs is None:
            return None
        mine = [objs.conv(o, t) for o in outs]
        given.append((mine, outs))
        return mine
    st, calc = run.op({"op": "build_calc", "sid": -9}, lambda: objs.mod(
        objs.D + "bs_sample_based_distribution_calculator").BSSampleBasedDistributionCalculator(
        cfg(spec["input"], spec["left"]), recs[0], spec["samples"],
        conv_outs(spec["outcomes"], spec["otype"])))
    for op in spec["ops"]:
        k = op["op"]
        if k == "samples":
            calc.samples_number = op["n"]
            model["n"] = op["n"]
            continue
        if k == "strategy":
            calc.strategy = recs[op["obj"]]
            model["rec"] = recs[op["obj"]]
            continue
        if k == "set_outcomes":
            calc.outcomes = conv_outs(op["outs"], op["otype"])
            model["outs"] = op["outs"]
            continue
        if k == "config":
            calc.configuration = cfg(op["input"], op["left"])
            model["input"], model["left"] = op["input"], op["left"]
            continue
        rec = model["rec"]
        before = len(rec.calls)
        if k == "distribution":
            want_n = model["n"]
            st, v = run.op(op, calc.calculate_distribution)
        elif k == "approx":
            want_n = op["n"]
            st, v = run.op(op, lambda: calc.calculate_approximate_distribution(op["n"]))
        else:
            want_n = model["n"]
            st, v = run.op(op, lambda: calc.calculate_probabilities_of_outcomes(
                conv_outs(op["outs"], op["otype"])))
            if st == "ok":
                model["outs"] = op["outs"]
            else:
                # May or may not have taken effect: fix it for the next calls.
                calc.outcomes = conv_outs(op["outs"], op["otype"])
                model["outs"] = op["outs"]
        for mine, outs in given:
            if [[int(x) for x in t] for t in mine] != [list(t) for t in outs]:
                raise Violation("caller_data", f"the caller's outcomes {outs} became {mine}"[:300])
        if st == "exc":
            run.wd.probe("fault_then_raised")
            continue
        calls = rec.calls[before:]
        drawn = [t for c in calls for t in c[2]]
        if any(c[0] != list(model["input"]) for c in calls):
            raise Violation("frequencies", f"sampled input {calls[0][0]} instead of "
                            f"{model['input']}")
        if len(drawn) != want_n and model["outs"] != []:
            raise Violation("frequencies", f"{len(drawn)} samples drawn, {want_n} configured")
        outs = ([tuple(o) for o in model["outs"]] if model["outs"] is not None
                else ref.states(model["left"], m))
        st2, order = run.op({"op": "order", "sid": op["sid"] + 1},
                            calc.get_outcomes_in_proper_order)
        try:
            order = [tuple(int(x) for x in t) for t in order]
        except TypeError:
            raise Violation("frequencies", f"no order of outcomes: {order!r}")
        if model["outs"] is not None and order != outs or sorted(order) != sorted(outs):
            raise Violation("frequencies", f"order of outcomes {order} instead of {outs}"[:300])
        want = [drawn.count(t) / want_n for t in order]
        close_list(v, want, "frequencies", f"{k} with {want_n} samples", tol=1e-12)
        run.digest(want)
        run.stats["samples"] += len(drawn)
        if len(set(want)) > 1:
            run.stats["nontrivial"] = True
