"""C08: objects are isolated from each other and from the caller's data."""
import copy
import pickle

from .. import coop
from .common import *
from . import c12
from .. import gen as g

RUNS = {"quick": 12000, "thorough": 240000}
RULE = ("A run gives the same matrices, inputs, configuration and permanent calculator "
        "to 2-4 objects (samplers made directly or by one factory, permanent "
        "calculators, distribution calculators), then interleaves their calls: operation "
        "by operation, or as caller threads switched at random lines of theboss "
        "(one object per thread). Outcomes of deterministic experiments are compared "
        "exactly, the caller's data and earlier results must not change. Non-trivial: "
        "two objects each completed a call. Objects may also be copied (deepcopy, pickle) "
        "and the caller may edit results it got; distribution calculators may share one "
        "permanent calculator, which the caller uses too.")

DET = ("GCC", "MA", "GCCB", "ULGCC", "ULGCCB", "LNET", "BOBS", "ULBOBS", "FIXED", "UNIF")


def gen(r, tier, i):
    m = r.randrange(2, 5)
    det = r.random() < 0.8
    types = ("perm", "perm", "perm", "identity") if det else ("haar", "dft", "real")
    mats = [g.gen_matrix(r, m, types) for _ in range(3)]
    if r.random() < 0.3:
        mats[1] = g.related_matrix(r, mats[0], det)
    n = r.randrange(1, 4)
    inputs = []
    for _ in range(3):
        inputs.append({"s": g.gen_input(r, m, r.randrange(0, 4)), "t": itype(r)})
    single = {"s": [1] + [0] * (m - 1), "t": itype(r)}
    inputs.append(single)
    objs_ = []
    threads_mode = r.random() < 0.45
    shared_factory = r.random() < 0.5 and not threads_mode
    for j in range(r.choice((2, 2, 3, 4))):
        typ = r.choice(("strategy",) * 12 + ("perm", "perm", "sub", "dist", "dist", "udist", "sdist"))
        if typ == "udist" and threads_mode:
            typ = "dist"
        mi = r.randrange(len(mats)) if not shared_factory or r.random() < 0.4 else 0
        if typ == "strategy":
            kinds = DET if not threads_mode else tuple(k for k in DET)
            if shared_factory:
                kinds = tuple(sorted(g.FACTORY))
            kind = r.choice(kinds)
            inst = g.gen_inst(r, kind, m, 1)
            inst.update(typ="strategy", mi=mi, mat=mats[mi])
            inst["via"] = "shared" if shared_factory else inst["via"]
            inst["reset"] = r.random() < 0.2
            if "eta" in inst and (det or kind == "UNIF"):
                inst["eta"] = 1.0
            if "k" in inst and det:
                inst["k"] = m
            if kind == "FIXED":
                inst["n"] = inst["left"] = 1
        elif typ == "perm":
            inst = {"typ": "perm", "pc": r.choice(g.CALCS), "mi": mi, "m": m}
        elif typ == "sub":
            inst = {"typ": "sub", "pc": r.choice(("ryser", "ch")), "mi": mi, "m": m}
        else:
            inst = {"typ": typ, "eta": r.choice((1.0, 0.6)), "pc": r.choice(g.CALCS), "mi": mi, "m": m,
                    "input": r.randrange(3)}
            if not threads_mode and r.random() < 0.4:
                inst["share_pc"] = True  # in turns with the others and the caller
            if typ == "sdist":
                inst.update(kind=r.choice(("GCC", "MA", "GCCB", "LNET")), mat=mats[mi],
                            n=r.randrange(1, 9), outs=r.randrange(10 ** 6))
        objs_.append(inst)
    ops = []
    for j in range(len(objs_)):
        for _ in range(r.choice((1, 2, 3)) if threads_mode else g.steps(r, (1, 2, 3), 0.01)):
            ops.append(gen_op(r, j, objs_[j], inputs, mats))
    if not threads_mode:
        for op in ops:
            if r.random() < 0.15:
                inst = objs_[op["obj"]]
                pooled = inst["typ"] == "udist" or inst.get("kind") in g.POOLED
                op["copy"] = "pickle" if pooled and r.random() < 0.5 else "deepcopy"
        for k in range(len(ops)):
            if r.random() < 0.1:
                ops.append({"op": "edit", "pick": r.randrange(10 ** 6), "sid": k})
        order = list(range(len(ops)))
        r.shuffle(order)
        ops = [ops[k] for k in order]
    return {"cpu": r.choice((1, 2, 4)), "iso": False, "objs": objs_, "ops": ops,
            "mats": mats, "inputs": inputs, "threads_mode": threads_mode,
            "rate": r.choice((0.02, 0.1, 0.3)), "det": det, "shared": shared_factory,
            "sid": r.randrange(10 ** 6), "mat_as": g.gen_mat_as(r)}


def gen_op(r, j, inst, inputs, mats):
    sid = r.randrange(10 ** 6)
    if inst["typ"] == "strategy":
        if inst["kind"] in SETM and r.random() < 0.25:
            return {"op": "setm", "obj": j, "mi": r.randrange(len(mats)), "sid": sid}
        if inst["kind"] in ("FIXED", "UNIF"):
            ii = len(inputs) - 1
        else:
            ii = r.randrange(len(inputs))
        if inst["kind"] == "ULGCC" and inst["eta"] > 0.4 and r.random() < 0.4:
            return {"op": "upto", "obj": j, "ii": ii, "sid": sid, "draws": 2_000_000}
        return {"op": "sim", "obj": j, "ii": ii, "n": r.randrange(1, 6), "sid": sid}
    if inst["typ"] in ("perm", "sub"):
        return {"op": "permanent", "obj": j, "ii": r.randrange(3), "sid": sid,
                "oseed": r.randrange(10 ** 6)}
    op = {"op": r.choice(("distribution", "distribution", "order")), "obj": j, "sid": sid}
    if r.random() < 0.3:
        op["use_pc"] = r.randrange(len(mats))
    if inst["typ"] == "sdist":
        op["op"] = "distribution"
    return op


class Caller:
    """The data the caller owns and shares."""

    def __init__(self, spec):
        self.mats = [objs.make_matrix(d, spec["mat_as"]) for d in spec["mats"]]
        self.inputs = [objs.conv(d["s"], d["t"]) for d in spec["inputs"]]
        self.m = spec["mats"][0]["m"]
        m = self.m
        self.cfg = objs.make_config(self.mats[0], self.inputs[0], m)
        self.pc = objs.make_pc("RYSER", self.mats[0], self.inputs[0], self.inputs[0])
        self.made = 0  # which matrix the shared factory was given last
        self.keep = copy.deepcopy((self.mats, self.inputs, vars(self.cfg), self.state(self.pc)))

        self.turns = {}  # permanent calculators used in turns
        self.outs = {}

    def outcomes(self, inst):
        """All outcomes in an order of the caller's, in a list that stays its own."""
        s = self.inputs[inst["input"]]
        key = (inst["input"], inst["outs"])
        if key not in self.outs:
            o = [list(t) for t in ref.states(int(sum(s)), inst["m"])]
            __import__("random").Random(inst["outs"]).shuffle(o)
            self.outs[key] = (o, copy.deepcopy(o))
        return self.outs[key][0]

    @staticmethod
    def state(pc):
        return (pc.matrix, pc.input_state, pc.output_state)

    def check(self):
        now = (self.mats, self.inputs, vars(self.cfg), self.state(self.pc))
        names = ("a matrix", "an input state", "the configuration", "the permanent calculator")
        for a, b in self.outs.values():
            if a != b:
                raise Violation("caller_data", f"outcomes of the caller were changed: "
                                f"{short(b)} -> {short(a)}")
        for name, a, b in zip(names, now, self.keep):
            if not same(a, b):
                raise Violation("caller_data", f"{name} of the caller was changed: "
                                f"{short(b)} -> {short(a)}")


def short(x):
    s = repr(x)
    return s if len(s) < 160 else s[:160] + "..."


def same(a, b):
    """Equal values; the kind of sequence does not matter."""
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray):
        return a.shape == b.shape and bool(np.array_equal(a, b))
    seq = (list, tuple, np.ndarray)
    if isinstance(a, seq):
        return isinstance(b, seq) and len(a) == len(b) and all(map(same, a, b))
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    return a == b


def make(inst, caller, fac):
    if inst["typ"] == "perm":
        return objs.make_pc(inst["pc"], caller.mats[inst["mi"]])
    if inst["typ"] == "sub":
        return objs.make_sub(inst["pc"], caller.mats[inst["mi"]])
    if inst["typ"] == "sdist":
        cfg = objs.make_config(caller.mats[inst["mi"]], caller.inputs[inst["input"]], inst["m"])
        smp = objs.make_strategy(dict(inst, via="direct"), matrix=caller.mats[inst["mi"]])
        return objs.mod(objs.D + "bs_sample_based_distribution_calculator"
                        ).BSSampleBasedDistributionCalculator(
            cfg, smp, inst["n"], caller.outcomes(inst))
    if inst["typ"] in ("dist", "udist"):
        cfg = objs.make_config(caller.mats[inst["mi"]], caller.inputs[inst["input"]],
                               inst["m"], eta=inst["eta"])
        pc = objs.make_pc(inst["pc"], caller.mats[inst["mi"]])
        if inst.get("share_pc"):
            pc = caller.turns.setdefault(inst["pc"], pc)
        if inst["typ"] == "udist":
            D = objs.mod(objs.D + "bs_exact_distribution_with_uniform_losses")
            return D.BSDistributionCalculatorWithUniformLosses(cfg, pc)
        D = objs.mod(objs.D + "bs_distribution_calculator_with_fixed_losses")
        return D.BSDistributionCalculatorWithFixedLosses(cfg, pc)
    if inst["via"] == "shared":
        F = objs.mod(objs.S + "simulation_strategy_factory")
        if fac is not None and caller.made == inst["mi"] and not inst.get("reset"):
            keep_pc = True  # the factory still has the right permanent calculator
        else:
            keep_pc = False
        caller.made = inst["mi"]
        cfg = copy.copy(caller.cfg)
        cfg.interferometer_matrix = caller.mats[inst["mi"]]
        cfg.uniform_transmissivity = inst.get("eta", 1.0)
        cfg.hierarchy_level = inst.get("k", 0)
        cfg.number_of_particles_left = inst.get("left", 0)
        fac.experiment_configuration = cfg
        if not keep_pc:
            caller.pc.matrix = caller.mats[inst["mi"]]
            fac.bs_permanent_calculator = caller.pc
        fac.strategy_type = getattr(F.StrategyType, objs.FTYPE[inst["kind"]])
        fac.available_threads_number = inst.get("threads", -1)
        s = fac.generate_strategy()
        caller.pc.matrix = caller.mats[0]
        return s
    return objs.make_strategy(inst, matrix=caller.mats[inst["mi"]])


def run(run, spec):
    caller = Caller(spec)
    wd = run.wd
    fac = None
    if spec["shared"]:
        F = objs.mod(objs.S + "simulation_strategy_factory")
        fac = F.SimulationStrategyFactory(caller.cfg, caller.pc, F.StrategyType.GCC)
    O = {}
    done = set()
    results = []  # (result object, snapshot)
    dets = {}

    def keep(res):
        results.append((res, copy.deepcopy(res)))

    def edit(pick):
        """The caller edits a result it was given; it is the caller's from then on."""
        if not results:
            return
        res, _ = results.pop(pick % len(results))
        if isinstance(res, list) and res:
            wd.probe("caller_edit")
            x = res[0]
            if isinstance(x, np.ndarray):
                x += 5
            elif isinstance(x, list):
                x[:] = [v + 5 for v in x]
            else:
                res.reverse()
                res.append(x)

    def ensure(j):
        if j not in O:
            inst = spec["objs"][j]
            O[j] = {"inst": inst, "x": make(inst, caller, fac),
                    "mat": g.matrix(spec["mats"][inst["mi"]]) if inst["typ"] != "strategy"
                    else g.matrix(inst["mat"])}
        return O[j]

    def step(op):
        """The call itself; returns a closure judging the result."""
        o = ensure(op["obj"])
        inst = o["inst"]
        if op.get("copy"):
            # A copy of the object is an object of its own.
            key = (op["obj"], op["copy"])
            if key not in O:
                x = (copy.deepcopy(o["x"]) if op["copy"] == "deepcopy"
                     else pickle.loads(pickle.dumps(o["x"])))
                O[key] = {"inst": inst, "x": x, "mat": o["mat"]}
                wd.probe("copied_object")
            o = O[key]
        if op["op"] == "setm":
            o["x"].set_new_matrix(caller.mats[op["mi"]])
            o["mat"] = g.matrix(spec["mats"][op["mi"]])
            return lambda: None
        if op["op"] == "sim":
            res = o["x"].simulate(caller.inputs[op["ii"]], op["n"])
            mat = o["mat"]
            s = spec["inputs"][op["ii"]]["s"]

            def judge():
                v = objs.norm_samples(res, len(s), op["n"])
                run.digest(v)
                keep(res)
                run.kind(inst["kind"])
                check_particles({"inst": inst, "mat": mat}, {"input": s}, v)
                key = (op["obj"], tuple(s), mat.tobytes())
                if key not in dets:
                    dets[key] = deterministic_outcome(inst, s, mat)
                only = dets[key]
                if only is not None:
                    for t in v:
                        if t != only:
                            raise Violation(
                                "isolation", f"{inst['kind']} input {s}: sample {t}, only "
                                f"{only} is possible for its own matrix")
            return judge
        if op["op"] == "permanent":
            s = spec["inputs"][op["ii"]]["s"]
            rr = __import__("random").Random(op["oseed"])
            t = g.gen_input(rr, len(s), sum(s), "any")
            pc = o["x"]
            pc.input_state = caller.inputs[op["ii"]]
            if inst["typ"] == "sub":
                while sum(t) > max(0, sum(s) - 1):
                    t[next(i for i, x in enumerate(t) if x)] -= 1
            pc.output_state = t
            if inst["typ"] == "sub":
                if sum(s) < 1:
                    return lambda: None
                res = pc.compute_permanents()

                def judge():
                    run.kind("submatrices")
                    want = []
                    for i in range(len(s)):
                        u = list(s)
                        u[i] -= 1
                        want.append(0 if s[i] == 0 else
                                    ref.permanent(ref.scattering(o["mat"], u, t)))
                    for i, (a, b) in enumerate(zip(res, want)):
                        if s[i] and not abs(complex(a) - b) < 1e-8:
                            raise Violation("isolation", f"{inst['pc']} submatrix permanent "
                                            f"{i} {a} != {b} for {s} -> {t}")
                    keep(res)
                return judge
            val = pc.compute_permanent()

            def judge():
                run.kind("permanent")
                want = ref.permanent(ref.scattering(o["mat"], s, t))
                if not abs(complex(val) - want) < 1e-8:
                    raise Violation("isolation", f"{inst['pc']} permanent {val} != {want} "
                                    f"for {s} -> {t}")
            return judge
        if op["op"] == "upto":
            s = spec["inputs"][op["ii"]]["s"]
            mat = o["mat"]
            if not spec["det"] and c12.rarest(mat, s, inst["eta"]) < 1e-3:
                return lambda: None
            res = o["x"].compute_distribution_up_to_accuracy(caller.inputs[op["ii"]], 1.0)

            def judge():
                run.kind("upto")
                law = ref.uniform_losses(mat, s, inst["eta"])
                want = [law.get(t, 0.0) for t in ref.lossy_states(sum(s), len(s))]
                close_list(res, want, "isolation", f"distribution of input {s}", 1e-4)
                keep(res)
            return judge
        s = spec["inputs"][inst["input"]]["s"]
        order = (ref.states if inst["typ"] == "dist" else ref.lossy_states)(sum(s), len(s))
        if op["op"] == "order":
            res = o["x"].get_outcomes_in_proper_order()

            def judge():
                run.kind("order")
                if [tuple(int(x) for x in t) for t in res] != order:
                    if sorted(tuple(int(x) for x in t) for t in res) != sorted(order):
                        raise Violation("isolation", f"outcomes of input {s}: {short(res)}")
                keep(res)
            return judge
        if inst["typ"] == "sdist":
            res = o["x"].calculate_distribution()
            mat = o["mat"]
            order = [tuple(t) for t in caller.outs[inst["input"], inst["outs"]][1]]

            def judge():
                run.kind("sample_based")
                keep(res)
                only = deterministic_outcome(inst, s, mat)
                if only is not None:
                    want = [float(t == only) for t in order]
                    close_list(res, want, "isolation", f"frequencies of input {s}")
                elif abs(sum(res) - 1) > 1e-9:
                    raise Violation("isolation", f"frequencies {short(res)} of input {s}")
            return judge
        if inst.get("share_pc") and op.get("use_pc") is not None:
            pc = caller.turns[inst["pc"]]
            pc.matrix = caller.mats[op["use_pc"] % len(caller.mats)]
            pc.input_state = pc.output_state = list(spec["inputs"][0]["s"])
            pc.compute_permanent()
        val = o["x"].calculate_distribution()

        def judge():
            run.kind("distribution")
            law = (ref.lossless(o["mat"], s) if inst["typ"] == "dist"
                   else ref.uniform_losses(o["mat"], s, inst["eta"]))
            want = [law.get(t, 0.0) for t in order]
            close_list(val, want, "isolation", f"distribution of input {s}")
            keep(val)
        return judge

    if spec["threads_mode"]:
        by = {}
        for op in spec["ops"]:
            by.setdefault(op["obj"], []).append(op)
        judges = []

        def thread(ops):
            def go():
                for op in ops:
                    judges.append((op, step(op)))
                    done.add(op["obj"])
            return go
        wd.line_budget = 5_000_000
        run.op({"op": "threads", "sid": spec["sid"]},
               lambda: coop.run_threads([thread(ops) for ops in by.values()], spec["rate"]))
        for op, j in judges:
            j()
        caller.check()
    else:
        for op in spec["ops"]:
            if op["op"] == "edit":
                edit(op["pick"])
                continue
            st, judge = run.op(op, lambda: step(op))
            judge()
            done.add(op["obj"])
            caller.check()
    for res, snap in results:
        if not same(list(res), list(snap)):
            raise Violation("result_changed", "a result returned earlier was changed by a "
                            f"later call: {short(snap)} -> {short(res)}")
    if len(done) > 1:
        run.stats["nontrivial"] = True
