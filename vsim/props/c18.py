"""C18: factories build what their settings say at that time, whatever came before."""
import copy

from .common import *
from .. import gen as g

RUNS = {"quick": 6000, "thorough": 120000}
RULE = ("A run makes a strategy factory and goes through a history of exchanging its "
        "configuration, permanent calculator (one by one, or both for another number of modes), strategy type and threads number, of changes the "
        "caller makes to its own calculator and configuration after handing them over, of "
        "generating samplers, using them, and exchanging their matrices; or makes a permanent "
        "calculator factory and exchanges its matrix, input and output between "
        "generating calculators and computing permanents. Every sampler is judged against the "
        "settings the factory had when it generated it (exactly for deterministic experiments, "
        "by the sequential test at 1e12 otherwise; worker numbers too), every permanent exactly. Non-trivial: a "
        "judged result after at least one exchange.")
KINDS = ("GCC", "LNET", "ULGCC", "BOBS", "ULBOBS", "FIXED", "UNIF")
BIG = {"GCC": 400, "ULGCC": 400, "LNET": 100, "BOBS": 80, "ULBOBS": 120, "FIXED": 400,
       "UNIF": 300}


def gen_cfg(r, m, det):
    n = r.randrange(1, min(m, 3) + 1)
    return {"m": m, "mat": g.gen_matrix(r, m, ("perm", "identity") if det else None),
            "mat_as": g.gen_mat_as(r), "n": n,
            "left": r.randrange(0, n + 1), "eta": r.choice((1.0, 0.0, 0.5, 0.8)),
            "k": r.randrange(0, m + 1), "net": r.choice((None, None, "lossy", "lossless"))}


def gen_pc(r, m, det):
    return {"m": m, "pc": r.choice(g.CALCS), "mat": g.gen_matrix(r, m, ("perm", "identity") if det
                                                         else None),
            "mat_as": g.gen_mat_as(r), "bare": r.choice((False, False, True, "stale"))}


def gen(r, tier, i):
    m = r.randrange(2, 4)
    det = r.random() < 0.5
    spec = {"cpu": r.choice((1, 2, 3, 4, 8)), "iso": r.random() < 0.03, "objs": []}
    ops = []

    def sid():
        return r.randrange(10 ** 6)
    if r.random() < 0.2:
        spec["calcs"] = True
        spec["first"] = dict(gen_pc(r, m, False), input=g.gen_input(r, m, 2),
                             output=g.gen_input(r, m, 2))
        made = 0
        for _ in range(r.choice((3, 5, 8))):
            x = r.random()
            if x < 0.35 or not made:
                ops.append({"op": "generate", "sid": sid()})
                made += 1
            elif x < 0.6:
                n = r.randrange(1, 4)
                what = r.choice(("all", "matrix", "states"))
                if what == "all" and r.random() < 0.5:
                    m = r.randrange(1, 4)
                ops.append({"op": "factory", "what": what, "mat": g.gen_matrix(r, m), "input": g.gen_input(r, m, n),
                            "output": g.gen_input(r, m, n), "sid": sid()})
            else:
                ops.append({"op": "permanent", "obj": r.randrange(made), "sid": sid()})
        spec["ops"] = ops
        return spec
    spec["first"] = {"cfg": gen_cfg(r, m, det), "pc": gen_pc(r, m, det),
                     "kind": r.choice(KINDS)}
    made = []
    kind = spec["first"]["kind"]
    for _ in range(g.steps(r, (3, 5, 7, 9), 0.05)):
        x = r.random()
        if x < 0.3 or not made:
            op = {"op": "generate", "sid": sid()}
            if r.random() < 0.1:
                op["fault"] = {"kind": "interrupt", "line": r.randrange(1, 40),
                               "exc": r.choice(("KeyboardInterrupt", "MemoryError"))}
            ops.append(op)
            made.append((kind, m))
        elif x < 0.4:
            ops.append({"op": "cfg", "cfg": gen_cfg(r, m, det), "sid": sid()})
        elif x < 0.45:
            # The next experiment, on another number of modes.
            m = r.randrange(1, 5)
            ops.append({"op": "both", "cfg": gen_cfg(r, m, det), "pc": gen_pc(r, m, det),
                        "pc_first": r.random() < 0.5, "sid": sid()})
        elif x < 0.52:
            ops.append({"op": "pc", "pc": gen_pc(r, m, det), "sid": sid()})
        elif x < 0.6:
            kind = r.choice(KINDS)
            ops.append({"op": "type", "kind": kind, "sid": sid()})
        elif x < 0.65:
            ops.append({"op": "threads", "threads": r.choice((-1, 1, 2, 3, 64)), "sid": sid()})
        elif x < 0.7:
            # The caller goes on using what it handed over.
            ops.append({"op": "caller_pc", "mat": g.gen_matrix(r, m), "sid": sid(),
                        "input": g.gen_input(r, m, 2)})
        elif x < 0.72:
            # It edits the factory's calculator, and then replaces it.
            ops.append({"op": "factory_pc", "mat": g.gen_matrix(r, m), "sid": sid(),
                        "pc": gen_pc(r, m, det)})
        elif x < 0.76:
            ops.append({"op": "caller_cfg", "cfg": gen_cfg(r, m, det), "sid": sid()})
        elif x < 0.8:
            j = r.randrange(len(made))
            if made[j][0] in ("GCC", "LNET", "ULGCC"):
                ops.append({"op": "setm", "obj": j, "sid": sid(), "mat": g.gen_matrix(
                    r, made[j][1], ("perm", "identity") if det else None)})
        else:
            ops.append(gen_sim(r, r.randrange(len(made)), sid(), made, det))
    for j in range(len(made)):
        if r.random() < 0.6:
            ops.append(gen_sim(r, j, sid(), made, det))
    spec["ops"] = ops
    return spec


def gen_sim(r, j, sid, made, det):
    kind, m = made[j]
    n = r.randrange(1, 4 if m < 4 or kind in ("GCC", "ULGCC") else 3)
    return {"op": "sim", "obj": j, "sid": sid, "input": g.gen_input(r, m, n),
            "itype": itype(r), "n": r.choice((1, 2, 5, 9)) if det and r.random() < 0.7
            else BIG[kind], "route": "direct"}


def run(run, spec):
    (run_calcs if spec.get("calcs") else run_strategies)(run, spec)


def run_calcs(run, spec):
    f = objs.mod(objs.P + "bs_permanent_calculator_factory")
    first = spec["first"]
    now = {"mat": g.matrix(first["mat"]), "s": first["input"], "t": first["output"]}
    st, fac = run.op({"op": "factory", "sid": -1}, lambda: f.BSPermanentCalculatorFactory(
        objs.make_matrix(first["mat"], first["mat_as"]), first["input"], first["output"],
        getattr(f.PermanentCalculatorType, first["pc"])))
    made = []
    changed = False
    for op in spec["ops"]:
        if op["op"] == "generate":
            st, pc = run.op(op, fac.generate_calculator)
            made.append((pc, dict(now)))
        elif op["op"] == "factory":
            def change():
                if op["what"] in ("all", "matrix"):
                    fac.matrix = objs.make_matrix(op["mat"])
                    now["mat"] = g.matrix(op["mat"])
                if op["what"] in ("all", "states"):
                    fac.input_state = list(op["input"])
                    fac.output_state = list(op["output"])
                    now["s"], now["t"] = op["input"], op["output"]
            run.op(op, change)
            changed = True
        elif op["obj"] < len(made):
            pc, was = made[op["obj"]]
            st, v = run.op(op, pc.compute_permanent)
            want = ref.permanent(ref.scattering(was["mat"], was["s"], was["t"]))
            run.kind("permanent")
            if not abs(complex(v) - want) < 1e-8:
                raise Violation("factory", f"{first['pc']} calculator generated for {was['s']} "
                                f"-> {was['t']}: permanent {v}, expected {want}")
            run.stats["nontrivial"] |= changed


def run_strategies(run, spec):
    wd = run.wd
    F = objs.mod(objs.S + "simulation_strategy_factory")
    first = spec["first"]
    now = {"cfg": first["cfg"], "pc": first["pc"], "kind": first["kind"], "threads": -1}

    def config(c):
        m = c["m"]
        M = objs.make_matrix(c["mat"], c["mat_as"])
        cfg = objs.make_config(M, [1] * c["n"] + [0] * (m - c["n"]), m, c["left"], c["eta"],
                               c["k"])
        cfg.network_simulation_strategy = objs.make_net(c["net"], M)
        return cfg

    def calculator(p):
        return objs.make_inst_pc(p, objs.make_matrix(p["mat"], p["mat_as"]))
    mine = {"cfg": config(now["cfg"]), "pc": calculator(now["pc"])}
    st, fac = run.op({"op": "factory", "sid": -1}, lambda: F.SimulationStrategyFactory(
        mine["cfg"], mine["pc"], getattr(F.StrategyType, objs.FTYPE[now["kind"]])))
    made = []
    changed = False
    for op in spec["ops"]:
        k = op["op"]
        if k == "generate":
            st, s = run.op(op, fac.generate_strategy)
            if st == "exc":
                st, s = run.op({k: v for k, v in op.items() if k != "fault"},
                               fac.generate_strategy)
            p, c = now["pc"], now["cfg"]
            inst = {"kind": now["kind"], "m": p["m"], "mat": None}
            mat = g.matrix(c["mat"] if now["kind"] in ("FIXED", "UNIF") else p["mat"])
            for key in {"ULGCC": ["eta"], "BOBS": ["k"], "ULBOBS": ["eta", "k"],
                        "FIXED": ["n", "left"], "UNIF": ["eta"]}.get(now["kind"], []):
                inst[key] = c[key]
            if now["kind"] in g.POOLED:
                inst["threads"] = now["threads"]
            made.append({"inst": inst, "s": s, "mat": mat, "cpu": wd.cpu})
        elif k == "cfg":
            mine["cfg"] = config(op["cfg"])

            def change():
                fac.experiment_configuration = mine["cfg"]
            run.op(op, change)
            now["cfg"] = op["cfg"]
            changed = True
        elif k == "pc":
            mine["pc"] = calculator(op["pc"])

            def change():
                fac.bs_permanent_calculator = mine["pc"]
            run.op(op, change)
            now["pc"] = op["pc"]
            changed = True
        elif k == "factory_pc":
            mine["pc"] = calculator(op["pc"])

            def change():
                fac.bs_permanent_calculator.matrix = objs.make_matrix(op["mat"])
                fac.bs_permanent_calculator = mine["pc"]
            run.op(op, change)
            now["pc"] = op["pc"]
            changed = True
        elif k == "both":
            mine = {"cfg": config(op["cfg"]), "pc": calculator(op["pc"])}

            def change():
                if op["pc_first"]:
                    fac.bs_permanent_calculator = mine["pc"]
                fac.experiment_configuration = mine["cfg"]
                if not op["pc_first"]:
                    fac.bs_permanent_calculator = mine["pc"]
            run.op(op, change)
            now["cfg"], now["pc"] = op["cfg"], op["pc"]
            changed = True
        elif k == "type":
            def change():
                fac.strategy_type = getattr(F.StrategyType, objs.FTYPE[op["kind"]])
            run.op(op, change)
            now["kind"] = op["kind"]
            changed = True
        elif k == "threads":
            def change():
                fac.available_threads_number = op["threads"]
            run.op(op, change)
            now["threads"] = op["threads"]
            changed = True
        elif k == "caller_pc":
            def change():
                mine["pc"].matrix = objs.make_matrix(op["mat"])
                mine["pc"].input_state = list(op["input"])
            run.op(op, change)
            changed = True
        elif k == "caller_cfg":
            # For the next experiment, the caller fills in its configuration anew and
            # hands it over again.
            def change():
                new = config(op["cfg"])
                for key, val in vars(new).items():
                    setattr(mine["cfg"], key, val)
                fac.experiment_configuration = mine["cfg"]
            run.op(op, change)
            now["cfg"] = op["cfg"]
            changed = True
        elif op["obj"] >= len(made):
            continue
        elif k == "setm":
            o = made[op["obj"]]
            M = objs.make_matrix(op["mat"])
            if o["inst"]["kind"] in ("GCC", "LNET", "ULGCC"):
                run.op(op, lambda: o["s"].set_new_matrix(M))
                o["mat"] = g.matrix(op["mat"])
        elif k == "sim":
            o = made[op["obj"]]
            run.objs[op["obj"]] = o
            inst = o["inst"]
            m = inst["m"]
            if inst["kind"] in ("FIXED", "UNIF"):
                n = inst["n"] if inst["kind"] == "FIXED" else min(m, sum(op["input"]))
                op = dict(op, input=[1] * n + [0] * (m - n))
            st, v = do_sim(run, op)
            check_particles(o, op, v)
            law = objs.law(inst, op["input"], o["mat"])
            top = max(law.items(), key=lambda kv: kv[1])
            if top[1] > 1 - 1e-9:
                for t in v:
                    if t != top[0]:
                        raise Violation("factory", f"{inst['kind']} input {op['input']}: "
                                        f"sample {t}, only {top[0]} is possible")
            else:
                check_law(run, o, op, v, law, more=more_of(run, op), cls="factory")
            if inst["kind"] in g.POOLED:
                top = threads_of(inst, o["cpu"])
                if wd.peak_busy > top:
                    raise Violation("factory", f"{inst['kind']}: {wd.peak_busy} workers at "
                                    f"once, the factory allowed {top}")
            run.stats["nontrivial"] |= changed
