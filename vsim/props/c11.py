"""C11: permanents do not depend on the calculator's history or on interruptions."""
import math
import random

from .. import coop
from .common import *
from .. import gen as g

RUNS = {"quick": 30000, "thorough": 600000}
RULE = ("A run keeps one to three calculators (all four permanent calculators and both "
        "submatrix-permanent calculators), and performs a history of changes of matrix, "
        "input and output interleaved with computations, some interrupted at a random "
        "line (KeyboardInterrupt, MemoryError), or runs the calculators in caller "
        "threads switched at random lines; every value is compared with a "
        "subset-dynamic-programming permanent. Non-trivial: a value judged after "
        "an earlier computation on the same object.")
SUB = ("CH_SUB", "RYSER_SUB")


def gen(r, tier, i):
    objs_ = []
    for _ in range(r.choice((1, 1, 2, 3))):
        objs_.append({"kind": r.choice(g.CALCS + SUB)})
    if r.random() < 0.02:
        return gen_temporary(r, objs_[:1])
    ops = []
    threads_mode = len(objs_) > 1 and r.random() < 0.4
    for j, o in enumerate(objs_):
        m = r.randrange(1, 5)
        first = True
        for _ in range(g.steps(r, (1, 2, 3, 4))):
            if r.random() < 0.2:
                m = r.randrange(1, 6)
            n = r.choice((0, 1, 2, 2, 3, 3, 4, 5 if o["kind"] != "CLASSIC" else 3))
            if o["kind"] != "CLASSIC" and r.random() < 0.02:
                m, n = r.randrange(3, 8), r.randrange(5, 9)
            if o["kind"] not in ("CLASSIC", "GLYNN") and r.random() < 0.01:
                m, n = r.randrange(1, 3), r.randrange(9, 14)
            if o["kind"] != "CLASSIC" and r.random() < 0.01:
                m, n = r.randrange(8, 15), r.randrange(0, 5)
            if o["kind"] in SUB:
                n = max(n, 1)
            op = {"op": "compute", "obj": j, "m": m, "sid": r.randrange(10 ** 6),
                  "input": g.gen_input(r, m, n), "itype": itype(r), "otype": itype(r),
                  "newmat": first or r.random() < 0.5,
                  "mat": g.gen_matrix(r, m, lossy=r.random() < 0.3),
                  "mat_as": g.gen_mat_as(r)}
            old = [q["mat"] for q in ops if q["obj"] == j and q["m"] == m]
            if old and r.random() < 0.3:
                op["mat"] = g.related_matrix(r, old[-1])
            op["output"] = g.gen_input(r, m, n - 1 if o["kind"] in SUB else n)
            if not first and r.random() < 0.4:
                op["again"] = True  # only compute, if the object is set up
            if r.random() < 0.35 and not threads_mode:
                op["fault"] = {"kind": "interrupt", "line": int(10 ** r.uniform(0, 2.5)),
                               "exc": r.choice(("KeyboardInterrupt", "MemoryError"))}
            ops.append(op)
            first = False
    if not threads_mode:
        ops.sort(key=lambda op: r.random())
    return {"cpu": 4, "iso": False, "objs": objs_, "ops": ops,
            "threads_mode": threads_mode, "rate": r.choice((0.02, 0.1, 0.4)),
            "sid": r.randrange(10 ** 6)}


def gen_temporary(r, objs_):
    """Many matrices that the caller does not keep, for the same states."""
    kind = objs_[0]["kind"]
    m = r.randrange(2, 4)
    n = r.randrange(1, 4)
    s, t = g.gen_input(r, m, n), g.gen_input(r, m, n - 1 if kind in SUB else n)
    it, ot, ma = itype(r), itype(r), g.gen_mat_as(r)
    ops = [{"op": "compute", "obj": 0, "m": m, "sid": r.randrange(10 ** 6), "input": s,
            "itype": it, "otype": ot, "output": t, "newmat": True, "mat_as": ma,
            "mat": g.gen_matrix(r, m, ("haar",))} for _ in range(r.randrange(4, 9))]
    return {"cpu": 4, "iso": False, "objs": objs_, "ops": ops, "threads_mode": False,
            "rate": 0.0, "sid": r.randrange(10 ** 6)}


def make(kind, M, s, t):
    if kind == "CH_SUB":
        return objs.mod(objs.P + "bs_cc_ch_submatrices_permanent_calculator"
                        ).BSCCCHSubmatricesPermanentCalculator(M, s, t)
    if kind == "RYSER_SUB":
        return objs.mod(objs.P + "bs_cc_ryser_submatrices_permanent_calculator"
                        ).BSCCRyserSubmatricesPermanentCalculator(M, s, t)
    return objs.make_pc(kind, M, s, t)


def expected(kind, A, s, t):
    if kind in SUB:
        out = []
        for i in range(len(s)):
            if s[i] == 0:
                out.append(0.0)
                continue
            red = list(s)
            red[i] -= 1
            out.append(ref.permanent(ref.scattering(A, red, t)) if sum(t) < 9
                       else ref.amplitude(A, red, t))
        return out
    if sum(t) >= 9:
        return [ref.amplitude(A, s, t)]
    return [ref.permanent(ref.scattering(A, s, t))]


def run(run, spec):
    O = {}

    def step(op):
        kind = spec["objs"][op["obj"]]["kind"]
        o = O.get(op["obj"])
        s = objs.conv(op["input"], op["itype"])
        t = objs.conv(op["output"], op["otype"])
        if o is None:
            M = objs.make_matrix(op["mat"], op["mat_as"])
            o = O[op["obj"]] = {"x": make(kind, M, s, t), "A": g.matrix(op["mat"]),
                                "s": op["input"], "t": op["output"], "used": 0}
        elif op.get("again") and not o.get("unsure") and not o.get("setting"):
            op = dict(op, input=o["s"], output=o["t"])
        else:
            x = o["x"]
            o["setting"] = True
            if op["newmat"] or o.get("unsure") or len(o["A"]) != op["m"]:
                x.matrix = objs.make_matrix(op["mat"], op["mat_as"])
                o["A"] = g.matrix(op["mat"])
                o["unsure"] = False
            x.input_state = s
            x.output_state = t
            o["s"], o["t"] = op["input"], op["output"]
            o["setting"] = False
        o["used"] += 1
        v = o["x"].compute_permanents() if kind in SUB else [o["x"].compute_permanent()]
        A, used = o["A"], o["used"]

        def judge():
            run.kind(kind)
            want = expected(kind, A, op["input"], op["output"])
            try:
                got = [complex(z) for z in v]
            except (TypeError, ValueError):
                raise Violation("permanent", f"{kind}: not numbers: {v!r}"[:200])
            if len(got) != len(want):
                raise Violation("permanent", f"{kind}: {len(got)} values, not {len(want)}")
            # Relative to the largest value that a unitary matrix can give.
            tol = (1e-8 if sum(op["input"]) <= 8 else 1e-6) * math.sqrt(math.prod(
                math.factorial(x) for x in list(op["input"]) + list(op["output"])))
            for a, b in zip(got, want):
                if not abs(a - b) < tol:
                    raise Violation(
                        "permanent", f"{kind}: computation {used} on this object gave {a}, "
                        f"expected {b} for {op['input']} -> {op['output']}")
            run.digest([complex(round(z.real, 9), round(z.imag, 9)) for z in got])
            if used > 1:
                run.stats["nontrivial"] = True
        return judge

    if spec["threads_mode"]:
        by = {}
        for op in spec["ops"]:
            by.setdefault(op["obj"], []).append(op)
        judges = []

        def thread(ops):
            def go():
                for op in ops:
                    judges.append(step(op))
            return go
        run.wd.line_budget = 5_000_000
        run.op({"op": "threads", "sid": spec["sid"]},
               lambda: coop.run_threads([thread(x) for x in by.values()], spec["rate"]))
        for j in judges:
            j()
        return
    for op in spec["ops"]:
        st, j = run.op(op, lambda: step(op))
        if st == "ok":
            j()
        else:
            run.wd.probe("interrupted")
            if op["obj"] in O and O[op["obj"]].get("setting"):
                O[op["obj"]]["unsure"] = True
