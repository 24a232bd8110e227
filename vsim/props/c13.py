"""C13: every legal value of a random draw gives a legal outcome."""
from .common import *
from .. import gen as g
from ..seams import LO, HI

RUNS = {"quick": 40000, "thorough": 800000}
RULE = ("A run builds a sampler and simulates calls in which a seeded part of the random "
        "draws takes values at the ends of their legal range (uniform draws: 0, 2^-53, "
        "1-2^-53; index draws: first, last); the call must return "
        "well-formed samples that the particle bounds and, for deterministic "
        "routing, the support of the law allow. Non-trivial: an extreme draw was used.")
KINDS = ("GCC", "MA", "GCCB", "ULGCC", "ULGCCB", "ULBOBS", "BOBS", "FIXED", "UNIF")


def gen(r, tier, i):
    kind = r.choice(KINDS)
    m = r.randrange(1, {"BOBS": 4, "ULBOBS": 5}.get(kind, 6))
    n = min(r.randrange(0, 5), m if kind in ("FIXED", "UNIF") else 4)
    types = ("haar", "haar", "perm", "identity")
    inst = g.gen_inst(r, kind, m, n, types)
    inst["mat"] = g.gen_matrix(r, m, types)
    if kind == "BOBS":
        inst["mat"] = g.gen_matrix(r, m, ("haar",), True)
        inst["mat"].update(loss="uniform", eta=round(r.uniform(.05, .95), 3))
    if kind == "ULBOBS" and inst["mat"]["type"] != "haar":
        inst["k"] = m
    if kind in ("FIXED", "UNIF", "BOBS"):
        vals = [LO, 2.0 ** -53] if kind != "BOBS" else [LO, 2.0 ** -53, HI]
    else:
        vals = [LO, 2.0 ** -53, HI]
    ops = []
    for _ in range(r.choice((1, 2))):
        op = sim_op(r, 0, inst, r.choice((1, 5, 20)), n)
        op["extreme"] = {"rate": r.choice((0.05, 0.3, 0.8)), "values": vals}
        ops.append(op)
    return {"cpu": r.choice((1, 2, 4)), "iso": False, "objs": [inst], "ops": ops}


def run(run, spec):
    for op in spec["ops"]:
        before = run.wd.fired.get("extreme_draw", 0)
        st, v = do_sim(run, op)
        o = run.objs[0]
        check_particles(o, op, v)
        inst = o["inst"]
        if inst["mat"]["type"] in ("perm", "identity") and inst["kind"] not in ("FIXED", "UNIF"):
            law = objs.law(inst, op["input"], o["mat"])
            for t in v:
                if law.get(t, 0.0) <= 0:
                    raise Violation("support", f"{inst['kind']} input {op['input']}: impossible "
                                    f"outcome {t}")
        elif inst["mat"]["type"] in ("perm", "identity") and not inst["mat"].get("loss"):
            n = sum(op["input"])
            allowed = {int(np.argmax(abs(o["mat"][:, j]))) for j in range(n)}
            for t in v:
                if any(x and q not in allowed for q, x in enumerate(t)):
                    raise Violation("support", f"{inst['kind']} input {op['input']}: outcome {t} "
                                    f"has a particle outside the reachable modes")
        if run.wd.fired.get("extreme_draw", 0) > before:
            run.stats["nontrivial"] = True
