"""What the checks share."""
import copy

import numpy as np

from .. import core, gen, objs, ref, seams, stats
from ..core import Violation
from ..objs import Bad

REAL = ["all of theboss (strategies, calculators, factories, utilities)", "numpy",
        "scipy", "pickling of tasks and results"]
STUB = ["process pools and their workers (discrete-event, in one process)",
        "clocks, process ids, CPU count, OS entropy, seeds of the random generators"]
ASSUME = ["reference laws computed in double precision by polynomial evolution",
          "a simulated worker shares the interpreter with its parent; objects are "
          "isolated by pickling, modules by separate copies in the runs marked iso"]

SETM = ("GCC", "MA", "GCCB", "ULGCC", "ULGCCB", "LNET")
ALL = ("GCC", "MA", "GCCB", "ULGCC", "ULGCCB", "LNET", "BOBS", "ULBOBS", "FIXED", "UNIF")


def itype(r):
    return r.choice(("list", "list", "tuple", "tuple", "ndarray", "ndarray", "int32"))


def small_n(r, kind, hi=None):
    lim = hi or {"BOBS": 4, "LNET": 4, "ULBOBS": 4}.get(kind, 5)
    return r.choice((0, 1, 1, 2, 2, 3, 3, lim))


def input_for(r, inst, n=None, style=None):
    """A legal input for the instance."""
    kind, m = inst["kind"], inst["m"]
    if kind in ("FIXED", "UNIF"):
        if kind == "FIXED":
            n = inst["n"]
        elif n is None or n > m:
            n = r.randrange(0, m + 1)
        return [1] * n + [0] * (m - n)
    if n is None:
        n = small_n(r, kind)
    return gen.gen_input(r, m, n, style)


def related_input(r, inst, s):
    """An input that a careless cache could mistake for s."""
    if inst["kind"] in ("FIXED", "UNIF"):
        return list(s)
    if inst["kind"] == "ULBOBS" and 0 < inst["k"] < len(s) and r.random() < 0.6:
        # Only the part that is not approximated.
        k = inst["k"]
        return related_input(r, {"kind": ""}, s[:k]) + list(s[k:])
    x = r.random()
    t = list(s)
    if x < 0.2:
        return t
    if x < 0.6:
        r.shuffle(t)
        return t
    if x < 0.8:
        return gen.gen_input(r, len(s), sum(s))
    # As many lossy versions of the input (and of its parts).
    want = np.prod([v + 1 for v in s])
    for _ in range(30):
        t = gen.gen_input(r, len(s), max(0, sum(s) + r.choice((-2, -1, 1, 1, 2))))
        if np.prod([v + 1 for v in t]) == want:
            return t
    return t


def sim_op(r, i, inst, N, n=None, style=None, **kw):
    d = {"op": "sim", "obj": i, "input": input_for(r, inst, n, style),
         "itype": itype(r), "n": N, "sid": r.randrange(10 ** 6),
         "route": r.choice(("direct", "direct", "simulator"))}
    d.update(kw)
    return d


def stall(r):
    return {"kind": "stall", "task": r.randrange(4), "secs": r.choice((1.0, 100.0, 5000.0))}


def gen_fault(r, pooled):
    """A fault that may make the operation fail."""
    line = int(10 ** r.uniform(0, 3.3))
    if pooled:
        k = r.choice(("pool_start", "task_raise", "task_raise", "worker_crash",
                      "interrupt", "interrupt", "interrupt_wait"))
        if k == "interrupt_wait":
            return {"kind": k, "event": r.choice((1, 2, 3, r.randrange(1, 20)))}
        if k == "pool_start":
            return {"kind": k}
        if k == "task_raise":
            return {"kind": k, "task": r.randrange(5), "line": line,
                    "exc": r.choice(("MemoryError", "OSError", "RuntimeError"))}
        if k == "worker_crash":
            return {"kind": k, "task": r.randrange(5),
                    "line": r.choice((0, line, 10 ** 9))}
        line = int(10 ** r.uniform(0, 2.2))
    return {"kind": "interrupt", "line": line,
            "exc": r.choice(("KeyboardInterrupt", "MemoryError"))}


def build(run, i):
    """Construct object i of the spec (once), as an operation."""
    if i not in run.objs:
        inst = run.spec["objs"][i]
        st, v = run.op({"op": "build:" + inst["kind"], "sid": -1 - i},
                       lambda: objs.make_strategy(inst))
        run.objs[i] = {"inst": inst, "s": v, "mat": gen.matrix(inst["mat"])}
    return run.objs[i]


def caller_matrix(run, op):
    """The matrix of an operation; equal ones are one object that the caller keeps."""
    kept = run.__dict__.setdefault("kept_matrices", {})
    key = repr((sorted(op["mat"].items()), op.get("mat_as", "ndarray")))
    if key not in kept:
        kept[key] = objs.make_matrix(op["mat"], op.get("mat_as", "ndarray"))
    return kept[key]


def gen_setm(r, j, inst, mmax, resize=0.35, types=None, lossy=False):
    """A matrix exchange, possibly to another size; inst["m"] is the size from then on."""
    if r.random() < resize:
        inst["m"] = r.randrange(1, mmax + 1)
    mat = gen.gen_matrix(r, inst["m"], types, lossy)
    old = inst.get("now", inst["mat"])
    if old["m"] == inst["m"] and r.random() < 0.3 and (lossy or not old.get("loss")):
        mat = gen.related_matrix(r, old, det=types is not None)
    inst["now"] = mat
    return {"op": "setm", "obj": j, "mat": mat,
            "mat_as": gen.gen_mat_as(r), "sid": r.randrange(10 ** 6)}


def do_setm(run, op):
    o = build(run, op["obj"])
    M = caller_matrix(run, op)
    st, v = run.op(op, lambda: o["s"].set_new_matrix(M))
    if st == "ok":
        o["mat"] = gen.matrix(op["mat"])
    return st


def do_sim(run, op, default_n=False):
    """Run a simulate operation; returns (status, samples or exception)."""
    o = build(run, op["obj"])
    s = objs.conv(op["input"], op["itype"])
    m = len(op["input"])
    if m != len(o["mat"]):
        raise seams.GaveUp("not an experiment")  # only while minimising
    run.kind(o["inst"]["kind"])
    st, v = run.op(op, lambda: objs.simulate(o["s"], s, op["n"], op.get("route", "direct")))
    if st == "ok":
        v = objs.norm_samples(v, m, op["n"])
        run.digest(v)
        run.stats["samples"] += len(v)
    return st, v


def is_unitary(A):
    return bool(np.allclose(A.conj().T @ A, np.eye(A.shape[1]), atol=1e-9))


def check_particles(o, op, samples):
    """Deterministic part of the particle-number law."""
    inst = o["inst"]
    kind = inst["kind"]
    n = sum(op["input"])
    unit = is_unitary(o["mat"])
    top = n
    exact = None
    if kind in gen.LOSSLESS:
        exact = n
    elif kind in ("LNET", "BOBS") and unit:
        exact = n
    elif kind == "FIXED":
        top = inst["left"]
        if unit:
            exact = inst["left"]
    elif kind in ("ULGCC", "ULGCCB", "ULBOBS") or (kind == "UNIF" and unit):
        if inst["eta"] == 1.0:
            exact = n
    if inst.get("eta") == 0.0:
        exact = 0
    for t in samples:
        k = sum(t)
        if k > top:
            raise Violation("particles", f"sample {t} has {k} particles, at most {top} "
                            f"are possible for input {op['input']}")
        if exact is not None and k != exact:
            raise Violation("particles", f"sample {t} has {k} particles instead of {exact} "
                            f"for input {op['input']}")


def share_starts(N, T):
    """Where the shares of T workers start, if N samples are split evenly."""
    T = max(1, T)
    starts, at = [], 0
    for j in range(T):
        starts.append(at)
        at += N // T + (1 if j < N % T else 0)
    return starts


def chunk_refs(samples, T, prev=None):
    """Copy bets: neighbour, same position in an earlier chunk, earlier call."""
    N = len(samples)
    T = max(1, T)
    sizes = [N // T + (1 if j < N % T else 0) for j in range(T)]
    starts = [sum(sizes[:j]) for j in range(T)]
    where = []
    for j, sz in enumerate(sizes):
        where += [(j, k) for k in range(sz)]
    even = -(-N // T) if N else 1
    refs = {"previous sample": lambda i: samples[i - 1] if i else None}
    if T > 1:
        refs["same place in the previous chunk"] = lambda i: (
            samples[starts[where[i][0] - 1] + where[i][1]]
            if where[i][0] and where[i][1] < sizes[where[i][0] - 1] else None)
        refs["lag ceil(N/T)"] = lambda i: samples[i - even] if i >= even else None
        refs["same place in the first chunk"] = lambda i: (
            samples[where[i][1]] if where[i][0] else None)
    if prev is not None:
        refs["same place in an earlier call"] = lambda i: prev[i] if i < len(prev) else None
    return refs


def threads_of(inst, cpu):
    T = inst.get("threads")
    if T is None:
        return 1
    return cpu if T < 1 or T > cpu else T


def check_law(run, o, op, samples, law=None, prev=None, more=None, cls="law",
              features=True, T=None):
    """Sequential test of the samples; may draw more (anytime-valid)."""
    if law is None:
        law = objs.law(o["inst"], op["input"], o["mat"])
    tot = sum(law.values())
    assert abs(tot - 1) < 1e-7, tot
    ep = stats.EProcess(law, features)
    if ep.nontrivial:
        run.stats["nontrivial"] = True
    if T is None:
        T = threads_of(o["inst"], run.wd.cpu)
    msg = ep.feed(samples, chunk_refs(samples, T, prev), share_starts(len(samples), T))
    rounds = 0
    while msg is None and more is not None and rounds < 5 and ep.mixture() > 3.0:
        extra = more()
        if extra is None:
            break
        run.wd.probe("extended_sampling")
        msg = ep.feed(extra, chunk_refs(extra, T, samples), share_starts(len(extra), T))
        rounds += 1
    run.stats["max_log_e"] = max(run.stats["max_log_e"], ep.max_log)
    if msg:
        raise Violation(cls, f"{o['inst']['kind']} with input {op['input']}: {msg}")
    return ep


def more_of(run, op):
    """Callable drawing as many samples again, with the same operation."""
    def f():
        op2 = {k: v for k, v in op.items() if k not in ("fault", "extreme")}
        op2["sid"] = op["sid"] + 1
        op2["n"] = min(4 * op["n"], 8000)
        st, v = do_sim(run, op2)
        return v if st == "ok" else None
    return f


def deterministic_outcome(inst, s, mat):
    """The only possible outcome, or None."""
    law = objs.law(inst, s, mat)
    top = max(law.items(), key=lambda kv: kv[1])
    return top[0] if top[1] > 1 - 1e-9 else None


def close_list(got, want, cls, what, tol=1e-8):
    try:
        got = [complex(x) for x in got]
    except (TypeError, ValueError):
        raise Violation(cls, f"{what}: not a list of numbers: {got!r}"[:300])
    if len(got) != len(want):
        raise Violation(cls, f"{what}: {len(got)} values instead of {len(want)}")
    for i, (a, b) in enumerate(zip(got, want)):
        if not abs(a - b) <= tol:
            raise Violation(cls, f"{what}: value {i} is {a.real:.10g}, expected {b:.10g}")
