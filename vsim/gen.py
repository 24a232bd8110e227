"""Seeded generation of experiments (matrices, inputs, strategies)."""
import math

import numpy as np

EXACT = ("GCC", "MA", "GCCB", "ULGCC", "ULGCCB")
NETS = ("LNET", "BOBS_FULL")
APPROX = ("FIXED", "UNIF", "BOBS", "ULBOBS")
LOSSLESS = ("GCC", "MA", "GCCB")
POOLED = ("BOBS", "ULBOBS")
FACTORY = {"GCC", "LNET", "ULGCC", "BOBS", "ULBOBS", "FIXED", "UNIF"}
CALCS = ("CLASSIC", "GLYNN", "CHIN_HUH", "RYSER")


def matrix(d):
    """d: {"type", "m", "seed", ...} -> ndarray"""
    m, t = d["m"], d["type"]
    rng = np.random.Generator(np.random.PCG64(d.get("seed", 0)))

    def haar(k):
        z = rng.normal(size=(k, k)) + 1j * rng.normal(size=(k, k))
        q, r = np.linalg.qr(z)
        return q * (np.diag(r) / abs(np.diag(r)))
    if t == "haar":
        U = haar(m)
    elif t == "identity":
        U = np.eye(m, dtype=complex)
    elif t == "perm":
        U = np.eye(m, dtype=complex)[rng.permutation(m)]
    elif t == "dft":
        w = np.exp(2j * np.pi / m)
        U = np.array([[w ** (i * j) for j in range(m)] for i in range(m)]) / math.sqrt(m)
    elif t == "real":
        q, r = np.linalg.qr(rng.normal(size=(m, m)))
        U = (q * np.sign(np.diag(r))).astype(complex)
    elif t == "block":
        U = np.eye(m, dtype=complex)
        i = 0
        while i < m:
            k = min(int(rng.integers(1, 4)), m - i)
            U[i:i + k, i:i + k] = haar(k)
            i += k
    else:
        raise ValueError(t)
    loss = d.get("loss")
    if loss:
        if loss == "uniform":
            U = U * math.sqrt(d["eta"])
        elif loss == "input":
            U = U @ np.diag(np.sqrt(d["t"]))
        elif loss == "output":
            U = np.diag(np.sqrt(d["t"])) @ U
        elif loss == "middle":
            U = haar(m) @ np.diag(np.sqrt(d["t"])) @ U
        else:
            raise ValueError(loss)
    for how, *a in d.get("twist", ()):
        if how == "T":
            U = U.T.copy()
        elif how == "rows":
            U = U[np.random.Generator(np.random.PCG64(a[0])).permutation(m)]
        elif how == "cols":
            U = U[:, np.random.Generator(np.random.PCG64(a[0])).permutation(m)]
        elif how == "turn":  # a beam splitter in front, which may change little
            i, j, x = a
            V = np.eye(m, dtype=complex)
            V[i, i] = V[j, j] = math.cos(x)
            V[i, j], V[j, i] = math.sin(x), -math.sin(x)
            U = U @ V
        elif how == "phase":  # the same moduli for a Fourier matrix of 4 modes
            U = U * np.exp(1j * a[0] * (np.outer([0, 1, 0, 1], [0, 1, 0, 1])))
    return U


def gen_mat_as(r):
    """How the caller holds its matrix."""
    return r.choice(("ndarray", "ndarray", "ndarray", "list", "list", "tuple", "fortran",
                     "view", "real"))


def steps(r, choices, long=0.03):
    """How many operations; now and then many."""
    return r.randrange(10, 26) if r.random() < long else r.choice(choices)


def related_matrix(r, d, det=False):
    """A matrix that is easily taken for d: a rearrangement, or almost the same."""
    m = d["m"]
    d = dict(d, twist=list(d.get("twist", ())))
    if m == 4 and d["type"] == "dft" and not d.get("loss") and not d["twist"]:
        d["twist"] = [["phase", round(r.uniform(0.5, 2.5), 3)]]
        return d
    kinds = ["T", "rows", "cols"] + ["turn", "turn"] * (m > 1 and not det)
    how = r.choice(kinds)
    if how == "turn":
        i, j = r.sample(range(m), 2)
        d["twist"].append(["turn", i, j, round(r.choice((-1, 1)) * 10 ** r.uniform(-1.5, 0), 4)])
    elif how == "T":
        d["twist"].append(["T"])
    else:
        d["twist"].append([how, r.randrange(1000)])
    return d


def gen_matrix(r, m, types=None, lossy=None):
    """r: random.Random."""
    types = types or ("haar", "haar", "haar", "dft", "real", "block", "perm", "identity")
    d = {"type": r.choice(types), "m": m, "seed": r.randrange(10 ** 6)}
    if lossy:
        d["loss"] = r.choice(("uniform", "input", "output", "middle"))
        if d["loss"] == "uniform":
            d["eta"] = round(r.uniform(0.1, 0.95), 3) if r.random() < 0.95 else 0.0
        else:
            t = [round(r.uniform(0.05, 1.0), 3) for _ in range(m)]
            if r.random() < 0.3:
                t[r.randrange(m)] = 0.0
            if r.random() < 0.4:
                t[r.randrange(m)] = 1.0
            if r.random() < 0.15:  # almost opaque, but not quite
                t[r.randrange(m)] = round(10 ** r.uniform(-2.5, -1.3), 4)
            if max(t) == 0.0 and r.random() < 0.7:
                t[0] = 0.5
            d["t"] = t
    return d


def gen_input(r, m, n, style=None):
    style = style or r.choice(("std", "spread", "bunched", "any", "one_mode"))
    s = [0] * m
    if style == "std" and n <= m:
        for i in range(n):
            s[i] = 1
    elif style == "spread" and n <= m:
        for i in r.sample(range(m), n):
            s[i] = 1
    elif style == "one_mode":
        s[r.randrange(m)] = n
    elif style == "bunched":
        k = r.randrange(1, m + 1)
        modes = r.sample(range(m), k)
        for _ in range(n):
            s[r.choice(modes)] += 1
    else:
        for _ in range(n):
            s[r.randrange(m)] += 1
    return s


def gen_eta(r):
    if r.random() < 0.06:  # almost everything is lost, or almost nothing
        return r.choice((0.004, 0.01, 0.02, 0.98, 0.99, 0.996))
    return r.choice((0.0, 1.0, 0.5, round(r.random(), 3), round(r.random(), 3),
                     round(r.uniform(0.6, 0.99), 3)))


def gen_inst(r, kind, m, n, types=None):
    """One strategy instance (without the inputs it will be given)."""
    d = {"kind": kind, "m": m, "pc": r.choice(CALCS),
         "via": "factory" if kind in FACTORY and r.random() < 0.4 else "direct",
         "mat_as": gen_mat_as(r)}
    if r.random() < 0.15:
        d["bare"] = r.choice((True, "stale"))
    lossy = kind in ("LNET", "BOBS") and r.random() < 0.8
    lossy = lossy or (kind in ("FIXED", "UNIF") and r.random() < 0.5)
    d["mat"] = gen_matrix(r, m, types, lossy)
    if kind in ("ULGCC", "ULGCCB", "ULBOBS", "UNIF"):
        d["eta"] = gen_eta(r)
    if kind in ("BOBS", "ULBOBS"):
        d["k"] = r.randrange(0, m + 1)
        d["threads"] = r.choice((-1, -1, 0, 1, 2, 3, 5, 8, 64))
    if kind == "FIXED":
        d["n"] = n
        d["left"] = r.randrange(0, n + 1)
        d["net"] = r.choice((None, None, "lossy", "lossless"))
    return d


def n_modes_limit(kind):
    return {"BOBS": 3, "LNET": 3, "ULBOBS": 4}.get(kind, 5)
