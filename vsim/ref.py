"""Reference laws of boson sampling, independent of theboss.

No permanents: the input Fock state is evolved as a polynomial in creation
operators, one operator at a time.  Loss is an isometry into extra modes that
are summed out.
"""
import itertools
from functools import lru_cache
from math import comb, factorial

import numpy as np


def isometry(A):
    """[A; sqrt(I - A^dagger A)] without the rows that are zero."""
    A = np.asarray(A, dtype=complex)
    m = A.shape[1]
    ev, W = np.linalg.eigh(np.eye(m) - A.conj().T @ A)
    rows = [np.sqrt(e) * W[:, i].conj() for i, e in enumerate(ev) if e > 1e-13]
    if not rows:
        return A
    return np.vstack([A] + rows)


def _evolve(V, s, trim):
    """Distribution over the first `trim` modes of V applied to |s>."""
    M = V.shape[0]
    amp = {(0,) * M: 1.0 + 0j}
    for j, sj in enumerate(s):
        col = V[:, j]
        nz = [i for i in range(M) if col[i] != 0]
        for _ in range(sj):
            new = {}
            for occ, a in amp.items():
                for i in nz:
                    o = occ[:i] + (occ[i] + 1,) + occ[i + 1:]
                    new[o] = new.get(o, 0) + a * col[i]
            amp = new
    norm = 1.0
    for sj in s:
        norm *= factorial(sj)
    out = {}
    for occ, a in amp.items():
        p = abs(a) ** 2 / norm
        for t in occ:
            p *= factorial(t)
        k = occ[:trim]
        out[k] = out.get(k, 0.0) + p
    return out


class Net:
    """Law of a (lossy) network, cached per input."""

    def __init__(self, A):
        self.A = np.asarray(A, dtype=complex)
        self.m = self.A.shape[0]
        self.V = isometry(self.A)
        self.cache = {}

    def law(self, s):
        s = tuple(int(x) for x in s)
        if s not in self.cache:
            self.cache[s] = _evolve(self.V, s, self.m)
        return self.cache[s]


def mix(pairs):
    out = {}
    for w, law in pairs:
        if w == 0:
            continue
        for k, p in law.items():
            out[k] = out.get(k, 0.0) + w * p
    return out


def compositions(n, bins):
    if bins == 0:
        if n == 0:
            yield ()
        return
    if bins == 1:
        yield (n,)
        return
    for i in range(n + 1):
        for r in compositions(n - i, bins - 1):
            yield (i,) + r


def spread(n, bins):
    """n particles put independently and uniformly into bins."""
    for c in compositions(n, bins):
        wgt = factorial(n) / (bins ** n)
        for x in c:
            wgt /= factorial(x)
        yield wgt, c


def lossless(U, s):
    return Net(U).law(s)


def uniform_losses(U, s, eta):
    return Net(np.sqrt(eta) * np.asarray(U)).law(s)


def bobs(A, s, a):
    """First a input modes approximated."""
    s = tuple(s)
    net = Net(A)
    if a == 0:
        return net.law(s)
    return mix((wgt, net.law(c + s[a:])) for wgt, c in spread(sum(s[:a]), a))


def ul_bobs(U, s, eta, k):
    """Last m - k input modes approximated; symmetrised over exchanges of
    equally occupied input modes."""
    s = tuple(s)
    m = len(s)
    net = Net(np.sqrt(eta) * np.asarray(U))
    groups = {}
    for j, x in enumerate(s):
        groups.setdefault(x, []).append(j)
    gl = list(groups.values())
    perms = []
    for choice in itertools.product(*[itertools.permutations(g) for g in gl]):
        pi = [0] * m
        for g, c in zip(gl, choice):
            for a, b in zip(g, c):
                pi[a] = b
        perms.append(pi)
    eff = {}
    pats = [(1.0, s)] if k >= m else [
        (wgt, s[:k] + c) for wgt, c in spread(sum(s[k:]), m - k)]
    for wgt, t in pats:
        for pi in perms:
            e = [0] * m
            for j in range(m):
                e[pi[j]] += t[j]
            e = tuple(e)
            eff[e] = eff.get(e, 0.0) + wgt / len(perms)
    return mix((wgt, net.law(e)) for e, wgt in eff.items())


def fixed(A, n, left):
    """`left` particles smeared over the first n modes of the network."""
    net = Net(A)
    m = net.m
    if left == 0:
        return net.law((0,) * m)
    return mix((wgt, net.law(c + (0,) * (m - n))) for wgt, c in spread(left, n))


def uniform(A, n, eta):
    return mix((comb(n, l) * eta ** l * (1 - eta) ** (n - l), fixed(A, n, l))
               for l in range(n + 1))


def permanent(M):
    """Permanent by expansion over rows with subset dynamic programming."""
    M = np.asarray(M, dtype=complex)
    n = M.shape[0]
    if n == 0:
        return 1.0 + 0j
    dp = {0: 1.0 + 0j}
    for i in range(n):
        new = {}
        for mask, v in dp.items():
            for j in range(n):
                b = 1 << j
                if not mask & b:
                    new[mask | b] = new.get(mask | b, 0) + v * M[i, j]
        dp = new
    return dp[(1 << n) - 1]


def amplitude(U, s, t):
    """Permanent of the scattering matrix, by expansion of a polynomial."""
    U = np.asarray(U, dtype=complex)
    m = len(t)
    amp = {(0,) * m: 1.0 + 0j}
    for j, sj in enumerate(s):
        for _ in range(int(sj)):
            new = {}
            for occ, a in amp.items():
                for i in range(m):
                    if occ[i] < t[i]:
                        o = occ[:i] + (occ[i] + 1,) + occ[i + 1:]
                        new[o] = new.get(o, 0) + a * U[i, j]
            amp = new
    v = amp.get(tuple(int(x) for x in t), 0.0)
    for x in t:
        v *= factorial(int(x))
    return v


def scattering(U, s, t):
    """Rows repeated by the output t, columns by the input s."""
    U = np.asarray(U, dtype=complex)
    cols = [j for j, x in enumerate(s) for _ in range(int(x))]
    rows = [i for i, x in enumerate(t) for _ in range(int(x))]
    return U[np.ix_(rows, cols)] if rows and cols else np.zeros((0, 0), complex)


def states(n, m):
    """All m-mode states of n particles, in decreasing lexicographic order."""
    return sorted(compositions(n, m), reverse=True)


def lossy_states(n, m):
    return [t for l in range(n + 1) for t in states(l, m)]
