"""Anytime-valid decision whether a sample sequence follows a known law.

Under the null (every sample, given all the past ones, has exactly the law
P0) the mixture below is a non-negative martingale starting at 1, so by
Ville's inequality it ever exceeds 1e12 with probability at most 1e-12.
"""
import math

LOG_ALARM = math.log(1e12)
P_IMPOSSIBLE = 1e-11
SHARE_ALPHAS = (3.0, 12.0, 50.0)


class Polya:
    """Bets that the frequencies drift away from p (Polya urn centred on p)."""
    __slots__ = ("alphas", "p", "c", "t", "logs")

    def __init__(self, p, alphas=(30.0, 300.0, 3000.0)):
        self.p = p
        self.alphas = alphas
        self.c = {}
        self.t = 0
        self.logs = [0.0] * len(alphas)

    def update(self, x):
        p = self.p[x]
        c = self.c.get(x, 0)
        r = c / p
        t = self.t
        lg = self.logs
        for i, a in enumerate(self.alphas):
            lg[i] += math.log((a + r) / (a + t))
        self.c[x] = c + 1
        self.t = t + 1

    def restart(self):
        """Forget the frequencies, keep the winnings."""
        self.c = {}
        self.t = 0


class Copy:
    """Bets that a sample repeats an earlier one (the `ref` given)."""
    __slots__ = ("eps", "log")

    def __init__(self, eps):
        self.eps = eps
        self.log = 0.0

    def update(self, x, ref, p):
        e = self.eps
        self.log += math.log((1 - e) + (e / p if x == ref else 0.0))


class EProcess:
    """Sequential test of one instance; feed() returns a message or None."""

    def __init__(self, law, features=True):
        self.law = {k: v for k, v in law.items() if v >= P_IMPOSSIBLE}
        tot = sum(self.law.values())
        self.law = {k: v / tot for k, v in self.law.items()}
        self.n = 0
        self.feats = []
        if features:
            m = len(next(iter(self.law)))
            fs = [("particles", sum), ("modes_hit", lambda k: sum(1 for x in k if x))]
            for i in range(m):
                fs.append((f"mode{i}", lambda k, i=i: k[i]))
            for name, f in fs:
                tab = {k: f(k) for k in self.law}
                p = {}
                for k, v in self.law.items():
                    p[tab[k]] = p.get(tab[k], 0.0) + v
                if len(p) > 1:
                    self.feats.append((name, tab, Polya(p)))
        self.full = Polya(self.law)
        # Restarted with every share: bets on what the samples of a share have in common.
        self.share = [("share", None, Polya(self.law, SHARE_ALPHAS))]
        for name, tab, po in self.feats:
            if name == "modes_hit":
                self.share.append(("share_modes_hit", tab, Polya(po.p, SHARE_ALPHAS)))
        self.copies = {}
        self.max_log = 0.0
        self.nontrivial = len(self.law) > 1

    def _experts(self):
        for lg in self.full.logs:
            yield "law", lg
        for name, _, po in self.feats:
            for lg in po.logs:
                yield name, lg
        for name, _, po in self.share:
            for lg in po.logs:
                yield name, lg
        for (name, _), c in self.copies.items():
            yield name, c.log

    def mixture(self):
        es = [lg for _, lg in self._experts()]
        # A fixed budget of 200 experts: ones not used keep their value 1.
        mx = max(es + [0.0])
        s = sum(math.exp(lg - mx) for lg in es) + (200 - len(es)) * math.exp(-mx)
        return mx + math.log(s / 200.0)

    def feed(self, samples, refs=None, starts=()):
        """refs: {name: callable(i) -> earlier sample or None} for copy bets;
        starts: indices at which a new share begins."""
        refs = refs or {}
        starts = set(starts) | {0}
        for name in refs:
            for eps in (0.05, 0.3):
                self.copies.setdefault((name, eps), Copy(eps))
        for i, x in enumerate(samples):
            p = self.law.get(x)
            if p is None:
                return f"outcome {x} has probability < 1e-11 (sample {self.n})"
            self.full.update(x)
            for _, tab, po in self.share:
                if i in starts:
                    po.restart()
                po.update(x if tab is None else tab[x])
            for _, tab, po in self.feats:
                po.update(tab[x])
            for name, f in refs.items():
                r = f(i)
                if r is not None:
                    self.copies[(name, 0.05)].update(x, r, p)
                    self.copies[(name, 0.3)].update(x, r, p)
            self.n += 1
            if self.n % 64 == 0 or i == len(samples) - 1:
                lg = self.mixture()
                self.max_log = max(self.max_log, lg)
                if lg > LOG_ALARM:
                    name, best = max(self._experts(), key=lambda z: z[1])
                    return (f"samples do not follow the expected law: e-value "
                            f"exp({lg:.1f}) after {self.n} samples, best bet "
                            f"'{name}' exp({best:.1f})")
        return None
