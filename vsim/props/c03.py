"""C03: exact samplers draw from the exact boson sampling law."""
from .lawprop import *

RUNS = {"quick": 2600, "thorough": 52000}
RULE = ("A run builds one exact sampler (GCC, mode-assignment GCC, GCC-B, uniformly "
        "lossy GCC and GCC-B) with a random calculator, matrix and transmissivity, runs a "
        "history of calls and matrix exchanges on it and tests the samples of "
        "the judged calls sequentially against the law computed by polynomial "
        "evolution (alarm at e-value 1e12). Non-trivial: the law has more than one "
        "possible outcome.")
BUD = {"GCC": 3500, "MA": 3500, "ULGCC": 3500, "GCCB": 1500, "ULGCCB": 1800}
SZ = {"GCC": (5, 5), "MA": (4, 4), "ULGCC": (4, 4), "GCCB": (4, 4), "ULGCCB": (4, 4)}


def gen(r, tier, i):
    return gen_law(r, g.EXACT, SZ, BUD)


def run(run, spec):
    run_law(run, spec)
