"""C05: approximate samplers draw from the documented approximation."""
from .lawprop import *

RUNS = {"quick": 1300, "thorough": 26000}
RULE = ("A run builds an approximate sampler (fixed losses, uniform losses, BOBS and "
        "uniformly lossy BOBS at a random hierarchy level), runs a history of "
        "calls on it (pools, stalls, CPU counts) and tests the samples sequentially "
        "against the law of the documented approximation (alarm at e-value 1e12). "
        "Non-trivial: more than one possible outcome.")
BUD = {"FIXED": 6000, "UNIF": 2500, "BOBS": 1000, "ULBOBS": 1500}
SZ = {"FIXED": (5, 4), "UNIF": (4, 4), "BOBS": (3, 3), "ULBOBS": (4, 4)}


def gen(r, tier, i):
    return gen_law(r, ("FIXED", "UNIF", "BOBS", "ULBOBS", "ULBOBS"), SZ, BUD, approx=True)


def run(run, spec):
    run_law(run, spec)
