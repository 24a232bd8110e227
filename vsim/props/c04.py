"""C04: lossy networks are sampled exactly."""
from .lawprop import *

RUNS = {"quick": 1200, "thorough": 24000}
RULE = ("A run builds the exact lossy-network sampler, or the nonuniform-loss sampler "
        "with nothing approximated, for a random sub-unitary matrix (uniform, "
        "input, output and middle losses, fully opaque and fully transparent modes), runs "
        "a history on it and tests the samples sequentially against the law of the "
        "network as an isometry into environment modes (alarm at e-value 1e12). "
        "Non-trivial: more than one possible outcome.")
BUD = {"LNET": 1600, "BOBS": 1100}
SZ = {"LNET": (4, 3), "BOBS": (3, 3)}


def gen(r, tier, i):
    return gen_law(r, ("LNET", "LNET", "BOBS"), SZ, BUD, full=True)


def run(run, spec):
    run_law(run, spec)
