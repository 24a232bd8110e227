"""Build theboss objects from specs, through public constructors only."""
import importlib

import numpy as np

from . import gen, ref

S = "theboss.simulation_strategies."
P = "theboss.boson_sampling_utilities.permanent_calculators."
D = "theboss.distribution_calculators."


def mod(name):
    return importlib.import_module(name)


def conv(x, itype):
    if itype == "list":
        return [int(v) for v in x]
    if itype == "tuple":
        return tuple(int(v) for v in x)
    return np.array([int(v) for v in x], dtype=np.int32 if itype == "int32" else np.int64)


def make_matrix(d, mat_as="ndarray"):
    U = gen.matrix(d)
    if mat_as == "list":
        return [[complex(v) for v in row] for row in U]
    if mat_as == "tuple":
        return tuple(tuple(complex(v) for v in row) for row in U)
    if mat_as == "fortran":
        return np.asfortranarray(U)
    if mat_as == "view":
        big = np.full((2 * len(U), len(U) + 3), 7.0 + 3j)
        big[::2, 1:-2] = U
        return big[::2, 1:-2]
    if mat_as == "real" and not U.imag.any():
        return np.ascontiguousarray(U.real)
    return U


def make_pc(name, matrix, inp=None, out=None):
    f = mod(P + "bs_permanent_calculator_factory")
    return f.BSPermanentCalculatorFactory(
        matrix, inp, out, getattr(f.PermanentCalculatorType, name)
    ).generate_calculator()


def make_inst_pc(inst, matrix):
    """The permanent calculator for a sampler; `bare`: without states, as constructed,
    or with those of an earlier experiment."""
    if inst.get("bare") == "stale":
        return make_pc(inst["pc"], matrix, [1] * (inst["m"] + 1), [1] * (inst["m"] + 1))
    if inst.get("bare"):
        return make_pc(inst["pc"], matrix)
    return make_pc(inst["pc"], matrix, [0] * inst["m"], [0] * inst["m"])


def make_config(matrix, s, m, left=None, eta=1.0, k=0):
    c = mod(D + "bs_distribution_calculator_interface")
    n = int(sum(s))
    left = n if left is None else left
    return c.BosonSamplingExperimentConfiguration(
        interferometer_matrix=matrix, initial_state=s,
        initial_number_of_particles=n, number_of_modes=m,
        number_of_particles_lost=n - left, number_of_particles_left=left,
        uniform_transmissivity=eta, hierarchy_level=k)


FTYPE = {"GCC": "GCC", "LNET": "LOSSY_NET_GCC", "ULGCC": "UNIFORM_LOSSES_GCC",
         "BOBS": "BOBS", "ULBOBS": "UNIFORM_LOSSES_BOBS", "FIXED": "FIXED_LOSS",
         "UNIF": "UNIFORM_LOSS"}


def make_net(name, matrix):
    if name is None:
        return None
    N = "theboss.network_simulation_strategy."
    if name == "lossy":
        return mod(N + "lossy_network_simulation_strategy"
                   ).LossyNetworkSimulationStrategy(matrix)
    return mod(N + "lossless_network_simulation_strategy"
               ).LosslessNetworkSimulationStrategy(matrix)


def make_factory(inst, matrix=None, pc=None):
    m, kind = inst["m"], inst["kind"]
    if matrix is None:
        matrix = make_matrix(inst["mat"], inst.get("mat_as", "ndarray"))
    n = inst.get("n", 0)
    s = [1] * n + [0] * (m - n) if n <= m else [n] + [0] * (m - 1)
    s0 = [0] * m if kind != "FIXED" else s
    cfg = make_config(matrix, s0, m, inst.get("left"), inst.get("eta", 1.0),
                      inst.get("k", 0))
    if inst.get("net"):
        cfg.network_simulation_strategy = make_net(inst["net"], matrix)
    if pc is None:
        pc = make_inst_pc(inst, matrix)
    f = mod(S + "simulation_strategy_factory")
    fac = f.SimulationStrategyFactory(cfg, pc, getattr(f.StrategyType, FTYPE[kind]))
    if "threads" in inst:
        fac.available_threads_number = inst["threads"]
    return fac


def make_strategy(inst, matrix=None, pc=None):
    """The strategy object of an instance spec."""
    kind, m = inst["kind"], inst["m"]
    if inst.get("via") == "factory":
        return make_factory(inst, matrix, pc).generate_strategy()
    if matrix is None:
        matrix = make_matrix(inst["mat"], inst.get("mat_as", "ndarray"))
    if kind == "FIXED":
        return mod(S + "fixed_loss_simulation_strategy").FixedLossSimulationStrategy(
            matrix, inst["left"], m, make_net(inst.get("net"), matrix))
    if kind == "UNIF":
        return mod(S + "uniform_loss_simulation_strategy").UniformLossSimulationStrategy(
            matrix, m, inst["eta"])
    if pc is None:
        pc = make_inst_pc(inst, matrix)
    if kind == "GCC":
        return mod(S + "generalized_cliffords_simulation_strategy"
                   ).GeneralizedCliffordsSimulationStrategy(pc)
    if kind == "MA":
        return mod(S + "mode_assignment_generalized_cliffords_simulation_strategy"
                   ).ModeAssignmentGeneralizedCliffordsSimulationStrategyInterface(pc)
    if kind == "GCCB":
        return mod(S + "generalized_cliffords_b_simulation_strategy"
                   ).GeneralizedCliffordsBSimulationStrategy(pc)
    if kind == "ULGCC":
        return mod(S + "generalized_cliffords_uniform_losses_simulation_strategy"
                   ).GeneralizedCliffordsUniformLossesSimulationStrategy(pc, inst["eta"])
    if kind == "ULGCCB":
        return mod(S + "generalized_cliffords_b_uniform_losses_simulation_strategy"
                   ).GeneralizedCliffordsBUniformLossesSimulationStrategy(pc, inst["eta"])
    if kind == "LNET":
        return mod(S + "lossy_networks_generalized_cliffords_simulation_strategy"
                   ).LossyNetworksGeneralizedCliffordsSimulationStrategy(pc)
    if kind == "BOBS":
        return mod(S + "nonuniform_losses_approximation_strategy"
                   ).NonuniformLossesApproximationStrategy(pc, m - inst["k"], inst["threads"])
    if kind == "ULBOBS":
        return mod(S + "lossy_state_approximated_simulation_strategy"
                   ).LossyStateApproximationSimulationStrategy(
            pc, inst["eta"], inst["k"], inst["threads"])
    raise ValueError(kind)


def simulate(strategy, s, n, route="direct"):
    if route == "simulator":
        sim = mod("theboss.boson_sampling_simulator").BosonSamplingSimulator(strategy)
        return sim.get_classical_simulation_results(s, n)
    return strategy.simulate(s, n)


def law(inst, s, mat=None):
    """Reference law of the samples of an instance for the input s."""
    A = gen.matrix(inst["mat"]) if mat is None else mat
    kind = inst["kind"]
    s = [int(x) for x in s]
    if kind in ("GCC", "MA", "GCCB"):
        return ref.lossless(A, s)
    if kind in ("ULGCC", "ULGCCB"):
        return ref.uniform_losses(A, s, inst["eta"])
    if kind == "LNET":
        return ref.Net(A).law(s)
    if kind == "BOBS":
        return ref.bobs(A, s, inst["m"] - inst["k"])
    if kind == "ULBOBS":
        return ref.ul_bobs(A, s, inst["eta"], inst["k"])
    if kind == "FIXED":
        return ref.fixed(A, sum(s), inst["left"])
    if kind == "UNIF":
        return ref.uniform(A, sum(s), inst["eta"])
    raise ValueError(kind)


class Bad(Exception):
    """The observed behaviour breaks the property."""


def norm_samples(res, m, n_expected=None):
    """Check the shape of a list of samples; return tuples of ints."""
    try:
        lst = list(res)
    except TypeError:
        raise Bad(f"result is not a sequence: {type(res).__name__}")
    if n_expected is not None and len(lst) != n_expected:
        raise Bad(f"{len(lst)} samples returned, {n_expected} requested")
    out = []
    for x in lst:
        try:
            t = tuple(x)
        except TypeError:
            raise Bad(f"sample is not a sequence: {x!r}")
        if len(t) != m:
            raise Bad(f"sample {t} does not have {m} modes")
        if all(type(v) is int and v >= 0 for v in t):
            out.append(t)
            continue
        o = []
        for v in t:
            if isinstance(v, np.integer) and v >= 0:
                o.append(int(v))
                continue
            try:
                c = complex(v)
            except (TypeError, ValueError):
                raise Bad(f"sample {t} has a non-number")
            if not (c == c and abs(c) < 1e15) or c.imag != 0 or c.real != int(c.real):
                raise Bad(f"sample {t} has a non-integer occupation")
            if c.real < 0:
                raise Bad(f"sample {t} has a negative occupation")
            o.append(int(c.real))
        out.append(tuple(o))
    return out


def make_sub(name, matrix, s=None, t=None):
    """The calculators of all the submatrices' permanents."""
    if name == "ch":
        return mod(P + "bs_cc_ch_submatrices_permanent_calculator"
                   ).BSCCCHSubmatricesPermanentCalculator(matrix, s, t)
    return mod(P + "bs_cc_ryser_submatrices_permanent_calculator"
               ).BSCCRyserSubmatricesPermanentCalculator(matrix, s, t)
