"""Thin access layer to the public interface of the code under test."""
import importlib
import math
import numbers

import numpy as np

from vp.core import Violation

_PC = "theboss.boson_sampling_utilities.permanent_calculators."
_SS = "theboss.simulation_strategies."


def _get(mod, name):
    return getattr(importlib.import_module(mod), name)


def utils():
    return importlib.import_module("theboss.boson_sampling_utilities.boson_sampling_utilities")


def qcu():
    return importlib.import_module("theboss.quantum_computations_utilities")


CALCS = {
    "classic": (_PC + "classic_permanent_calculator", "ClassicPermanentCalculator", "CLASSIC"),
    "glynn": (_PC + "glynn_gray_permanent_calculator", "GlynnGrayPermanentCalculator", "GLYNN"),
    "chinhuh": (_PC + "chin_huh_permanent_calculator", "ChinHuhPermanentCalculator", "CHIN_HUH"),
    "ryser": (_PC + "ryser_permanent_calculator", "RyserPermanentCalculator", "RYSER"),
}
CALC_NAMES = ["ryser", "chinhuh", "glynn", "classic"]


def calc(name, matrix, s=None, t=None, via="class"):
    mod, cls, _ = CALCS[name]
    if via == "class":
        return _get(mod, cls)(matrix, s, t)
    return calc_factory(name, matrix, s, t).generate_calculator()


def calc_factory(name, matrix, s, t):
    """name None: the type is left to the factory's default."""
    f = importlib.import_module(_PC + "bs_permanent_calculator_factory")
    if name is None:
        return f.BSPermanentCalculatorFactory(matrix, s, t)
    return f.BSPermanentCalculatorFactory(matrix, s, t, getattr(f.PermanentCalculatorType, CALCS[name][2]))


def subcalc(name, matrix, s=None, t=None):
    if name == "ch":
        c = _get(_PC + "bs_cc_ch_submatrices_permanent_calculator", "BSCCCHSubmatricesPermanentCalculator")
    else:
        c = _get(_PC + "bs_cc_ryser_submatrices_permanent_calculator", "BSCCRyserSubmatricesPermanentCalculator")
    return c(matrix, s, t)


def config(matrix, s, left=None, eta=1.0, level=0, network=None):
    c = _get("theboss.distribution_calculators.bs_distribution_calculator_interface", "BosonSamplingExperimentConfiguration")
    n = int(sum(s))
    left = n if left is None else left
    return c(
        interferometer_matrix=matrix,
        initial_state=s,
        initial_number_of_particles=n,
        number_of_modes=len(s),
        number_of_particles_lost=n - left,
        number_of_particles_left=left,
        uniform_transmissivity=eta,
        network_simulation_strategy=network,
        hierarchy_level=level,
    )


def fixed_dist(cfg, pc):
    return _get("theboss.distribution_calculators.bs_distribution_calculator_with_fixed_losses", "BSDistributionCalculatorWithFixedLosses")(cfg, pc)


def uniform_dist(cfg, pc):
    return _get("theboss.distribution_calculators.bs_exact_distribution_with_uniform_losses", "BSDistributionCalculatorWithUniformLosses")(cfg, pc)


def sample_dist(*a, **k):
    return _get("theboss.distribution_calculators.bs_sample_based_distribution_calculator", "BSSampleBasedDistributionCalculator")(*a, **k)


def simulator(strategy):
    return _get("theboss.boson_sampling_simulator", "BosonSamplingSimulator")(strategy)


def network(kind, matrix):
    if kind == "lossy":
        return _get("theboss.network_simulation_strategy.lossy_network_simulation_strategy", "LossyNetworkSimulationStrategy")(matrix)
    return _get("theboss.network_simulation_strategy.lossless_network_simulation_strategy", "LosslessNetworkSimulationStrategy")(matrix)


def factory():
    return importlib.import_module(_SS + "simulation_strategy_factory")


def gcc(pc):
    return _get(_SS + "generalized_cliffords_simulation_strategy", "GeneralizedCliffordsSimulationStrategy")(pc)


def gcc_ma(pc):
    return _get(_SS + "mode_assignment_generalized_cliffords_simulation_strategy", "ModeAssignmentGeneralizedCliffordsSimulationStrategyInterface")(pc)


def gccb(pc):
    return _get(_SS + "generalized_cliffords_b_simulation_strategy", "GeneralizedCliffordsBSimulationStrategy")(pc)


def ugcc(pc, eta):
    return _get(_SS + "generalized_cliffords_uniform_losses_simulation_strategy", "GeneralizedCliffordsUniformLossesSimulationStrategy")(pc, eta)


def ugccb(pc, eta):
    return _get(_SS + "generalized_cliffords_b_uniform_losses_simulation_strategy", "GeneralizedCliffordsBUniformLossesSimulationStrategy")(pc, eta)


def lossynet(pc):
    return _get(_SS + "lossy_networks_generalized_cliffords_simulation_strategy", "LossyNetworksGeneralizedCliffordsSimulationStrategy")(pc)


def bobs(pc, approximated, threads=1):
    return _get(_SS + "nonuniform_losses_approximation_strategy", "NonuniformLossesApproximationStrategy")(pc, approximated, threads)


def ubobs(pc, eta, level, threads=1):
    return _get(_SS + "lossy_state_approximated_simulation_strategy", "LossyStateApproximationSimulationStrategy")(pc, eta, level, threads)


def fixed_loss(matrix, left, modes, net=None):
    return _get(_SS + "fixed_loss_simulation_strategy", "FixedLossSimulationStrategy")(matrix, left, modes, net)


def uniform_loss(matrix, modes, eta):
    return _get(_SS + "uniform_loss_simulation_strategy", "UniformLossSimulationStrategy")(matrix, modes, eta)


# ------------------------------------------------------------- normalisation
def need(cond, text):
    if not cond:
        raise Violation(text)


def as_int(x, what):
    try:
        if isinstance(x, (bool, np.bool_)) or isinstance(x, str):
            raise TypeError
        v = float(x)
    except Exception:
        raise Violation("%s: %r is not a number" % (what, x))
    if not (v == math.floor(v)) or math.isinf(v):
        raise Violation("%s: %r is not an integer" % (what, x))
    return int(v)


def as_int_exact(x, what):
    """An integer that is exact, however large: a float is accepted only while floats
    still represent every integer."""
    if isinstance(x, numbers.Integral) and not isinstance(x, bool):
        return int(x)
    v = as_int(x, what)
    if abs(v) > 2 ** 53:
        raise Violation("%s: %r is not an exact integer" % (what, x))
    return v


def as_state(s, m, what="sample"):
    """An occupation tuple of length m of non-negative integers."""
    try:
        items = list(s)
    except TypeError:
        raise Violation("%s: %r is not a sequence" % (what, s))
    if len(items) != m:
        raise Violation("%s: %r has %d entries, expected %d modes" % (what, s, len(items), m))
    out = tuple(as_int(x, what) for x in items)
    if min(out, default=0) < 0:
        raise Violation("%s: %r has a negative occupation" % (what, s))
    return out


def as_samples(res, m, count, what="simulate"):
    try:
        res = list(res)
    except TypeError:
        raise Violation("%s returned %r instead of a list of samples" % (what, res))
    if len(res) != count:
        raise Violation("%s returned %d samples, %d were requested" % (what, len(res), count))
    return [as_state(s, m) for s in res]


def as_probs(res, count, what):
    try:
        res = [x for x in res]
    except TypeError:
        raise Violation("%s returned %r instead of a list of probabilities" % (what, res))
    if len(res) != count:
        raise Violation("%s returned %d entries, expected %d" % (what, len(res), count))
    out = []
    for x in res:
        try:
            c = complex(x)
        except Exception:
            raise Violation("%s: %r is not a number" % (what, x))
        if abs(c.imag) > 1e-9 or c.real != c.real:
            raise Violation("%s: %r is not a probability" % (what, x))
        out.append(c.real)
    return out


def as_complex(x, what):
    try:
        v = complex(x)
    except Exception:
        raise Violation("%s: %r is not a complex number" % (what, x))
    if v != v:
        raise Violation("%s: NaN" % what)
    return v


def as_array(x, shape, what):
    try:
        a = np.asarray(x, dtype=complex)
    except Exception:
        raise Violation("%s: %r is not a numeric array" % (what, x))
    if a.shape != tuple(shape):
        raise Violation("%s has shape %s, expected %s" % (what, a.shape, tuple(shape)))
    if not np.all(np.isfinite(a)):
        raise Violation("%s contains non-finite entries" % what)
    return a


def draw_with(strategy, state, m, batches="one"):
    """-> draw(k) for stats.gof; batches controls how many samples each call asks for."""

    def draw(k):
        if batches == "one":
            return as_samples(strategy.simulate(state, k), m, k)
        size = {"single": 1, "few": 7}[batches]
        # the many-small-calls pattern for a part of the samples only (speed)
        out = []
        quota = min(max(1, k // 4), 400) if size == 1 else min(k, 1050)
        while len(out) < quota:
            c = min(size, quota - len(out))
            out += as_samples(strategy.simulate(state, c), m, c)
        if len(out) < k:
            out += as_samples(strategy.simulate(state, k - len(out)), m, k - len(out))
        return out

    return draw
