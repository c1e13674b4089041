"""C25: a configured factory yields the simulation that the configuration describes."""
from hypothesis import strategies as st

from vp import gen, ref, stats, sut
from vp.core import Prop, Sub, Violation
from vp.props.c20 import FACT

KINDS = ["gcc", "lossynet", "ugcc", "bobs", "ubobs", "fixed", "uniform"]
UNI = ("gcc", "ugcc", "ubobs")
N1 = {"gcc": 1500, "lossynet": 700, "ugcc": 1500, "bobs": 500, "ubobs": 700, "fixed": 1500, "uniform": 500}


@st.composite
def setting(draw, m):
    n = draw(gen.upto(1, min(3, m)))
    left = draw(gen.upto(0, n))
    return {"m": m, "a": draw(gen.lossy_specs(m)), "n": n, "left": left, "eta": draw(st.one_of(st.sampled_from([0.0, 1.0, 1.0]), gen.TRANS, gen.TRANS)), "level": draw(gen.upto(0, m)),
            "net": draw(st.sampled_from([None, None, "lossy", "lossless"]))}


@st.composite
def one_changed(draw, old, kind):
    """The previous setting with a single thing changed."""
    fresh = draw(setting(old["m"]))
    # often something that the simulation depends on
    some = {"ugcc": ["eta"], "ubobs": ["eta", "level"], "bobs": ["level"], "uniform": ["eta", "n"], "fixed": ["left", "n", "a"]}.get(kind, [])
    what = draw(st.sampled_from(["a", "variant", "left", "eta", "level", "net", "net", "n"] + some * 4))
    new = dict(old)
    if what == "variant":
        new["a"] = draw(gen.variant(old["a"]))
    elif what == "net":
        new["net"] = None if old["net"] else draw(st.sampled_from(["lossy", "lossless"]))
    elif what == "n":
        new["n"], new["left"] = fresh["n"], fresh["left"]
    elif what == "left":
        new["left"] = draw(gen.upto(0, old["n"]))
    else:
        new[what] = fresh[what]
    return new


@st.composite
def case(draw):
    m = draw(st.sampled_from([2, 3, 4] * 6 + [5, 6, 8]))
    x = first = draw(setting(m))
    kind = draw(st.sampled_from(KINDS))
    family = "unitary" if kind in UNI else "lossy"
    a = first["a"]      # the matrix of the calculator
    steps = []
    for _ in range(draw(st.integers(0, 5))):
        op = draw(st.sampled_from(["type", "config", "one", "one", "size", "calculator", "calculator variant", "calculator phases", "config again", "calculator again", "threads"]))
        step = {"op": op, "look": draw(st.sampled_from([0, 1, 1])), "s": draw(gen.states(m, 3, 1))}
        if op == "type":
            # any of the kinds whose law is known for the matrices of this history
            step["kind"] = draw(st.sampled_from([k for k in KINDS if family == "unitary" or k not in UNI]))
        elif op == "size":      # another experiment altogether
            m = draw(st.sampled_from([2, 3, 4] * 6 + [5, 6, 8]))
            x = step["set"] = draw(setting(m))
            step["s"] = draw(gen.states(m, 3, 1))
            a = x["a"]
        elif op == "one":
            step["op"] = "config"
            x = step["set"] = draw(one_changed(x, kind))
        elif op == "config":
            x = step["set"] = draw(setting(m))
        elif op == "config again":
            y = draw(setting(m))
            x = step["set"] = dict(y, a=x["a"], net=x["net"])
        elif op == "calculator variant":
            step["op"] = "calculator"
            a = step["a"] = draw(gen.variant(a))
        elif op == "calculator phases":     # elements of the same moduli
            step["op"] = "calculator"
            if family == "lossy" and draw(st.booleans()):
                # from a matrix whose elements may have any phases
                w = draw(st.sampled_from([0.5, 0.9, 1.0])) / m
                steps.append({"op": "calculator", "look": draw(st.sampled_from([0, 1])), "s": step["s"], "a": {"k": "flat", "m": m, "seed": draw(gen.SEED), "loss": "uniform", "t": [w]}})
                a = steps[-1]["a"]
            elif family == "unitary" and m == 4 and draw(st.booleans()):
                steps.append({"op": "calculator", "look": draw(st.sampled_from([0, 1])), "s": step["s"], "a": {"k": "flat", "m": m, "seed": draw(gen.SEED)}})
                a = steps[-1]["a"]
            a = step["a"] = dict(a, vary=list(a.get("vary", []))[-1:] + [["rephase", draw(gen.upto(0, 99))]])
        elif op in ("calculator", "calculator again"):
            a = step["a"] = draw(gen.lossy_specs(m))
        elif op == "threads":
            step["k"] = draw(st.sampled_from([1, 2, -1]))
        steps.append(step)
    return {"first": first, "family": family, "steps": steps, "kind": kind, "s": draw(gen.states(m, 3, 1)), "default": draw(st.booleans()), "early": draw(st.booleans()),
            "calc": draw(st.sampled_from(["ryser", "chinhuh", "glynn"])), "sim": draw(st.booleans())}


def make_config(x, mat):
    s = tuple([1] * x["n"] + [0] * (x["m"] - x["n"]))
    net = None if x["net"] is None else sut.network(x["net"], mat)
    return sut.config(mat, s, x["left"], x["eta"], x["level"], net)


def verify(strat, kind, x, cfg_a, pc_a, s, sim, samples):
    m, n = x["m"], x["n"]
    if kind in ("fixed", "uniform"):
        s = [1] * n + [0] * (m - n)
    if kind == "gcc":
        d = ref.bs(pc_a, s)
    elif kind == "lossynet":
        d = ref.lossy(pc_a, s)
    elif kind == "ugcc":
        d = ref.uniform_losses(pc_a, s, x["eta"])
    elif kind == "bobs":
        d = ref.bobs(pc_a, s, m - x["level"])
    elif kind == "ubobs":
        d = ref.ubobs(pc_a, s, x["eta"], x["level"])
    elif kind == "fixed":
        d = ref.fixed_loss_approximation(cfg_a, n, x["left"], m)
    else:
        d = ref.uniform_loss_approximation(cfg_a, n, x["eta"], m)
    if sim:
        facade = sut.simulator(strat)

        class Via:
            def simulate(self, a, b):
                return facade.get_classical_simulation_results(a, b)

        drawer = sut.draw_with(Via(), tuple(s), m)
    else:
        drawer = sut.draw_with(strat, tuple(s), m)
    bad = stats.gof(drawer, d, samples)
    if bad:
        raise Violation("factory strategy %s, input %s, configuration %s: %s" % (kind, s, x, bad))


def run(c):
    f = sut.factory()
    x = c["first"]
    m = x["m"]

    def matrix(spec):
        # kinds that need a unitary get one: the configured unitary without its losses
        return gen.unitary(spec) if c["family"] == "unitary" else gen.lossy_matrix(spec)

    cfg_a = pc_a = matrix(x["a"])
    pc = sut.calc(c["calc"], pc_a.copy(), tuple([1] + [0] * (m - 1)), tuple([1] + [0] * (m - 1)))
    if c["default"]:
        fac = f.SimulationStrategyFactory(make_config(x, cfg_a.copy()), pc)
        kind = "fixed"
    else:
        fac = f.SimulationStrategyFactory(make_config(x, cfg_a.copy()), pc, getattr(f.StrategyType, FACT[c["kind"]]))
        kind = c["kind"]
    if c.get("early") and kind != c["kind"]:
        # the type is chosen before anything else is
        fac.strategy_type = getattr(f.StrategyType, FACT[c["kind"]])
        kind = c["kind"]
    if c["steps"] and c["steps"][0]["look"]:
        verify(fac.generate_strategy(), kind, x, cfg_a, pc_a, [1] + [0] * (m - 1), c["sim"], N1[kind] // 4)
    for step in c["steps"]:
        if step["op"] == "type":
            fac.strategy_type = getattr(f.StrategyType, FACT[step["kind"]])
            kind = step["kind"]
        elif step["op"] in ("config", "size"):
            x = step["set"]
            cfg_a = matrix(x["a"])
            fac.experiment_configuration = make_config(x, cfg_a.copy())
            if step["op"] == "size":
                m = x["m"]
                pc_a = cfg_a
                fac.bs_permanent_calculator = sut.calc(c["calc"], pc_a.copy())
        elif step["op"] == "calculator":
            pc_a = matrix(step["a"])
            fac.bs_permanent_calculator = sut.calc(c["calc"], pc_a.copy())
        elif step["op"] == "config again":
            # the same object with new contents; the network, if any, belongs to the matrix: both are kept
            x = step["set"]
            cfg = fac.experiment_configuration
            cfg.initial_state = tuple([1] * x["n"] + [0] * (m - x["n"]))
            cfg.initial_number_of_particles = x["n"]
            cfg.number_of_particles_left, cfg.number_of_particles_lost = x["left"], x["n"] - x["left"]
            cfg.uniform_transmissivity, cfg.hierarchy_level = x["eta"], x["level"]
            fac.experiment_configuration = cfg
        elif step["op"] == "calculator again":
            pc_a = matrix(step["a"])
            own = fac.bs_permanent_calculator
            own.matrix = pc_a.copy()
            fac.bs_permanent_calculator = own
        elif step["op"] == "threads":
            fac.available_threads_number = step["k"]
            if fac.available_threads_number != step["k"]:
                raise Violation("the number of threads is not kept")
        if step["look"]:
            verify(fac.generate_strategy(), kind, x, cfg_a, pc_a, step["s"], c["sim"], N1[kind] // 4)
    if kind != c["kind"]:
        fac.strategy_type = getattr(f.StrategyType, FACT[c["kind"]])
        kind = c["kind"]
    verify(fac.generate_strategy(), kind, x, cfg_a, pc_a, c["s"], c["sim"], N1[kind])


PROP = Prop(
    "C25",
    "at least one particle sampled; a case is one factory history of 0-5 reconfigurations, sampling from strategies generated on the way and from the last one",
    [Sub("factory", case, run, lambda c: sum(c["s"]) >= 1 and c["first"]["a"]["loss"] != "zero", quick=(8, 110), thorough=(8, 800))],
)
