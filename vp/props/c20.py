"""C20: the library does not disturb the caller's objects, nor one user of it another."""
import copy
import random

import numpy as np
from hypothesis import strategies as st

from vp import gen, ref, stats, sut, zoo
from vp.core import Prop, Sub, Violation


def snap(x):
    return copy.deepcopy(x)


same = gen.same


# ----------------------------------------------------- arguments stay as they were
@st.composite
def args_case(draw):
    m = draw(gen.upto(1, 4))
    c = draw(zoo.configs(m, threads=(1, 2)))
    c["s"] = draw(zoo.inputs(c, 4))
    c["sf"] = draw(gen.SFMT)
    c["count"] = draw(gen.upto(1, 6))
    c["t"] = draw(gen.states_of(m, sum(c["s"])))
    c["left"] = draw(gen.upto(0, min(3, max(1, sum(c["s"]))))) if c["kind"] != "fixed" else c["left"]
    return c


def run_args(c):
    a = gen.lossy_matrix(c["a"])
    m = c["m"]
    mat = gen.fmt_matrix(a, c["mf"])
    s = gen.fmt_state(c["s"], c["sf"])
    t = gen.fmt_state(c["t"], c["sf"])
    keep = snap(mat), snap(s), snap(t)

    def verify(what):
        for name, now, was in zip(("matrix", "input state", "output state"), (mat, s, t), keep):
            if not same(now, was):
                raise Violation("%s changed the caller's %s from %r to %r" % (what, name, was, now))

    strat = zoo.build(c, matrix=mat)
    verify("constructing strategy %s" % c["kind"])
    first = strat.simulate(s, c["count"])
    verify("strategy %s" % c["kind"])
    got = snap([tuple(x) for x in first])
    strat.simulate(s, c["count"])
    if [tuple(x) for x in first] != got:
        raise Violation("strategy %s: samples already returned changed during a later call" % c["kind"])
    if c["kind"] in zoo.SETTABLE:
        strat.set_new_matrix(mat)
        strat.simulate(s, 1)
        verify("set_new_matrix of strategy %s" % c["kind"])
    if c["kind"] == "ugcc" and c["eta"] >= 0.3 and 1 <= sum(c["s"]) <= 3:
        dist = strat.compute_distribution_up_to_accuracy(s, 0.6)
        cond = strat.compute_unweighted_distribution_up_to_accuracy(s, 0.6)
        k1, k2 = list(dist), list(cond)
        strat.simulate(s, c["count"])
        strat.compute_distribution_up_to_accuracy(gen.fmt_state(c["t"], c["sf"]), 0.9)
        if list(dist) != k1 or list(cond) != k2:
            raise Violation("a distribution already returned changed during later calls")
        verify("computing distributions")
    u = sut.utils()
    pc = sut.calc(c["calc"], mat, s, t)
    pc.compute_permanent()
    verify("permanent calculator %s" % c["calc"])
    if sum(c["s"]) >= 1:
        r = list(c["t"])
        r[[i for i in range(m) if r[i]][0]] -= 1
        for name in ("ryser", "ch"):
            sut.subcalc(name, mat, s, gen.fmt_state(r, c["sf"])).compute_permanents()
            verify("sub-matrix permanent calculator %s" % name)
    u.prepare_interferometer_matrix_in_expanded_space(mat)
    u.get_modes_transmissivity_values_from_matrix(mat)
    verify("expansion of the matrix")
    u.generate_lossy_n_particle_input_states(s, min(c["left"], sum(c["s"])))
    u.mode_occupation_to_mode_assignment(s)
    verify("state utilities")
    for kind in ("lossy", "lossless"):
        net = sut.network(kind, mat)
        net.simulate(np.array(c["s"], dtype=complex))
        verify("%s network" % kind)
    cfg = sut.config(mat, s, min(c["left"], sum(c["s"])), 0.5)
    asked = [gen.fmt_state(x, c["sf"]) for k in range(5) for x in ref.states(k, m)[:9]] + [t]
    was = snap(asked)
    sut.sample_dist(cfg, strat, samples_number=3).calculate_probabilities_of_outcomes(asked)
    if not same(asked, was):
        raise Violation("the sample-based calculator changed the caller's list of outcomes from %r to %r" % (was, asked))
    verify("sample-based calculator")
    for make in (sut.fixed_dist, sut.uniform_dist):
        d = make(cfg, sut.calc(c["calc"], mat, s, t))
        asked = [t] + [gen.fmt_state(x, c["sf"]) for k in range(3) for x in ref.states(k, m)[:5 + 4 * k]] + [t]
        was = snap(asked)
        d.calculate_probabilities_of_outcomes(asked)
        if not same(asked, was):
            raise Violation("a distribution calculator changed the caller's list of outcomes from %r to %r" % (was, asked))
        verify("distribution calculator")
        if cfg.number_of_particles_left != min(c["left"], sum(c["s"])) or cfg.initial_number_of_particles != sum(c["s"]) or cfg.number_of_modes != m or cfg.uniform_transmissivity != 0.5:
            raise Violation("a distribution calculator changed the caller's configuration")


# ----------------------------------------------------- strategies from one factory
FACT = {"gcc": "GCC", "lossynet": "LOSSY_NET_GCC", "ugcc": "UNIFORM_LOSSES_GCC", "bobs": "BOBS", "ubobs": "UNIFORM_LOSSES_BOBS", "fixed": "FIXED_LOSS", "uniform": "UNIFORM_LOSS"}


@st.composite
def factory_case(draw):
    m = draw(gen.upto(2, 3))
    u = draw(gen.unitary_specs(m))
    n = draw(gen.upto(1, 3))
    others = draw(st.lists(st.fixed_dictionaries({
        "kind": st.sampled_from(["gcc", "lossynet", "lossynet", "ugcc", "bobs", "ubobs", "fixed", "uniform"]),
        "use": st.booleans(), "newmat": st.booleans(), "seed": gen.SEED, "reset": st.booleans(), "inplace": st.booleans()}), min_size=1, max_size=3))
    return {"m": m, "u": u, "s": draw(gen.states_of(m, n)), "eta": draw(gen.TRANS), "level": draw(gen.upto(0, m)),
            "kind": draw(st.sampled_from(["gcc", "lossynet", "ugcc", "bobs", "ubobs"])), "others": others, "late": draw(st.booleans()),
            "calc": draw(st.sampled_from(["ryser", "chinhuh"]))}


def run_factory(c):
    f = sut.factory()
    m, s = c["m"], c["s"]
    u = gen.unitary(c["u"])
    mat = u.copy()
    pc = sut.calc(c["calc"], mat, tuple(s), tuple(s))
    cfg = sut.config(mat, tuple(s), sum(s), c["eta"], c["level"])
    fac = f.SimulationStrategyFactory(cfg, pc, getattr(f.StrategyType, FACT[c["kind"]]))
    mine = None if c["late"] else fac.generate_strategy()
    made = []
    for o in c["others"]:
        fac.strategy_type = getattr(f.StrategyType, FACT[o["kind"]])
        if o.get("reset"):
            # the factory moves on to another experiment
            v = gen.haar(m, o["seed"], 10)
            fac.experiment_configuration = sut.config(v, tuple(s), sum(s), 0.5 * c["eta"] + 0.2, 0)
            fac.bs_permanent_calculator = sut.calc(c["calc"], v)
        elif o.get("inplace"):
            # likewise, through the calculator the factory keeps
            fac.bs_permanent_calculator.matrix = gen.haar(m, o["seed"], 10)
            fac.bs_permanent_calculator.input_state = [1] + [0] * (m - 1)
        other = fac.generate_strategy()
        made.append(other)
        if o["newmat"] and hasattr(other, "set_new_matrix"):
            other.set_new_matrix(gen.haar(m, o["seed"], 9))
        if o["use"]:
            x = [1] * sum(s) + [0] * (m - sum(s)) if o["kind"] in ("fixed", "uniform") and sum(s) <= m else s
            if o["kind"] in ("fixed", "uniform") and sum(s) > m:
                continue
            sut.as_samples(other.simulate(tuple(x), 2), m, 2)
    if not np.array_equal(np.asarray(pc.matrix), u) or not np.array_equal(mat, u):
        raise Violation("generating and using strategies changed the matrix of the caller's permanent calculator (strategies: %s)" % [o["kind"] for o in c["others"]])
    if tuple(pc.input_state) != tuple(s) or tuple(pc.output_state) != tuple(s):
        raise Violation("generating and using strategies changed the states of the caller's permanent calculator")
    if mine is None:
        fac.strategy_type = getattr(f.StrategyType, FACT[c["kind"]])
        if any(o.get("reset") or o.get("inplace") for o in c["others"]):
            fac.experiment_configuration = cfg
            fac.bs_permanent_calculator = pc
        # what becomes of the caller's calculator afterwards is no concern of the factory
        pc.matrix = gen.haar(m, 1, 12)
        pc.input_state = [0] * m
        mine = fac.generate_strategy()
    law = {"gcc": lambda: ref.bs(u, s), "lossynet": lambda: ref.lossy(u, s), "ugcc": lambda: ref.uniform_losses(u, s, c["eta"]),
           "bobs": lambda: ref.bobs(u, s, m - c["level"]), "ubobs": lambda: ref.ubobs(u, s, c["eta"], c["level"])}[c["kind"]]()
    bad = stats.gof(sut.draw_with(mine, tuple(s), m), law, zoo.N1[c["kind"]])
    if bad:
        raise Violation("strategy %s is disturbed by other strategies of the same factory (%s): %s" % (c["kind"], [o["kind"] for o in c["others"]], bad))


# ----------------------------------------------------- users sharing one permanent calculator
@st.composite
def shared_case(draw):
    m = draw(gen.upto(2, 3))
    u = draw(gen.unitary_specs(m))
    users = draw(st.lists(st.sampled_from(["gcc", "ma", "b", "ugcc", "ugccb", "bobs", "ubobs", "dist", "udist"]), min_size=2, max_size=3))
    return {"m": m, "u": u, "users": users, "eta": draw(gen.TRANS),
            "steps": draw(st.lists(st.tuples(st.integers(0, 2), gen.states(m, 3)).map(list), min_size=1, max_size=4)),
            "s": draw(gen.states(m, 3, 1)), "calc": draw(st.sampled_from(["ryser", "chinhuh", "glynn"]))}


def run_shared(c):
    u = gen.unitary(c["u"])
    m = c["m"]
    pc = sut.calc(c["calc"], u.copy())
    users = []
    for k in c["users"]:
        if k == "dist":
            users.append(sut.fixed_dist(sut.config(u.copy(), tuple(c["s"])), pc))
        elif k == "udist":
            users.append(sut.uniform_dist(sut.config(u.copy(), tuple(c["s"]), None, c["eta"]), pc))
        else:
            users.append(zoo.build({"kind": k, "m": m, "eta": c["eta"], "approx": 1, "level": 1, "threads": 1, "a": c["u"]}, pc=pc, matrix=u))
    for i, s in c["steps"]:
        x = users[i % len(users)]
        if hasattr(x, "simulate"):
            sut.as_samples(x.simulate(tuple(s), 3), m, 3)
        else:
            outs = list(x.get_outcomes_in_proper_order())
            d = ref.bs(u, c["s"]) if c["users"][i % len(users)] == "dist" else ref.uniform_losses(u, c["s"], c["eta"])
            for t, p in zip(outs, x.calculate_distribution()):
                if abs(p - d.get(tuple(t), 0.0)) > 1e-9:
                    raise Violation("distribution calculator sharing its permanent calculator with samplers: probability of %s is %r, expected %r" % (tuple(t), p, d.get(tuple(t), 0.0)))
    for k, x in zip(c["users"], users):
        if k in ("dist", "udist"):
            continue
        d = zoo.law({"kind": k, "m": m, "eta": c["eta"], "approx": 1, "level": 1, "a": c["u"]}, c["s"], u)
        bad = stats.gof(sut.draw_with(x, tuple(c["s"]), m), d, 400)
        if bad:
            raise Violation("strategy %s sharing its permanent calculator with %s, input %s: %s" % (k, c["users"], c["s"], bad))


# ----------------------------------------------------- unrelated strategies of one process
SHARP = ["id", "perm", "perm", "phase", "bs", "block", "haar"]


@st.composite
def siblings_case(draw, kinds=zoo.ALL):
    """Strategies that share nothing but their class, with matrices that share much."""
    m = draw(gen.upto(2, 4))
    kind = draw(st.sampled_from(list(kinds)))
    base = draw(zoo.configs(m, [kind], threads=(1,)))
    base["a"] = draw(gen.unitary_specs(m, SHARP)) if draw(st.booleans()) else base["a"]
    users = [base]
    for _ in range(draw(gen.upto(1, 2))):
        c = dict(draw(zoo.configs(m, [kind], threads=(1,))))
        c["a"] = draw(gen.variant(base["a"])) if draw(st.integers(0, 3)) else c["a"]
        keep = draw(st.booleans())
        for k in ("eta", "level", "approx", "calc", "left"):
            if k in base and keep:
                c[k] = base[k]
        users.append(c)
    s = draw(zoo.inputs(max(users, key=lambda x: x.get("left", 0)), 3))
    steps = draw(st.lists(st.tuples(st.integers(0, len(users) - 1), st.booleans()).map(list), min_size=1, max_size=4))
    return {"users": users, "s": s, "steps": steps, "early": draw(st.booleans()), "sf": draw(gen.SFMT)}


def run_siblings(c):
    users = c["users"]
    made = [zoo.build(x) if c["early"] else None for x in users]
    s = c["s"]
    for i, reverse in c["steps"]:
        if made[i] is None:
            made[i] = zoo.build(users[i])
        x = s[::-1] if reverse and users[i]["kind"] not in ("fixed", "uniform") else s
        d = zoo.law(users[i], x)
        for t in sut.as_samples(made[i].simulate(gen.fmt_state(x, c["sf"]), 5), len(s), 5):
            if d.get(t, 0.0) < stats.IMPOSSIBLE:
                raise Violation("strategy %s next to others of its kind, input %s: impossible outcome %s" % (users[i]["kind"], x, t))
    for i, x in enumerate(users):
        if made[i] is None:
            made[i] = zoo.build(x)
        bad = stats.gof(sut.draw_with(made[i], gen.fmt_state(s, c["sf"]), len(s)), zoo.law(x, s), zoo.N1[x["kind"]] // 4)
        if bad:
            raise Violation("strategy %s number %d of %d unrelated ones, input %s: %s" % (x["kind"], i + 1, len(users), s, bad))


# ----------------------------------------------------- new objects for every few samples
@st.composite
def fresh_case(draw, kinds=zoo.ALL):
    m = draw(gen.upto(2, 4))
    c = draw(zoo.configs(m, list(kinds), threads=(1, 2)))
    c["s"] = draw(zoo.inputs(c, 3))
    c["sf"] = draw(gen.SFMT)
    c["each"] = draw(st.sampled_from([1, 2, 5]))
    return c


def run_fresh(c):
    """Samples of objects that are made for a few samples each are independent too, and
    neither making nor using them puts the global generators into a fixed state."""
    s, m = c["s"], c["m"]
    left = []
    for k in (11, 12):
        np.random.seed(k)
        random.seed(k)
        strat = zoo.build(c)
        left.append([("making", np.random.random(), random.random())])
        strat.simulate(gen.fmt_state(s, c["sf"]), c["each"])
        left[-1].append(("using", np.random.random(), random.random()))
    for (what, x, y), (_, z, w) in zip(*left):
        if x == z or y == w:
            raise Violation("%s a strategy %s puts the random generator into a fixed state" % (what, c["kind"]))
    np.random.seed(sum(s) + 7 * c["each"])
    random.seed(sum(s) + 7 * c["each"])

    def draw(k):
        out = []
        while len(out) < k:
            j = min(c["each"], k - len(out))
            out += sut.as_samples(zoo.build(c).simulate(gen.fmt_state(s, c["sf"]), j), m, j)
        return out

    bad = stats.gof(draw, zoo.law(c, s), 70 * c["each"], grow=(3, 6))
    if bad:
        raise Violation("strategies %s made for %d sample(s) each, input %s: %s" % (c["kind"], c["each"], s, bad))


def fresh(kinds=zoo.ALL, quick=(8, 6), thorough=(8, 60)):
    return Sub("fresh", lambda: fresh_case(kinds), run_fresh, lambda c: sum(c["s"]) >= 1, quick=quick, thorough=thorough)


def siblings(kinds, quick=(8, 10), thorough=(8, 100)):
    """For the properties of some kinds of strategies."""
    return Sub("siblings", lambda: siblings_case(kinds), run_siblings, lambda c: sum(c["s"]) >= 1, quick=quick, thorough=thorough)


PROP = Prop(
    "C20",
    "arguments: at least one particle in two or more modes; factory: every case (a strategy next to at least one other); shared: every case (at least two users of one permanent calculator); siblings: at least one particle, two or more strategies; fresh: at least one particle",
    [
        Sub("arguments", args_case, run_args, lambda c: c["m"] >= 2 and sum(c["s"]) >= 1, quick=(4, 100), thorough=(8, 1500)),
        Sub("factory", factory_case, run_factory, quick=(4, 35), thorough=(8, 400)),
        Sub("siblings", siblings_case, run_siblings, lambda c: sum(c["s"]) >= 1, quick=(8, 60), thorough=(8, 800)),
        fresh(quick=(8, 25), thorough=(8, 250)),
        Sub("shared", shared_case, run_shared, quick=(4, 30), thorough=(8, 300)),
    ],
)
