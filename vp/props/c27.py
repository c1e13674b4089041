"""C27: the adapter of the external R sampler, driven against a stand-in of the R side."""
import sys

from hypothesis import strategies as st

from vp import gen, ref, rstub, stats, sut
from vp.core import Prop, Sub, Violation

_MOD = "theboss.simulation_strategies.cliffords_r_simulation_strategy"
N1 = 1500


@st.composite
def flat(draw, m, n):
    s = [0] * m
    if draw(st.booleans()):
        for i in range(n):
            s[i] = 1
    else:
        for i in draw(st.permutations(list(range(m))))[:n]:
            s[i] = 1
    return s


@st.composite
def case(draw):
    m = draw(gen.upto(1, 5))
    n = draw(gen.upto(1, min(m, 4)))
    return {"u": draw(gen.unitary_specs(m)), "s": draw(flat(m, n)), "mf": draw(gen.MFMT), "sf": draw(gen.SFMT),
            "via": draw(st.sampled_from(["class", "factory"])), "second": draw(st.one_of(st.none(), gen.unitary_specs(m))),
            "batches": draw(st.sampled_from(["one", "few"])), "pick": draw(gen.SEED)}


def make(c, mat, s):
    rstub.install()
    rstub.calls = 0
    rstub.INSTALLED.update({"BosonSampling", "Rcpp", "RcppArmadillo"})
    if c["via"] == "class":
        return sut._get(_MOD, "CliffordsRSimulationStrategy")(mat)
    f = sut.factory()
    return f.SimulationStrategyFactory(sut.config(mat, s), sut.calc("ryser", mat), f.StrategyType.CLIFFORD_R).generate_strategy()


def run_simulate(c):
    m = len(c["s"])
    u = gen.unitary(c["u"])
    s = gen.fmt_state(c["s"], c["sf"])
    strat = make(c, gen.fmt_matrix(u, c["mf"]), s)
    todo = [u]
    if c["second"]:
        todo.append(gen.unitary(c["second"]))
    for i, a in enumerate(todo):
        if i:
            strat.set_matrix(gen.fmt_matrix(a, c["mf"]))
        bad = stats.gof(sut.draw_with(strat, s, m, c["batches"]), ref.bs(a, c["s"]), N1)
        if bad:
            raise Violation("R sampler adapter%s, input %s, matrix %s: %s" % (" after a matrix change" if i else "", c["s"], c["second"] if i else c["u"], bad))


@st.composite
def history(draw):
    """Several inputs, matrices (also of other sizes), sample numbers and queries, one adapter."""
    m = draw(st.one_of(gen.upto(1, 4), gen.upto(1, 4), gen.upto(5, 12)))
    c = {"u": draw(gen.unitary_specs(m)), "mf": draw(gen.MFMT), "sf": draw(gen.SFMT), "via": draw(st.sampled_from(["class", "factory"])), "ops": []}
    past, states = [c["u"]], []
    for _ in range(draw(gen.upto(1, 6))):
        op = draw(st.sampled_from(["matrix", "simulate", "simulate", "simulate", "default", "probabilities", "random"]))
        if op == "matrix":
            if draw(st.integers(0, 3)) == 0:
                m = draw(gen.upto(1, 6))
            past.append(draw(gen.next_spec(past, gen.unitary_specs(m))))
            c["ops"].append({"op": op, "a": past[-1]})
            continue
        n = draw(gen.upto(1, min(m, 4 if m <= 6 else 2)))
        s = draw(gen.next_state(states, flat(m, n)))
        if op == "simulate":
            states.append(s)
        c["ops"].append({"op": op, "s": s, "count": draw(st.one_of(gen.upto(1, 5), gen.upto(1, 40))), "pick": draw(gen.SEED)})
    c["s"] = draw(flat(m, draw(gen.upto(1, min(m, 3)))))
    return c


def handed(a, s, what):
    """The matrix given to the external sampler: the columns of the occupied modes."""
    want = sorted(((a[:, i], i) for i in range(len(s)) if s[i]), key=lambda x: x[1])
    got = rstub.last
    left = list(range(got.shape[1]))
    if got.shape != (len(s), len(want)):
        raise Violation("%s: the external sampler got a %s matrix for input %s" % (what, got.shape, tuple(s)))
    for col, i in want:
        k = next((k for k in left if abs(got[:, k] - col).max() < 1e-12), None)
        if k is None:
            raise Violation("%s: the external sampler did not get column %d of the matrix for input %s; it got\n%s\nof\n%s" % (what, i, tuple(s), gen.shown(got), gen.shown(a)))
        left.remove(k)


def run_history(c):
    a = gen.unitary(c["u"])
    first = next((o["s"] for o in c["ops"] if "s" in o and len(o["s"]) == len(a)), [1] + [0] * (len(a) - 1))
    strat = make(c, gen.fmt_matrix(a, c["mf"]), gen.fmt_state(first, c["sf"]))
    for j, op in enumerate(c["ops"] + [{"op": "final", "s": c["s"]}]):
        what = "R sampler adapter, step %d (%s)" % (j, op["op"])
        if op["op"] == "matrix":
            a = gen.unitary(op["a"])
            strat.set_matrix(gen.fmt_matrix(a, c["mf"]))
            continue
        if len(op["s"]) != len(a):
            continue
        m, s = len(op["s"]), gen.fmt_state(op["s"], c["sf"])
        d = ref.bs(a, op["s"])
        rstub.calls = 0
        if op["op"] == "final":
            bad = stats.gof(sut.draw_with(strat, s, m, "one"), d, 300)
            if bad:
                raise Violation("%s, input %s: %s" % (what, op["s"], bad))
        elif op["op"] in ("simulate", "default"):
            k = op["count"] if op["op"] == "simulate" else 1
            got = strat.simulate(s, k) if op["op"] == "simulate" else strat.simulate(s)
            for t in sut.as_samples(got, m, k):
                if d.get(t, 0.0) < stats.IMPOSSIBLE:
                    raise Violation("%s, input %s: impossible outcome %s" % (what, op["s"], t))
            gen.spoil(got)
        else:
            if sum(1 for p in d.values() if p > 1e-15) > 60:
                continue
            keys = sorted(t for t, p in d.items() if p > 1e-12)
            g = gen._rng(op["pick"])
            if op["op"] == "random":
                res = strat.find_probabilities_of_n_random_states(s, int(g.integers(1, len(keys) + 1)))
            else:
                wanted = [keys[i] for i in g.integers(0, len(keys), g.integers(1, 4))]
                res = strat.find_probabilities(s, [gen.fmt_state(t, c["sf"]) for t in wanted])
                if {sut.as_state(t, m) for t in dict(res)} != set(wanted):
                    raise Violation("%s: asked for %s, answered for %s" % (what, wanted, sorted(res)))
            for t, p in dict(res).items():
                t = sut.as_state(t, m, what)
                if abs(float(p) - d.get(t, 0.0)) > 1e-9:
                    raise Violation("%s: probability of %s is %r, expected %.12g (input %s)" % (what, t, p, d.get(t, 0.0), op["s"]))
        handed(a, op["s"], what)


def run_probabilities(c):
    m = len(c["s"])
    u = gen.unitary(c["u"])
    s = gen.fmt_state(c["s"], c["sf"])
    strat = make(c, gen.fmt_matrix(u, c["mf"]), s)
    d = {t: p for t, p in ref.bs(u, c["s"]).items() if p > 1e-12}
    keys = sorted(d)
    g = gen._rng(c["pick"])
    wanted = [keys[i] for i in g.integers(0, len(keys), g.integers(1, 7))]

    def verify(res, what):
        for t, p in dict(res).items():
            t = sut.as_state(t, m, what)
            if abs(float(p) - ref.bs(u, c["s"]).get(t, 0.0)) > 1e-9:
                raise Violation("%s: probability of %s is %r, expected %.12g (input %s, matrix %s)" % (what, t, p, d.get(t, 0.0), c["s"], c["u"]))

    res = strat.find_probabilities(s, [gen.fmt_state(t, c["sf"]) for t in wanted])
    verify(res, "find_probabilities")
    if {sut.as_state(t, m) for t in dict(res)} != set(wanted):
        raise Violation("find_probabilities(%s) answered for %s" % (wanted, sorted(res)))
    k = int(g.integers(1, len(keys) + 1))
    res = strat.find_probabilities_of_n_random_states(s, k)
    verify(res, "find_probabilities_of_n_random_states")
    if len(res) < k:
        raise Violation("find_probabilities_of_n_random_states(%d) returned %d states of %d possible ones" % (k, len(res), len(keys)))


OTHERS = ["GCC", "FIXED_LOSS", "UNIFORM_LOSS", "LOSSY_NET_GCC", "UNIFORM_LOSSES_GCC", "BOBS", "UNIFORM_LOSSES_BOBS"]


@st.composite
def missing_case(draw):
    return {"missing": draw(st.sampled_from(["rpy2", "BosonSampling", "Rcpp", "RcppArmadillo"])), "u": draw(gen.unitary_specs(3)),
            "before": draw(st.booleans()), "other": draw(st.sampled_from(OTHERS))}


def run_missing(c):
    u = gen.unitary(c["u"])
    f = sut.factory()
    fac = f.SimulationStrategyFactory(sut.config(u, (1, 1, 0)), sut.calc("ryser", u), f.StrategyType.CLIFFORD_R)
    rstub.install()
    if c.get("before"):  # it was there when the strategy was asked for before
        sut.as_samples(fac.generate_strategy().simulate((1, 1, 0), 2), 3, 2)
    if c["missing"] == "rpy2":
        rstub.uninstall()
        sys.modules.pop(_MOD, None)
    else:
        rstub.INSTALLED.discard(c["missing"])
    try:
        # other strategies stay available without R
        fac.strategy_type = getattr(f.StrategyType, c.get("other", "GCC"))
        sut.as_samples(fac.generate_strategy().simulate((1, 1, 0), 2), 3, 2)
        fac.strategy_type = f.StrategyType.CLIFFORD_R
        try:
            r = fac.generate_strategy()
        except ImportError:
            r = None
    finally:
        rstub.install()
        rstub.INSTALLED.update({"BosonSampling", "Rcpp", "RcppArmadillo"})
    if r is not None:
        raise Violation("asking for the R strategy without %s gave %r instead of an ImportError" % (c["missing"], type(r).__name__))
    # and it is back when the dependency is
    sut.as_samples(fac.generate_strategy().simulate((1, 1, 0), 2), 3, 2)


def nt(c):
    return len(c["s"]) >= 2 and sum(c["s"]) >= 2 and c["u"]["k"] not in ("id", "perm", "phase")


_B = {"mf": "nd", "sf": "tuple", "via": "factory", "second": None, "batches": "one", "pick": 3}
_C = [
    dict(_B, u={"k": "haar", "m": 4, "seed": 5}, s=[1, 1, 0, 0]), dict(_B, u={"k": "haar", "m": 4, "seed": 5}, s=[0, 1, 0, 1]),
    dict(_B, u={"k": "haar", "m": 3, "seed": 5}, s=[1, 1, 1], via="class", second={"k": "haar", "m": 3, "seed": 6}, mf="list"),
    dict(_B, u={"k": "perm", "m": 4, "seed": 5}, s=[1, 0, 1, 1], sf="nd"),
]
PROP = Prop(
    "C27",
    "at least two particles in at least two modes of a matrix that mixes modes; history: an earlier operation on an input of two or more particles; every missing dependency",
    [
        Sub("simulate", case, run_simulate, nt, _C, quick=(4, 80), thorough=(8, 400)),
        Sub("probabilities", case, run_probabilities, nt, _C, quick=(2, 120), thorough=(4, 400)),
        Sub("history", history, run_history, lambda c: len(c["s"]) >= 2 and sum(1 for o in c["ops"] if "s" in o and sum(o["s"]) >= 2), quick=(8, 300), thorough=(8, 1500)),
        Sub("missing", missing_case, run_missing, None, [{"missing": x, "u": {"k": "haar", "m": 3, "seed": 1}} for x in ("rpy2", "BosonSampling", "Rcpp", "RcppArmadillo")], quick=(2, 20), thorough=(4, 60)),
    ],
)
