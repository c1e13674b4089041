"""C18: any strategy returns exactly the requested number of well-formed outcomes."""
from hypothesis import strategies as st

from vp import gen, stats, sut, zoo
from vp.core import Prop, Sub, Violation


@st.composite
def case(draw):
    m = draw(st.sampled_from([1, 2, 3, 4, 5, 6] * 4 + [8, 11, 17, 33]))
    c = draw(zoo.configs(m, threads=(-1, 0, 1, 2, 3, 5, 8, 100)))
    big = c["kind"] not in ("lossynet", "bobs")
    if c["kind"] == "fixed":
        c["left"] = draw(gen.upto(0, m))
    c["s"] = draw(zoo.inputs(c, (6 if m <= 3 else 4 if m <= 6 else 2) if big else 4 if m <= 6 else 2))
    c["counts"] = draw(st.lists(st.one_of(gen.upto(0, 9), st.sampled_from([10, 16, 17, 24, 31, 50])), min_size=1, max_size=4))
    c["sf"] = draw(gen.SFMT)
    c["np"] = draw(gen.NP)
    c["via"] = draw(st.sampled_from(["strategy", "simulator"]))
    return c


def run(c):
    s, m = c["s"], c["m"]
    strat = zoo.build(c)
    lo, hi = zoo.particle_range(c, s)
    for k in c["counts"] + [None]:
        arg = gen.fmt_state(s, c["sf"])
        k = None if k is None else gen.num(c)(k)
        if c["via"] == "simulator":
            sim = sut.simulator(strat)
            res = sim.get_classical_simulation_results(arg) if k is None else sim.get_classical_simulation_results(arg, k)
        else:
            res = strat.simulate(arg) if k is None else strat.simulate(arg, k)
        what = "strategy %s, input %s, %s samples" % (c["kind"], s, "default number of" if k is None else k)
        samples = sut.as_samples(res, m, 1 if k is None else k, what)
        for t in samples:
            if not lo <= sum(t) <= hi:
                raise Violation("%s: outcome %s has %d particles, possible are %d to %d" % (what, t, sum(t), lo, hi))


MANY = {"gcc": 70000, "ma": 70000, "b": 66000, "ugcc": 70000, "ugccb": 66000, "lossynet": 20000, "bobs": 11000, "ubobs": 12000, "fixed": 66000, "uniform": 11000}


@st.composite
def many_case(draw):
    c = draw(zoo.configs(2, threads=(1, 2, 3, -1)))
    c["s"] = draw(zoo.inputs(c, 2))
    c["sf"] = draw(gen.SFMT)
    c["count"] = MANY[c["kind"]] - draw(gen.upto(0, 5))
    return c


def run_many(c):
    """Very many samples in one request."""
    strat = zoo.build(c)
    samples = sut.as_samples(strat.simulate(gen.fmt_state(c["s"], c["sf"]), c["count"]), 2, c["count"], "strategy %s" % c["kind"])
    _, bonf, _, desc, impossible = stats.assess(samples, stats.clean(zoo.law(c, c["s"])))
    if impossible or bonf < 1e-13:
        raise Violation("strategy %s, input %s, %d samples in one call: %s" % (c["kind"], c["s"], c["count"], desc))


def many(kind, s=(1, 1), **k):
    c = {"kind": kind, "m": 2, "calc": "ryser", "mf": "nd", "a": {"k": "haar", "m": 2, "seed": 3, "loss": "none"}, "s": list(s), "sf": "tuple",
         "eta": 0.6, "level": 1, "approx": 1, "threads": 2, "left": 1, "count": MANY[kind]}
    c.update(k)
    return c


PROP = Prop(
    "C18",
    "at least one particle in at least two modes and at least two requests for samples of which one asks for two or more",
    [Sub("requests", case, run, lambda c: c["m"] >= 2 and sum(c["s"]) >= 1 and max(c["counts"]) >= 2, quick=(8, 500), thorough=(8, 2500)),
     Sub("many", many_case, run_many, lambda c: sum(c["s"]) >= 1, [many(k) for k in zoo.ALL], quick=(8, 1), thorough=(8, 20))],
)
