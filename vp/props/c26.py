"""C26: with the real process pools the results are those of a sequential run: the exact
number of samples, the right law, and no correlation between the workers' shares."""
from hypothesis import strategies as st

from vp import gen, ref, stats, sut, zoo
from vp.core import Prop, Sub, Violation
from vp.props.c09 import check_distribution


@st.composite
def sample_case(draw):
    kind = draw(st.sampled_from(["bobs", "ubobs"]))
    m = draw(gen.upto(3, 5))
    n = draw(gen.upto(2, 3))
    c = {"kind": kind, "m": m, "calc": "ryser", "mf": "nd", "threads": draw(st.sampled_from([1, 2, 3, 4, -1])),
         "a": {"k": "haar", "m": m, "seed": draw(gen.SEED)}, "s": draw(gen.states_of(m, n)),
         "count": draw(st.sampled_from([1, 2, 3, 5, 7, 160, 401, 403]))}
    if kind == "ubobs":
        c["eta"] = draw(st.sampled_from([0.3, 0.6, 0.9, 1.0]))
        c["level"] = draw(gen.upto(0, m))
    else:
        c["approx"] = draw(gen.upto(0, m))
        c["a"].update(loss=draw(st.sampled_from(["none", "uniform", "sandwich"])), t=draw(st.lists(st.sampled_from([0.4, 0.7, 0.9]), min_size=m, max_size=m)))
    return c


def position_wise(a, b, eq):
    """p-value of the number of positions at which two independent sample lists agree."""
    n = min(len(a), len(b))
    same = sum(1 for x, y in zip(a, b) if x == y)
    # only more agreement than chance matters here
    return stats.binom_two_sided(same, n, eq) if same > eq * n else 1.0, same, n


def run_samples(c):
    m, count = c["m"], c["count"]
    d = zoo.law(c, c["s"])
    eq = sum(p * p for p in d.values())
    strat = zoo.build(c)
    draws = []

    def draw(k):
        r = sut.as_samples(strat.simulate(tuple(c["s"]), k), m, k)
        draws.append(r)
        return r

    text = "%s, %s" % (zoo_text(c), "threads %d" % c["threads"])
    if count < 100:
        for t in draw(count) + draw(count + 1):
            if d.get(t, 0.0) < stats.IMPOSSIBLE:
                raise Violation("%s: impossible outcome %s" % (text, t))
        return
    bad = stats.gof(draw, d, count, grow=(4, 8))
    if bad:
        raise Violation("%s: %s" % (text, bad))
    draw(count)
    # the shares of two workers, and two consecutive calls, must not repeat each other
    if eq < 0.6:
        pairs = [("two consecutive calls", draws[-2][:count], draws[-1][:count])]
        for parts in range(2, 9):
            # contiguous shares (larger ones first) and interleaved ones
            size = -(-count // parts)
            for lag in {size, size - 1}:
                pairs.append(("samples %d apart" % lag, draws[-1][:-lag], draws[-1][lag:]))
        for lag in range(1, 9):
            pairs.append(("samples %d apart" % lag, draws[-1][:-lag], draws[-1][lag:]))
        for name, a, b in pairs:
            # overlapping pairs are not independent, so even and odd halves are not
            # pooled: demand a deviation far beyond anything chance produces
            p, same, k = position_wise(a, b, eq)
            if p < 1e-25:
                raise Violation("%s: %s are equal %d times of %d, expected fraction %.4g" % (text, name, same, k, eq))


def zoo_text(c):
    return "%s sampler with real processes, input %s, %s" % (c["kind"], c["s"], {k: v for k, v in c.items() if k in ("a", "eta", "level", "approx", "count")})


@st.composite
def sequence_case(draw):
    """One sampler, several calls with other inputs and numbers of samples."""
    kind = draw(st.sampled_from(["bobs", "ubobs"]))
    m = draw(gen.upto(2, 5))
    c = {"kind": kind, "m": m, "calc": "ryser", "mf": "nd", "threads": draw(st.sampled_from([2, 3, 4, 5, 6, 7, 8, 9, -1])),
         "a": draw(gen.unitary_specs(m, ["haar", "perm", "perm", "bs", "block"]))}
    if kind == "ubobs":
        c["eta"] = draw(st.sampled_from([0.6, 1.0, 1.0]))
        c["level"] = draw(st.sampled_from([0, m - 1, m, m]))
    else:
        c["approx"] = draw(st.sampled_from([0, 0, 1, m]))
    near = [max(1, c["threads"] + d) for d in (-1, 0, 1)] if c["threads"] > 0 else [7, 8, 9]
    c["calls"] = draw(st.lists(st.tuples(gen.states(m, 4), st.one_of(st.sampled_from(near), st.integers(1, 40))).map(list), min_size=2, max_size=3))
    return c


def run_sequence(c):
    strat = zoo.build(c)
    for k, (s, count) in enumerate(c["calls"]):
        d = zoo.law(c, s)
        got = sut.as_samples(strat.simulate(tuple(s), count), c["m"], count)
        for t in got:
            if d.get(t, 0.0) < stats.IMPOSSIBLE:
                raise Violation("%s, call %d with input %s: impossible outcome %s" % (zoo_text(dict(c, s=s)), k + 1, s, t))
        first = [True]

        def draw(j):
            # the samples at hand, then fresh ones
            if first[0] and j == len(got):
                first[0] = False
                return got
            return sut.as_samples(strat.simulate(tuple(s), j), c["m"], j)

        bad = stats.gof(draw, d, count, grow=(6, 12))
        if bad:
            raise Violation("%s, call %d with input %s: %s" % (zoo_text(dict(c, s=s)), k + 1, s, bad))


@st.composite
def dist_case(draw):
    m = draw(gen.upto(2, 4))
    n = draw(gen.upto(1, {2: 6, 3: 4}.get(m, 3)))
    return {"u": draw(gen.unitary_specs(m)), "s": draw(gen.states_of(m, n)), "eta": draw(gen.TRANS), "calc": draw(st.sampled_from(sut.CALC_NAMES)),
            "ask": draw(st.lists(gen.SEED, max_size=30)), "fmt": draw(gen.SFMT)}


@st.composite
def wide_case(draw):
    """Many outcomes, so that each worker gets several portions of them."""
    m, n = draw(st.sampled_from([(5, 5), (6, 4), (6, 5), (7, 4), (8, 4), (12, 3), (15, 3), (5, 6), (40, 2)]))
    return {"u": draw(gen.unitary_specs(m)), "s": draw(gen.states_of(m, n)), "eta": draw(gen.TRANS), "calc": draw(st.sampled_from(["ryser", "chinhuh"])),
            "ask": draw(st.lists(gen.SEED, max_size=10)), "fmt": "tuple"}


def run_dist(c):
    u = gen.unitary(c["u"])
    s, m = tuple(c["s"]), len(c["s"])
    calc = sut.uniform_dist(sut.config(u, s, None, c["eta"]), sut.calc(c["calc"], u, s, s))
    outcomes = [sut.as_state(t, m, "outcome") for t in calc.get_outcomes_in_proper_order()]
    d = ref.uniform_losses(u, s, c["eta"])
    for _ in range(2):
        probs = sut.as_probs(calc.calculate_distribution(), len(outcomes), "calculate_distribution")
        asked = [outcomes[x % len(outcomes)] for x in c.get("ask", [])]
        some = sut.as_probs(calc.calculate_probabilities_of_outcomes([gen.fmt_state(t, c.get("fmt", "tuple")) for t in asked]), len(asked), "calculate_probabilities_of_outcomes")
        for t, p in zip(asked, some):
            if abs(p - d.get(t, 0.0)) > 1e-9:
                raise Violation("real processes, input %s, transmissivity %s: probability of %s is %.12g, expected %.12g" % (s, c["eta"], t, p, d.get(t, 0.0)))
        check_distribution(d, outcomes, probs, "real processes, input %s, transmissivity %s, %s" % (s, c["eta"], c["u"]))


_A = {"k": "haar", "m": 4, "seed": 5}
PROP = Prop(
    "C26",
    "samples: more samples than workers and more than one worker; sequence: two or more calls with particles; distributions: at least two particles; wide: all (126 to 861 outcomes)",
    [
        Sub("samples", sample_case, run_samples, lambda c: c["threads"] != 1 and c["count"] > 4, corpus=[
            {"kind": "ubobs", "m": 4, "calc": "ryser", "mf": "nd", "threads": 2, "a": _A, "s": [1, 1, 1, 0], "count": 400, "eta": 0.9, "level": 2},
            {"kind": "bobs", "m": 4, "calc": "ryser", "mf": "nd", "threads": 2, "a": _A, "s": [1, 1, 1, 0], "count": 400, "approx": 2},
            {"kind": "ubobs", "m": 4, "calc": "ryser", "mf": "nd", "threads": 4, "a": _A, "s": [1, 1, 1, 0], "count": 401, "eta": 0.9, "level": 3},
            {"kind": "bobs", "m": 4, "calc": "ryser", "mf": "nd", "threads": 4, "a": _A, "s": [1, 1, 1, 0], "count": 403, "approx": 1},
            {"kind": "bobs", "m": 4, "calc": "ryser", "mf": "nd", "threads": 3, "a": _A, "s": [1, 1, 0, 1], "count": 7, "approx": 1},
            {"kind": "bobs", "m": 4, "calc": "ryser", "mf": "nd", "threads": 4, "a": _A, "s": [1, 1, 0, 1], "count": 3, "approx": 1},
            {"kind": "ubobs", "m": 4, "calc": "ryser", "mf": "nd", "threads": 4, "a": _A, "s": [1, 1, 0, 1], "count": 3, "eta": 0.7, "level": 1},
        ], quick=(4, 5), thorough=(4, 60)),
        Sub("sequence", sequence_case, run_sequence, lambda c: sum(sum(s) >= 1 for s, _ in c["calls"]) >= 2, quick=(4, 3), thorough=(4, 60)),
        Sub("distribution", dist_case, run_dist, lambda c: sum(c["s"]) >= 2, quick=(1, 25), thorough=(4, 250)),
        Sub("wide", wide_case, run_dist, lambda c: True, quick=(2, 3), thorough=(4, 40)),
    ],
    standin=False,
)
