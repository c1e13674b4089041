"""C22: sample-based distributions are the frequencies of what the strategy returned."""
from collections import Counter

from hypothesis import strategies as st

from vp import gen, ref, stats, sut
from vp.core import Prop, Sub, Violation


class Scripted:
    """A strategy that returns a fixed script and records what it was asked."""

    def __init__(self, script, m, fmt):
        self.script, self.m, self.fmt, self.calls = script, m, fmt, []

    def simulate(self, input_state, samples_number=1):
        self.calls.append(([int(x) for x in input_state], samples_number))
        return [gen.fmt_state(self.script[i % len(self.script)], self.fmt) for i in range(samples_number)]


@st.composite
def case(draw):
    m = draw(gen.upto(1, 4))
    n = draw(gen.upto(0, 3))
    if draw(st.integers(0, 4)) == 0:        # many particles, many modes
        m, n = draw(st.sampled_from([(1, 300), (2, 12), (2, 12), (2, 25), (2, 112), (3, 12), (11, 2), (14, 1), (30, 1)]))
    s = draw(gen.states_of(m, n))
    left = draw(st.sampled_from([n, n, draw(gen.upto(0, n))]))
    style = draw(st.sampled_from(["any", "left"]))
    script = draw(st.lists(gen.states(m, n) if style == "any" else gen.states_of(m, left), min_size=1, max_size=12))
    outcomes = None
    if draw(st.booleans()):
        pool = [list(t) for k in range(n + 1) for t in ref.states(k, m)]
        if n > 3 or m > 4:      # those that are drawn, and a few others
            pool = [list(x) for x in {tuple(x) for x in script}] + pool[::max(1, len(pool) // 9)]
            pool = [list(x) for x in dict.fromkeys(tuple(x) for x in pool)]
        idx = draw(st.permutations(list(range(len(pool)))))
        outcomes = [pool[i] for i in idx[:draw(st.integers(1, len(pool)))]]
    return {"m": m, "s": s, "left": left, "script": script, "outcomes": outcomes,
            "ofmt": draw(gen.SFMT), "fmt": draw(gen.SFMT),
            "n0": draw(st.one_of(st.none(), gen.upto(1, 60))),
            "n1": draw(st.one_of(st.none(), gen.upto(1, 60), st.sampled_from([10001, 20011]))),
            "n2": draw(st.one_of(st.none(), gen.upto(1, 60))),
            "swap": draw(st.booleans()),
            "ask": draw(st.sampled_from(["distribution", "distribution", "outcomes"]))}


@st.composite
def many_case(draw):
    """A long list of outcomes, in an order of the caller's (or of the calculator's)."""
    m, n = draw(st.sampled_from([(2, 40), (3, 8), (3, 12), (4, 6), (5, 4), (6, 3), (8, 3), (13, 2), (20, 2), (70, 1), (130, 1)]))
    c = {"m": m, "s": draw(gen.states_of(m, n)), "left": draw(st.sampled_from([n, n, n - 1])), "seed": draw(gen.SEED),
         "lossy": draw(st.booleans()), "part": draw(st.sampled_from([1.0, 1.0, 0.7])), "own": draw(st.sampled_from([True, True, False])), "order": draw(st.sampled_from(["shuffled", "sorted", "reversed"])),
         "ofmt": draw(gen.SFMT), "fmt": draw(gen.SFMT), "n0": draw(gen.upto(20, 60)), "n1": None, "n2": draw(st.one_of(st.none(), gen.upto(20, 60))), "swap": False, "ask": draw(st.sampled_from(["distribution", "distribution", "outcomes"]))}
    return c


def run_many(c):
    g = gen._rng(c["seed"], 64)
    n, m = sum(c["s"]), c["m"]
    pool = [list(t) for k in (range(n + 1) if c["lossy"] else [c["left"]]) for t in ref.states(k, m)]
    script = [pool[int(i)] for i in g.integers(0, len(pool), 60)]
    outcomes = None
    if c["own"]:
        outcomes = [pool[i] for i in g.permutation(len(pool))[:max(1, int(len(pool) * c["part"]))]]
        if c["order"] != "shuffled":
            outcomes.sort(reverse=c["order"] == "reversed")
    run(dict(c, script=script, outcomes=outcomes))


def run(c):
    m = c["m"]
    u = gen.unitary({"k": "haar", "m": m, "seed": 1})
    strat = Scripted(c["script"], m, c["fmt"])
    cfg = sut.config(u, tuple(c["s"]), c["left"])
    outs = None if c["outcomes"] is None else [gen.fmt_state(t, c["ofmt"]) for t in c["outcomes"]]
    kw = {}
    if c["n0"] is not None:
        kw["samples_number"] = c["n0"]
    if outs is not None and c["ask"] == "distribution":
        kw["outcomes"] = outs
    calc = sut.sample_dist(cfg, Scripted([[0] * m], m, "tuple") if c["swap"] else strat, **kw)
    if c["swap"]:
        calc.strategy = strat
    want_n = 5000 if c["n0"] is None else c["n0"]
    if c["n1"] is not None:
        calc.samples_number = c["n1"]
        want_n = c["n1"]
    if c["ask"] == "outcomes" and outs is not None:
        res = calc.calculate_probabilities_of_outcomes(outs)
        order = [tuple(t) for t in c["outcomes"]]
    else:
        if c["n2"] is not None:
            want_n = c["n2"]
            res = calc.calculate_approximate_distribution(c["n2"])
        else:
            res = calc.calculate_distribution()
        got = calc.get_outcomes_in_proper_order()
        if got is None:
            raise Violation("the calculator does not tell which outcomes its probabilities belong to")
        order = [sut.as_state(t, m, "outcome") for t in got]
        if c["outcomes"] is None or c["ask"] == "outcomes":
            if set(order) != set(ref.states(c["left"], m)) or len(order) != len(ref.states(c["left"], m)):
                raise Violation("outcomes for %d particles left in %d modes are %s" % (c["left"], m, order))
        elif order != [tuple(t) for t in c["outcomes"]]:
            raise Violation("outcomes are not in the order given")
    res = sut.as_probs(res, len(order), "sample-based distribution")
    asked = sum(k for _, k in strat.calls)
    if asked != want_n:
        raise Violation("%d samples were drawn, the requested number is %d (constructor %s, setter %s, argument %s)" % (asked, want_n, c["n0"], c["n1"], c["n2"]))
    if any(st_ != list(c["s"]) for st_, _ in strat.calls):
        raise Violation("the strategy was asked to simulate %s instead of %s" % (strat.calls[0][0], c["s"]))
    drawn = Counter()
    for _, k in strat.calls:
        drawn.update(tuple(c["script"][i % len(c["script"])]) for i in range(k))
    for t, p in zip(order, res):
        w = drawn[t] / want_n
        if abs(p - w) > 1e-9:
            raise Violation("frequency of %s is reported as %.9g, it was drawn %d times of %d" % (t, p, drawn[t], want_n))


class Walking(Scripted):
    """Like Scripted, but every call continues where the previous one stopped."""

    def __init__(self, script, m, fmt):
        super().__init__(script, m, fmt)
        self.at, self.last = 0, []

    def simulate(self, input_state, samples_number=1):
        self.calls.append(([int(x) for x in input_state], samples_number))
        got = [self.script[(self.at + i) % len(self.script)] for i in range(samples_number)]
        self.at += samples_number
        self.last = [tuple(t) for t in got]
        return [gen.fmt_state(t, self.fmt) for t in got]


@st.composite
def outcome_list(draw, m):
    return draw(st.lists(gen.states(m, 3), min_size=1, max_size=6))


@st.composite
def history_case(draw):
    m = draw(gen.upto(1, 3))
    exp = st.tuples(gen.states(m, 3), st.integers(0, 3)).map(list)
    script = st.lists(gen.states(m, 3), min_size=1, max_size=9)
    op = st.one_of(
        st.fixed_dictionaries({"op": st.just("samples"), "n": gen.upto(1, 40)}),
        st.fixed_dictionaries({"op": st.just("outcomes"), "o": st.one_of(st.none(), outcome_list(m))}),
        st.fixed_dictionaries({"op": st.just("configuration"), "e": exp}),
        st.fixed_dictionaries({"op": st.just("strategy"), "script": script}),
        st.fixed_dictionaries({"op": st.just("distribution"), "n": st.one_of(st.none(), gen.upto(1, 40))}),
        st.fixed_dictionaries({"op": st.just("distribution"), "n": st.one_of(st.none(), gen.upto(1, 40))}),
        st.fixed_dictionaries({"op": st.just("ask"), "o": outcome_list(m)}),
    )
    return {"m": m, "e": draw(exp), "script": draw(script), "n": draw(gen.upto(1, 40)), "ops": draw(st.lists(op, min_size=2, max_size=6)),
            "ofmt": draw(gen.SFMT), "fmt": draw(gen.SFMT), "spoil": draw(st.booleans())}


def run_history(c):
    m = c["m"]
    u = gen.unitary({"k": "haar", "m": m, "seed": 1})

    def cfg(e):
        return sut.config(u, tuple(e[0]), min(e[1], sum(e[0])))

    exp, n = c["e"], c["n"]
    strat = Walking(c["script"], m, c["fmt"])
    calc = sut.sample_dist(cfg(exp), strat, n)
    given = None          # outcomes the caller insists on; False after a query for others
    for op in c["ops"]:
        if op["op"] == "samples":
            n = calc.samples_number = op["n"]
        elif op["op"] == "outcomes":
            given = op["o"]
            calc.outcomes = None if given is None else [gen.fmt_state(t, c["ofmt"]) for t in given]
        elif op["op"] == "configuration":
            exp = op["e"]
            calc.configuration = cfg(exp)
        elif op["op"] == "strategy":
            strat = calc.strategy = Walking(op["script"], m, c["fmt"])
        else:
            before = len(strat.calls)
            strat.last = []
            if op["op"] == "ask":
                raw = calc.calculate_probabilities_of_outcomes([gen.fmt_state(t, c["ofmt"]) for t in op["o"]])
                order, asked = [tuple(t) for t in op["o"]], n
                given = False
            else:
                raw = calc.calculate_distribution() if op["n"] is None else calc.calculate_approximate_distribution(op["n"])
                asked = n if op["n"] is None else op["n"]
                out = calc.get_outcomes_in_proper_order()
                order = [sut.as_state(t, m, "outcome") for t in out]
                if given and order != [tuple(t) for t in given]:
                    raise Violation("outcomes are announced as %s, given were %s" % (order, given))
                if given is None and sorted(order) != sorted(ref.states(min(exp[1], sum(exp[0])), m)):
                    raise Violation("outcomes for %d particles left in %d modes are %s" % (min(exp[1], sum(exp[0])), m, order))
            res = sut.as_probs(raw, len(order), "sample-based distribution")
            calls = strat.calls[before:]
            if sum(k for _, k in calls) != asked:
                raise Violation("%d samples were drawn, %d were requested" % (sum(k for _, k in calls), asked))
            if any(s_ != list(exp[0]) for s_, _ in calls):
                raise Violation("the strategy was asked to simulate %s instead of %s" % (calls[0][0], exp[0]))
            if len(calls) == 1:
                for t, p in zip(order, res):
                    if abs(p - strat.last.count(t) / asked) > 1e-9:
                        raise Violation("frequency of %s among %s is reported as %.9g, it was drawn %d times of %d (history %s)" % (t, order, p, strat.last.count(t), asked, c["ops"]))
            if c["spoil"]:
                gen.spoil(raw)


@st.composite
def end_case(draw):
    m = draw(gen.upto(2, 3))
    n = draw(gen.upto(1, 3))
    return {"u": draw(gen.unitary_specs(m)), "s": draw(gen.states_of(m, n)), "n": draw(st.sampled_from([300, 1000]))}


def run_end(c):
    """With a real sampler: each frequency within its exact binomial tail."""
    u = gen.unitary(c["u"])
    m = len(c["s"])
    cfg = sut.config(u, tuple(c["s"]))
    calc = sut.sample_dist(cfg, sut.gcc(sut.calc("ryser", u)), c["n"])
    res = sut.as_probs(calc.calculate_distribution(), len(ref.states(sum(c["s"]), m)), "sample-based distribution")
    d = ref.bs(u, c["s"])
    order = [tuple(int(x) for x in t) for t in calc.get_outcomes_in_proper_order()]
    if abs(sum(res) - 1) > 1e-9:
        raise Violation("frequencies sum to %r" % sum(res))
    for t, p in zip(order, res):
        k = round(p * c["n"])
        if abs(k - p * c["n"]) > 1e-6:
            raise Violation("frequency %r is not a multiple of 1/%d" % (p, c["n"]))
        w = min(d.get(t, 0.0), 1.0)
        if (w < 1e-15 and k > 0) or stats.binom_two_sided(k, c["n"], w) < 1e-12:
            raise Violation("frequency of %s is %d/%d, exact probability %.6g" % (t, k, c["n"], w))


PROP = Prop(
    "C22",
    "scripted and history: a script of at least two different outcomes, and at least one distribution asked for; end: at least two particles; many: at least one particle",
    [
        Sub("scripted", case, run, lambda c: len({tuple(x) for x in c["script"]}) >= 2, corpus=[
            dict({"left": sum(s), "outcomes": o, "ofmt": f, "fmt": "tuple", "n0": 30, "n1": None, "n2": None, "swap": False, "ask": "distribution"}, m=len(s), s=s, script=sc)
            # occupations of several digits that look alike when written without separators
            for s, sc in (([11, 1], [[11, 1], [0, 12]]), ([1, 11], [[1, 11], [12, 0]]), ([1, 1, 10], [[1, 11, 0], [11, 1, 0], [1, 1, 10], [11, 0, 1]]), ([1, 21], [[1, 21], [12, 1], [21, 1]]))
            for o, f in ((None, "tuple"), ([[11, 1, 0][:len(s)], [1, 11, 0][:len(s)]], "nd"))
        ], quick=(6, 150), thorough=(8, 2500)),
        Sub("history", history_case, run_history, lambda c: len({tuple(x) for x in c["script"]}) >= 2 and any(o["op"] in ("distribution", "ask") for o in c["ops"]), corpus=[
            {"m": 2, "e": [[1, 1], 2], "script": [[1, 1], [2, 0], [1, 1]], "n": 6, "ops": [{"op": "ask", "o": [[1, 1], [2, 0], [1, 1]]}], "ofmt": "tuple", "fmt": "tuple", "spoil": False},
        ], quick=(4, 300), thorough=(8, 3000)),
        Sub("many", many_case, run_many, lambda c: sum(c["s"]) >= 1, quick=(4, 40), thorough=(8, 400)),
        Sub("end", end_case, run_end, lambda c: sum(c["s"]) >= 2, quick=(2, 60), thorough=(4, 600)),
    ],
)
