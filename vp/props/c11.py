"""C11: queries on a distribution calculator (any outcomes, any order, any history)."""
import copy

import numpy as np
from hypothesis import strategies as st

from vp import gen, ref, sut
from vp.core import Prop, Sub, Violation
from vp.props.c09 import tol_for


@st.composite
def experiment(draw, m):
    n = draw(gen.upto(0, {1: 4, 2: 4, 3: 3, 4: 3}.get(m, 2)))
    if m in (2, 3) and draw(st.integers(0, 11)) == 0:
        n = draw(st.sampled_from([7, 11, 12, 13] if m == 2 else [6, 11]))
    return {"u": draw(gen.unitary_specs(m)), "s": draw(gen.states_of(m, n)), "left": draw(st.integers(0, n)), "eta": draw(gen.TRANS),
            "kind": draw(st.sampled_from(["fixed", "uniform"]))}


@st.composite
def query(draw, k):
    return {"which": draw(st.integers(0, k - 1)),
            "op": draw(st.sampled_from(["all", "some", "some", "some", "shuffled", "outcomes"])),
            "picks": draw(st.lists(st.tuples(st.integers(0, 5), gen.SEED), max_size=6)),
            "fmt": draw(gen.SFMT)}


@st.composite
def case(draw):
    k = draw(st.integers(1, 3))
    m = draw(st.one_of(gen.upto(1, 4), gen.upto(1, 4), gen.upto(1, 4), gen.upto(1, 4), st.sampled_from([6, 9, 11, 13])))
    same = draw(st.booleans())
    exps = []
    for _ in range(k):
        e = draw(experiment(m if same or m > 4 else draw(st.integers(1, 4))))
        e["u"] = draw(gen.next_spec([x["u"] for x in exps], st.just(e["u"])))
        e["s"] = draw(gen.next_state([x["s"] for x in exps], st.just(e["s"])))
        exps.append(e)
    big = any(sum(e["s"]) > 5 for e in exps)
    return {"exps": exps, "calc": draw(st.sampled_from(["ryser", "chinhuh"] if big else ["ryser", "chinhuh", "glynn", "classic"])), "shared": draw(st.booleans()),
            "spoil": draw(st.booleans()), "queries": draw(st.lists(query(k), min_size=1, max_size=5))}


@st.composite
def crowded_case(draw):
    """Many particles in two (or three) modes: occupation numbers of two digits."""
    exps = []
    for _ in range(draw(st.sampled_from([1, 1, 2]))):
        m = draw(st.sampled_from([2, 2, 2, 3]))
        n = draw(st.integers(10, 14 if m == 2 else 11))
        kind = draw(st.sampled_from(["fixed", "fixed", "uniform"]))
        exps.append({"u": draw(gen.unitary_specs(m)), "s": draw(gen.states_of(m, n)), "left": draw(st.integers(n - 2, n)),
                     "eta": draw(gen.TRANS), "kind": kind if m == 2 else "fixed"})
    qs = draw(st.lists(query(len(exps)), min_size=1, max_size=2))
    qs.append({"which": 0, "op": draw(st.sampled_from(["all", "shuffled"])), "picks": [[0, draw(gen.SEED)]], "fmt": draw(gen.SFMT)})
    return {"exps": exps, "calc": draw(st.sampled_from(["ryser", "chinhuh"])), "shared": draw(st.booleans()), "spoil": False, "queries": qs}


def run(c):
    shared = None
    calcs = []
    for e in c["exps"]:
        u = gen.unitary(e["u"])
        s = list(e["s"])
        mat = u.copy()
        cfg = sut.config(mat, s, e["left"], e["eta"])
        if c["shared"]:
            if shared is None:
                shared = sut.calc(c["calc"], u)
            pc = shared
        else:
            pc = sut.calc(c["calc"], u.copy())
        d = ref.fixed_losses(u, e["s"], e["left"]) if e["kind"] == "fixed" else ref.uniform_losses(u, e["s"], e["eta"])
        calc = (sut.fixed_dist if e["kind"] == "fixed" else sut.uniform_dist)(cfg, pc)
        calcs.append((calc, d, e, len(s)))
        if c["spoil"]:
            # the caller goes on using its own objects
            mat[:] = 0
            s[:] = [0] * len(s)
            cfg.number_of_particles_left = 0
            cfg.initial_number_of_particles = 0
            cfg.uniform_transmissivity = 0.123
    for q in c["queries"]:
        calc, d, e, m = calcs[q["which"]]
        what = "%s losses, input %s, left %d, transmissivity %s" % (e["kind"], e["s"], e["left"], e["eta"])
        raw = calc.get_outcomes_in_proper_order()
        outcomes = [sut.as_state(t, m, "outcome") for t in raw]
        gen.spoil(raw)
        if q["op"] == "outcomes":
            want = {t for k in (range(sum(e["s"]) + 1) if e["kind"] == "uniform" else [e["left"]]) for t in ref.states(k, m)}
            if set(outcomes) != want or len(outcomes) != len(want):
                raise Violation("%s: the outcome list is not the list of possible outcomes" % what)
            continue
        if q["op"] == "all":
            asked = outcomes
            raw = calc.calculate_distribution()
            probs = sut.as_probs(raw, len(asked), "calculate_distribution")
            gen.spoil(raw)
        else:
            asked = []
            if q["op"] == "shuffled":
                # everything at once, in another order
                order = np.random.RandomState(sum(x for _, x in q["picks"]) % 2 ** 32).permutation(len(outcomes))
                asked = [outcomes[i] for i in order[:200]]
            for kind, x in q["picks"]:
                if kind <= 2:
                    asked.append(outcomes[x % len(outcomes)])       # listed outcome
                elif kind == 3 and asked:
                    asked.append(asked[x % len(asked)])             # repeated
                else:                                              # any other particle number
                    k = x % (sum(e["s"]) + 3)
                    pool = ref.states(k, m)
                    asked.append(pool[x // 7 % len(pool)])
            arg = [gen.fmt_state(t, q["fmt"]) for t in asked]
            keep = copy.deepcopy(arg)
            raw = calc.calculate_probabilities_of_outcomes(arg)
            probs = sut.as_probs(raw, len(asked), "calculate_probabilities_of_outcomes")
            if not gen.same(arg, keep):
                raise Violation("the list of queried outcomes was modified")
            gen.spoil(raw)
        for t, p in zip(asked, probs):
            if abs(p - d.get(t, 0.0)) > tol_for(sum(e["s"])):
                raise Violation("%s: probability of %s is %.12g, expected %.12g (query %s)" % (what, t, p, d.get(t, 0.0), q["op"]))


def findings():
    """The third calculator of the package, the separable-states approximation, is
    driven through its constructor and its query interface."""
    import importlib

    u = gen.unitary({"k": "haar", "m": 3, "seed": 1})
    mod = importlib.import_module("theboss.distribution_calculators.bs_appriximated_distribution_from_separable_states_calculator")
    cls = mod.BSApproximatedLossyDistributionCalculator
    cfg = sut.config(u, [1, 1, 0], 2, 0.5, 1)
    try:
        calc = cls(cfg, sut.calc("ryser", u, [1, 1, 0], [1, 1, 0]))
    except Exception as e:
        return [("approximated-calculator-construction", "the separable-states approximation calculator cannot be constructed: %r" % (e,))]
    try:
        outcomes = list(calc.get_outcomes_in_proper_order())
        probs = [float(np.real(p)) for p in calc.calculate_distribution()]
    except Exception as e:
        return [("approximated-calculator-query", "the separable-states approximation calculator fails on a query: %r" % (e,))]
    if len(probs) != len(outcomes) or sum(probs) > 1 + 1e-6 or min(probs) < -1e-9:
        return [("approximated-calculator-values", "the separable-states approximation calculator returns %d values summing to %r for %d outcomes" % (len(probs), sum(probs), len(outcomes)))]
    return []


PROP = Prop(
    "C11",
    "queries: at least one probability query on an experiment with two or more particles in two or more modes; crowded: every case (ten or more particles in two or three modes)",
    [Sub("queries", case, run, lambda c: any(q["op"] != "outcomes" and sum(c["exps"][q["which"]]["s"]) >= 2 and len(c["exps"][q["which"]]["s"]) >= 2 for q in c["queries"]), quick=(8, 1000), thorough=(8, 6000)),
     Sub("crowded", crowded_case, run, quick=(8, 60), thorough=(8, 600))],
    findings=findings,
)
