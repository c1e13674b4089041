"""C21: distributions computed up to a requested accuracy."""
import math

from hypothesis import strategies as st

from vp import gen, ref, sut
from vp.core import Prop, Sub, Violation

from vp.props.c09 import tol_for


@st.composite
def case(draw):
    m, n = draw(gen.sizes({1: 3, 2: 4, 3: 3, 4: 3, 5: 2}).filter(lambda x: x[1] >= 1))
    big = draw(st.integers(0, 19)) == 0
    if big:     # occupations of several digits, many modes
        m, n = draw(st.sampled_from([(1, 12), (2, 12), (2, 7), (11, 2)]))
    c = {"u": draw(gen.unitary_specs(m)), "s": draw(gen.states_of(m, n)),
            "eta": draw(st.one_of(st.sampled_from([0.3, 0.5, 0.9, 1.0]), st.integers(30, 99).map(lambda k: k / 100))),
            "acc": draw(st.one_of(st.sampled_from([0.0, 0.5, 0.9, 0.99, 1.0, 1.0]), st.integers(0, 100).map(lambda k: k / 100))),
            "weighted": draw(st.booleans()), "before": draw(st.sampled_from(["none", "simulate", "compute", "same", "other", "matrix", "matrix used"])), "s0": draw(st.one_of(gen.states(m, 3, 1), st.just(None))), "reuse": draw(st.booleans()),
            "calc": draw(st.sampled_from(sut.CALC_NAMES)), "mf": draw(gen.MFMT), "sf": draw(gen.SFMT)}
    if big:     # reaching the rarest outcomes of such an experiment takes too long
        c["eta"] = draw(st.sampled_from([0.9, 0.97, 1.0]))
        c["acc"] = min(c["acc"], 0.9)
        c["calc"] = draw(st.sampled_from(["ryser", "chinhuh"]))
        if c["before"] in ("same", "other"):
            c["before"] = "compute"
    if c["before"].startswith("matrix"):
        c["u0"] = draw(gen.next_spec([c["u"]], gen.unitary_specs(m)))
    if c["s0"] is None:     # the same particles, differently arranged
        c["s0"] = list(draw(st.permutations(c["s"])))
    return c


def within_reach(u, s, eta, acc, weighted, rarest=4e-4):
    """The accuracy, lowered if reaching it would mean waiting for an event rarer than the
    given probability: the entries of the outcomes with one particle more than r become
    known when a run passes r and has another particle to place."""
    n, m = sum(s), len(s)
    law = [ref.fixed_losses(u, s, l) for l in range(n + 1)]
    b = [math.comb(n, l) * eta ** l * (1 - eta) ** (n - l) for l in range(n + 1)]
    found = {}
    for l in range(n):
        more = sum(b[l + 1:])
        for r, p in law[l].items():
            if p * more >= rarest:
                for i in range(m):
                    t = r[:i] + (r[i] + 1,) + r[i + 1:]
                    found[t] = law[l + 1].get(t, 0.0) * (b[l + 1] if weighted else 1 / n)
    total = sum(found.values()) + (b[0] if weighted else 0.0)
    return acc if acc <= total or total > 1 - 5e-9 else max(0.0, total - 1e-6)


def run(c):
    u = gen.unitary(c["u"])
    s, m, n, eta = c["s"], len(c["s"]), sum(c["s"]), c["eta"]
    put = gen.Reuse(c.get("reuse", False))
    if c.get("u0"):
        # a sampler made for another matrix, possibly used with it, and then given this one
        strat = sut.ugcc(sut.calc(c["calc"], put("u", gen.fmt_matrix(gen.unitary(c["u0"]), c["mf"]))), eta)
        if c["before"] == "matrix used":
            gen.spoil(strat.compute_distribution_up_to_accuracy(put("s", gen.fmt_state(s, c["sf"])), within_reach(gen.unitary(c["u0"]), s, eta, 0.9, True)))
        strat.set_new_matrix(put("u", gen.fmt_matrix(u, c["mf"])))
    else:
        strat = sut.ugcc(sut.calc(c["calc"], gen.fmt_matrix(u, c["mf"])), eta)
    if c["before"] in ("same", "other"):
        # an earlier request, of the same or the other kind, whose answer the caller overwrites
        x = put("s", gen.fmt_state(c["s0"], c["sf"]))
        ask = strat.compute_distribution_up_to_accuracy if c["weighted"] == (c["before"] == "same") else strat.compute_unweighted_distribution_up_to_accuracy
        first = within_reach(u, c["s0"], eta, 1.0, c["weighted"] == (c["before"] == "same"))
        gen.spoil(ask(x, first))
    arg = put("s", gen.fmt_state(s, c["sf"]))
    c = dict(c, acc=within_reach(u, s, eta, c["acc"], c["weighted"]))
    if c["before"] == "simulate":
        strat.simulate(arg, 3)
    elif c["before"] == "compute":
        strat.compute_distribution_up_to_accuracy(gen.fmt_state([1] + [0] * (m - 1), c["sf"]), 0.5)
    outcomes = [tuple(t) for t in sut.utils().generate_possible_states(n, m, losses=True)]
    what = "input %s, transmissivity %s, accuracy %s, %s" % (s, eta, c["acc"], c["u"])
    if c["weighted"]:
        res = sut.as_probs(strat.compute_distribution_up_to_accuracy(arg, c["acc"]), len(outcomes), "compute_distribution_up_to_accuracy")
        d = ref.uniform_losses(u, s, eta)
        got = sum(res)
    else:
        res = sut.as_probs(strat.compute_unweighted_distribution_up_to_accuracy(arg, c["acc"]), len(outcomes), "compute_unweighted_distribution_up_to_accuracy")
        d = {}
        for l in range(1, n + 1):
            d.update(ref.fixed_losses(u, s, l))
        got = sum(res) / n
    for t, p in zip(outcomes, res):
        if sum(t) == 0 and not c["weighted"]:
            continue  # the conditional entry of the empty outcome is left unspecified
        w = d.get(t, 0.0)
        if abs(p) > tol_for(n) and abs(p - w) > tol_for(n):
            raise Violation("%s (%s): entry of %s is %.12g, neither 0 nor the exact %.12g" % (what, "weighted" if c["weighted"] else "per particle number", t, p, w))
    if got < c["acc"] - 1e-7:
        raise Violation("%s: only %.9g of the probability was covered" % (what, got))
    if c["acc"] == 1.0:
        for t, p in zip(outcomes, res):
            if sum(t) and abs(p - d.get(t, 0.0)) > 1e-6:
                raise Violation("%s: full accuracy requested, entry of %s is %.12g, expected %.12g" % (what, t, p, d.get(t, 0.0)))


PROP = Prop(
    "C21",
    "at least two particles in at least two modes of a matrix that mixes modes, accuracy above 0",
    [Sub("accuracy", case, run, lambda c: len(c["s"]) >= 2 and sum(c["s"]) >= 2 and c["acc"] > 0 and c["u"]["k"] in ("haar", "orth", "qft", "block", "bs"), quick=(8, 1500), thorough=(8, 6000))],
)
