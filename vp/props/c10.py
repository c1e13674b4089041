"""C10: exact distribution with uniform losses."""
import math

from hypothesis import strategies as st

from vp import gen, ref, sut
from vp.core import Prop, Sub, Violation
from vp.props.c09 import check_distribution, tol_for


@st.composite
def case(draw):
    m = draw(gen.upto(1, 6))
    n = draw(gen.upto(0, {1: 6, 2: 5, 3: 4, 4: 3, 5: 3, 6: 2}[m]))
    if draw(st.integers(0, 9)) == 0:
        m, n = draw(st.sampled_from([(1, 10), (1, 12), (2, 8), (2, 12), (3, 6), (8, 2), (11, 2), (12, 2), (16, 1)]))
    return {
        "u": draw(gen.unitary_specs(m)), "s": draw(gen.states_of(m, n)), "eta": draw(gen.TRANS),
        "calc": draw(st.sampled_from(sut.CALC_NAMES if n <= 6 else sut.CALC_NAMES[:2])), "mf": draw(gen.MFMT), "sf": draw(gen.SFMT),
        "toggle": draw(st.lists(st.booleans(), max_size=3)),
        # what the configuration says about the particles left must not matter here
        "left": draw(st.integers(0, n)), "spoil": draw(st.booleans()),
    }


def run(c):
    u = gen.unitary(c["u"])
    s, m, n, eta = c["s"], len(c["s"]), sum(c["s"]), c["eta"]
    mat = gen.fmt_matrix(u, c["mf"])
    cfg = sut.config(mat, gen.fmt_state(s, c["sf"]), c["left"], eta)
    calc = sut.uniform_dist(cfg, sut.calc(c["calc"], mat, gen.fmt_state(s, c["sf"]), gen.fmt_state(s, c["sf"])))
    raw = calc.get_outcomes_in_proper_order()
    outcomes = [sut.as_state(t, m, "outcome") for t in raw]
    if c.get("spoil"):
        gen.spoil(raw)
    what = "input %s, transmissivity %s, %s, calculator %s" % (s, eta, c["u"], c["calc"])
    d = ref.uniform_losses(u, s, eta)
    d2 = ref.lossy(u * math.sqrt(eta), s)  # the two physical pictures agree
    for t in set(d) | set(d2):
        if abs(d.get(t, 0) - d2.get(t, 0)) > 1e-10:
            raise AssertionError("reference models disagree")
    for _ in range(2 if c.get("spoil") else 1):
        raw = calc.calculate_distribution()
        probs = sut.as_probs(raw, len(outcomes), "calculate_distribution")
        if c.get("spoil"):
            gen.spoil(raw)
    # rare particle numbers are checked relative to their own weight
    weight = [math.comb(n, l) * eta ** l * (1 - eta) ** (n - l) for l in range(n + 1)]
    unit = tol_for(n)
    tol = lambda t: unit * (weight[sum(t)] if sum(t) <= n else 0) + 1e-14
    check_distribution(d, outcomes, probs, what, n, tol)
    weightless = False
    for flag in c["toggle"]:
        calc.set_weightless(flag)
        weightless = flag
    if c["toggle"]:
        probs = sut.as_probs(calc.calculate_distribution(), len(outcomes), "calculate_distribution")
        if not weightless:
            check_distribution(d, outcomes, probs, what + " after switching weights off and on", n, tol)
        else:
            for l in range(n + 1):
                part = ref.fixed_losses(u, s, l)
                for t, p in zip(outcomes, probs):
                    if sum(t) == l and abs(p - part.get(t, 0.0)) > unit:
                        raise Violation("%s, weightless: probability of %s given %d particles left is %.12g, expected %.12g" % (what, t, l, p, part.get(t, 0.0)))


PROP = Prop(
    "C10",
    "at least two modes and two particles, transmissivity strictly between 0 and 1, a matrix that mixes modes",
    [Sub("distribution", case, run, lambda c: len(c["s"]) >= 2 and sum(c["s"]) >= 2 and 0 < c["eta"] < 1 and c["u"]["k"] in ("haar", "orth", "qft", "block", "bs"), corpus=[
        {"u": {"k": "haar", "m": 3, "seed": 9}, "s": [0, 0, 0], "eta": 0.5, "calc": "ryser", "mf": "nd", "sf": "tuple", "toggle": [], "left": 0},
        {"u": {"k": "haar", "m": 3, "seed": 9}, "s": [2, 0, 1], "eta": 1.0, "calc": "ryser", "mf": "nd", "sf": "tuple", "toggle": [], "left": 3},
        {"u": {"k": "haar", "m": 3, "seed": 9}, "s": [2, 0, 1], "eta": 0.0, "calc": "ryser", "mf": "nd", "sf": "tuple", "toggle": [True], "left": 2},
        {"u": {"k": "haar", "m": 5, "seed": 9}, "s": [1, 0, 1, 0, 1], "eta": 0.4, "calc": "glynn", "mf": "list", "sf": "nd", "toggle": [True, False], "left": 1},
    ], quick=(8, 1500), thorough=(8, 4000))],
)
