"""C09: exact distribution with a fixed number of lost particles."""
from hypothesis import strategies as st

from vp import gen, ref, sut
from vp.core import Prop, Sub, Violation

TOL = 1e-9


def tol_for(n):
    """The formulas for n particles cancel: with many particles in few modes a few
    parts in 1e9 are lost at 13 or 14 of them."""
    return TOL if n <= 9 else 1e-7


def check_distribution(d, outcomes, probs, what, n=0, tol=None):
    unit = tol_for(n)
    tol = tol or (lambda t: unit)
    if len(set(outcomes)) != len(outcomes):
        raise Violation("%s: an outcome is listed twice" % what)
    for t, p in zip(outcomes, probs):
        w = d.get(t, 0.0)
        if abs(p - w) > tol(t):
            raise Violation("%s: probability of %s is %.12g, expected %.12g" % (what, t, p, w))
    missing = [t for t, w in d.items() if w > tol(t) and t not in set(outcomes)]
    if missing:
        raise Violation("%s: possible outcome %s is not listed" % (what, missing[0]))
    if abs(sum(probs) - 1) > unit * max(10, len(probs)):
        raise Violation("%s: probabilities sum to %.12g" % (what, sum(probs)))


@st.composite
def case(draw):
    m = draw(gen.upto(1, 7))
    n = draw(gen.upto(0, {1: 8, 2: 7, 3: 5, 4: 4, 5: 3, 6: 3, 7: 2}[m]))
    if draw(st.integers(0, 9)) == 0:
        m, n = draw(st.sampled_from([(1, 10), (1, 12), (2, 9), (2, 12), (3, 7), (3, 11), (9, 2), (11, 2), (12, 2), (14, 2), (18, 1)]))
    s = draw(gen.states_of(m, n))
    return {
        "u": draw(gen.unitary_specs(m)), "s": s, "left": draw(st.integers(0, n)),
        "calc": draw(st.sampled_from(sut.CALC_NAMES if n <= 6 else sut.CALC_NAMES[:2])), "mf": draw(gen.MFMT), "sf": draw(gen.SFMT),
        "blank": draw(st.booleans()), "spoil": draw(st.booleans()),
    }


def run(c):
    u = gen.unitary(c["u"])
    s, m = c["s"], len(c["s"])
    mat = gen.fmt_matrix(u, c["mf"])
    cfg = sut.config(mat, gen.fmt_state(s, c["sf"]), c["left"])
    pc = sut.calc(c["calc"], mat) if c["blank"] else sut.calc(c["calc"], mat, gen.fmt_state(s, c["sf"]), gen.fmt_state(s, c["sf"]))
    calc = sut.fixed_dist(cfg, pc)
    raw = calc.get_outcomes_in_proper_order()
    outcomes = [sut.as_state(t, m, "outcome") for t in raw]
    if c.get("spoil"):
        gen.spoil(raw)
    for _ in range(2 if c.get("spoil") else 1):
        raw = calc.calculate_distribution()
        probs = sut.as_probs(raw, len(outcomes), "calculate_distribution")
        if c.get("spoil"):
            gen.spoil(raw)
    check_distribution(ref.fixed_losses(u, s, c["left"]), outcomes, probs,
                       "input %s, %d left, %s, calculator %s" % (s, c["left"], c["u"], c["calc"]), sum(s))


PROP = Prop(
    "C09",
    "at least two modes and two particles, a matrix that mixes modes (not identity, permutation or phases)",
    [Sub("distribution", case, run, lambda c: len(c["s"]) >= 2 and sum(c["s"]) >= 2 and c["u"]["k"] in ("haar", "orth", "qft", "block", "bs"), corpus=[
        {"u": {"k": "haar", "m": 3, "seed": 9}, "s": [0, 0, 0], "left": 0, "calc": "ryser", "mf": "nd", "sf": "tuple", "blank": True},
        {"u": {"k": "haar", "m": 3, "seed": 9}, "s": [2, 0, 3], "left": 0, "calc": "ryser", "mf": "nd", "sf": "tuple", "blank": True},
        {"u": {"k": "haar", "m": 3, "seed": 9}, "s": [2, 0, 3], "left": 3, "calc": "glynn", "mf": "nd", "sf": "nd", "blank": True},
        {"u": {"k": "haar", "m": 6, "seed": 9}, "s": [1, 0, 1, 0, 0, 1], "left": 2, "calc": "chinhuh", "mf": "list", "sf": "nd", "blank": False},
    ], quick=(8, 1800), thorough=(8, 8000))],
)
