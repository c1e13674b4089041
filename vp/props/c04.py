"""C04: state types, their number and their multiplicities."""
import math
from collections import Counter

from hypothesis import strategies as st

from vp import gen, ref, sut
from vp.core import Prop, Sub, Violation


@st.composite
def case(draw):
    n, m = draw(st.one_of(st.tuples(st.integers(0, 13), st.integers(1, 10)), st.tuples(st.integers(0, 13), st.integers(1, 10)),
                          st.tuples(st.integers(0, 7), gen.upto(11, 60)), st.tuples(gen.upto(14, 40), st.integers(1, 3))))
    return {"n": n, "m": m, "losses": draw(st.booleans()), "np": draw(gen.NP)}


def multinomial(t):
    v = math.factorial(len(t))
    for c in Counter(t).values():
        v //= math.factorial(c)
    return v


def run_types(c):
    n, m, losses = c["n"], c["m"], c["losses"]
    u = sut.utils()
    num = gen.num(c)
    raw = u.generate_state_types(num(m), num(n), losses)
    got = [sut.as_state(s, m, "state type") for s in raw]
    want = set()
    for k in range(0 if losses else n, n + 1):
        for p in ref.partitions(k, None, m):
            want.add(tuple(p) + (0,) * (m - len(p)))
    for t in got:
        if list(t) != sorted(t, reverse=True):
            raise Violation("state type %s is not in non-increasing order" % (t,))
    if len(set(got)) != len(got):
        raise Violation("m=%d n=%d losses=%s: a state type is listed twice" % (m, n, losses))
    if set(got) != want:
        raise Violation("m=%d n=%d losses=%s: missing types %s, unexpected %s" % (m, n, losses, sorted(want - set(got))[:3], sorted(set(got) - want)[:3]))
    gen.spoil(raw)
    again = [sut.as_state(s, m, "state type") for s in u.generate_state_types(m, n, losses)]
    if len(again) != len(got) or set(again) != set(got):
        raise Violation("m=%d n=%d losses=%s: a second call lists other types" % (m, n, losses))
    if not losses:
        if [sut.as_state(s, m, "state type") for s in u.generate_state_types(m, n)] != again:
            raise Violation("losses are not off by default in the state types")
        if sut.as_int(u.compute_number_of_state_types(m, n), "number of state types") != len(want):
            raise Violation("losses are not off by default in the number of state types")
    cnt = sut.as_int(u.compute_number_of_state_types(num(m), num(n), losses), "number of state types")
    if cnt != len(want):
        raise Violation("number of state types for m=%d n=%d losses=%s is %d, expected %d" % (m, n, losses, cnt, len(want)))
    total = sum(sut.as_int_exact(u.compute_number_of_states_of_given_type(t), "states of type") for t in got)
    dim = math.comb(n + m, n) if losses else math.comb(n + m - 1, n)
    if total != dim:
        raise Violation("m=%d n=%d losses=%s: the state types account for %d states of %d" % (m, n, losses, total, dim))


@st.composite
def mult(draw):
    m = draw(gen.upto(1, 60))
    top = draw(st.sampled_from([1, 3, 5, 5, 12, 70]))
    vals = draw(st.lists(st.integers(0, top), min_size=m, max_size=m))
    return {"t": vals, "as": draw(st.sampled_from(["tuple", "list"]))}


def run_mult(c):
    t = gen.fmt_state(c["t"], c["as"])
    got = sut.as_int_exact(sut.utils().compute_number_of_states_of_given_type(t), "states of type")
    if got != multinomial(c["t"]):
        raise Violation("number of states of type %s is %d, expected %d" % (t, got, multinomial(c["t"])))


@st.composite
def part(draw):
    n = draw(gen.upto(1, 36))
    if draw(st.integers(0, 3)) == 0:
        n = draw(gen.upto(37, 300))
        k = draw(st.sampled_from([1, 2, 3, 4, 5, n - 6, n - 2, n - 1, n, n + 1]))
        return {"n": n, "k": k if k != 5 or n <= 120 else 2, "np": draw(gen.NP)}
    return {"n": n, "k": draw(st.integers(1, n + 3)), "np": draw(gen.NP)}


def run_part(c):
    num = gen.num(c)
    got = sut.as_int(sut.utils().compute_number_of_k_element_integer_partitions_of_n(num(c["k"]), num(c["n"])), "partitions")
    want = ref.partitions_k(c["n"], c["k"])
    if got != want:
        raise Violation("partitions of %d into %d parts: %d, expected %d" % (c["n"], c["k"], got, want))


PROP = Prop(
    "C04",
    "types: at least 2 modes and 2 particles; multiplicity: at least 2 distinct occupations; partitions: 1 < k < n",
    [
        Sub("types", case, run_types, lambda c: c["n"] >= 2 and c["m"] >= 2, corpus=[
            {"n": n, "m": m, "losses": l} for n in range(0, 5) for m in range(1, 5) for l in (False, True)
        ], quick=(4, 300), thorough=(8, 400)),
        Sub("multiplicity", mult, run_mult, lambda c: len(set(c["t"])) >= 2, corpus=[
            {"t": [1] * k + [0] * (m - k), "as": "tuple"} for m, k in ((24, 12), (25, 12), (30, 15), (60, 30))
        ], quick=(2, 800), thorough=(4, 3000)),
        Sub("partitions", part, run_part, lambda c: 1 < c["k"] < c["n"], quick=(1, 600), thorough=(2, 1500)),
    ],
)
