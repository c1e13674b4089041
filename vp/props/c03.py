"""C03: enumeration and dimension of the (lossy) bosonic outcome space."""
import math

from hypothesis import strategies as st

from vp import gen, ref, sut
from vp.core import Prop, Sub, Violation


@st.composite
def case(draw):
    m = draw(st.one_of(gen.upto(1, 9), gen.upto(1, 9), gen.upto(10, 70), st.integers(71, 300)))
    cap = {1: 300, 2: 60, 3: 20, 4: 11, 5: 8, 6: 6, 7: 5, 8: 4, 9: 4}.get(m, 3 if m <= 20 else 2 if m <= 90 else 1)
    return {"n": draw(st.integers(0, cap)), "m": m, "losses": draw(st.booleans()), "np": draw(gen.NP)}


def run_enum(c):
    num = gen.num(c)
    n, m, losses = c["n"], c["m"], c["losses"]
    u = sut.utils()
    got = list(u.generate_possible_states(num(n), num(m), losses))
    states = [sut.as_state(s, m, "generated state") for s in got]
    want = set()
    for k in range(0 if losses else n, n + 1):
        want |= set(ref.states(k, m))
    if len(set(states)) != len(states):
        dup = [s for s in set(states) if states.count(s) > 1][0]
        raise Violation("n=%d m=%d losses=%s: state %s is listed more than once" % (n, m, losses, dup))
    if set(states) != want:
        raise Violation("n=%d m=%d losses=%s: missing %s, unexpected %s" % (n, m, losses, sorted(want - set(states))[:3], sorted(set(states) - want)[:3]))
    dim = sut.as_int(u.bosonic_space_dimension(n, m, losses), "dimension")
    if dim != len(want):
        raise Violation("dimension for n=%d m=%d losses=%s is %d, there are %d states" % (n, m, losses, dim, len(want)))
    # what the caller does with a list it was given does not reach later enumerations
    gen.spoil(got)
    again = [sut.as_state(s, m, "generated state") for s in u.generate_possible_states(n, m, losses)]
    if again != states:
        raise Violation("n=%d m=%d losses=%s: two enumerations differ" % (n, m, losses))
    if not losses:
        default = [sut.as_state(s, m, "generated state") for s in u.generate_possible_states(n, m)]
        if default != states:
            raise Violation("n=%d m=%d: losses are not off by default" % (n, m))
        if sut.as_int(u.bosonic_space_dimension(n, m), "dimension") != len(want):
            raise Violation("n=%d m=%d: losses are not off by default in the dimension" % (n, m))


@st.composite
def several(draw):
    return {"calls": draw(st.lists(st.tuples(st.integers(0, 5), gen.upto(1, 4), st.booleans(), st.booleans()).map(list), min_size=2, max_size=6))}


def run_several(c):
    """Enumerations of different sizes in one session, some of their results overwritten."""
    u = sut.utils()
    for n, m, losses, spoiled in c["calls"]:
        got = u.generate_possible_states(n, m, losses)
        states = [sut.as_state(s, m, "generated state") for s in got]
        want = {t for k in range(0 if losses else n, n + 1) for t in ref.states(k, m)}
        if len(states) != len(want) or set(states) != want:
            raise Violation("n=%d m=%d losses=%s after %s: %d states listed, %d expected" % (n, m, losses, c["calls"], len(states), len(want)))
        if spoiled:
            gen.spoil(got)


@st.composite
def nothing(draw):
    """Sizes without any state."""
    n, m = draw(st.one_of(st.tuples(st.integers(-9, -1), st.integers(1, 9)), st.tuples(st.integers(1, 9), st.just(0))))
    return {"n": n, "m": m, "losses": False}


def run_nothing(c):
    got = list(sut.utils().generate_possible_states(c["n"], c["m"], c["losses"]))
    if got:
        raise Violation("n=%d m=%d: there is no such state, but %s are listed" % (c["n"], c["m"], got[:3]))


@st.composite
def big(draw):
    return {"n": draw(st.one_of(gen.upto(0, 40), st.integers(0, 300))), "m": draw(st.one_of(gen.upto(1, 40), st.integers(1, 300))), "losses": draw(st.booleans()), "np": draw(gen.NP)}


def run_dim(c):
    n, m, losses = c["n"], c["m"], c["losses"]
    num = gen.num(c)
    got = sut.as_int_exact(sut.utils().bosonic_space_dimension(num(n), num(m), losses), "dimension")
    want = math.comb(n + m, n) if losses else math.comb(n + m - 1, n)
    if got != want:
        raise Violation("dimension for n=%d m=%d losses=%s is %d, expected %d" % (n, m, losses, got, want))


PROP = Prop(
    "C03",
    "enumeration: at least 2 modes and 2 particles; nothing: always; several: one call with at least 2 modes and 2 particles; dimension: at least 2 modes and 2 particles",
    [
        Sub("enumeration", case, run_enum, lambda c: c["n"] >= 2 and c["m"] >= 2, corpus=[
            {"n": n, "m": m, "losses": l} for n in range(0, 5) for m in range(1, 5) for l in (False, True)
        ], quick=(8, 200), thorough=(8, 600)),
        Sub("several", several, run_several, lambda c: any(n >= 2 and m >= 2 for n, m, _, _ in c["calls"]), quick=(2, 400), thorough=(4, 2000)),
        Sub("nothing", nothing, run_nothing, lambda c: True, quick=(1, 60), thorough=(1, 300)),
        Sub("dimension", big, run_dim, lambda c: c["n"] >= 2 and c["m"] >= 2, quick=(2, 1000), thorough=(4, 4000)),
    ],
)
