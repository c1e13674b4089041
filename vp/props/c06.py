"""C06: inputs that can remain after a fixed number of particles is lost."""
from hypothesis import strategies as st

from vp import gen, ref, sut
from vp.core import Prop, Sub, Violation


@st.composite
def case(draw):
    m = draw(gen.upto(1, 9))
    s = draw(gen.states(m, 14 if m <= 2 else 9 if m <= 4 else 7))
    if draw(st.integers(0, 6)) == 0:        # many particles, many modes
        m, n = draw(st.sampled_from([(1, 60), (2, 15), (3, 14), (12, 6), (14, 8), (30, 4), (60, 3)]))
        s = draw(gen.states_of(m, n))
        if n == 60:
            return {"s": s, "left": draw(st.sampled_from([0, 1, 2, 58, 59, 60])), "fmt": draw(gen.SFMT)}
    return {"s": s, "left": draw(st.integers(0, sum(s))), "fmt": draw(gen.SFMT), "np": draw(gen.NP)}


def run(c):
    s, left = c["s"], c["left"]
    got = sut.utils().generate_lossy_n_particle_input_states(gen.fmt_state(s, c["fmt"]), gen.num(c)(left))
    states = [sut.as_state(x, len(s), "lossy input") for x in got]
    if len(set(states)) != len(states):
        raise Violation("input %s, %d left: a state is listed twice: %s" % (s, left, states))
    want = set(ref.substates(s, left))
    gen.spoil(got)
    again = [sut.as_state(x, len(s), "lossy input") for x in sut.utils().generate_lossy_n_particle_input_states(gen.fmt_state(s, c["fmt"]), left)]
    if set(states) == want and (len(again) != len(states) or set(again) != want):
        raise Violation("input %s, %d left: a second call lists other states" % (s, left))
    if set(states) != want:
        raise Violation("input %s, %d left: missing %s, unexpected %s" % (s, left, sorted(want - set(states))[:3], sorted(set(states) - want)[:3]))


PROP = Prop(
    "C06",
    "at least two particles of which some, not all, are lost",
    [Sub("substates", case, run, lambda c: sum(c["s"]) >= 2 and 0 < c["left"] < sum(c["s"]), corpus=[
        {"s": [0, 0], "left": 0, "fmt": "tuple"}, {"s": [2, 0, 3], "left": 0, "fmt": "nd"}, {"s": [2, 0, 3], "left": 5, "fmt": "list"},
        {"s": [10, 2], "left": 6, "fmt": "list"},
    ], quick=(8, 1500), thorough=(8, 5000))],
)
