"""C05: conversions between mode occupation and mode assignment."""
import random

from hypothesis import strategies as st

from vp import gen, sut
from vp.core import Prop, Sub, Violation


@st.composite
def case(draw):
    m = draw(st.one_of(gen.upto(1, 9), gen.upto(1, 9), gen.upto(10, 70)))
    big = draw(st.sampled_from([[], [], [10, 40, 300]]))
    s = draw(st.lists(st.sampled_from([0, 0, 1, 1, 2, 3, 7] + big), min_size=m, max_size=m))
    return {"s": s, "fmt": draw(gen.SFMT), "afmt": draw(gen.SFMT), "shuffle": draw(gen.SEED), "extra": draw(st.integers(0, 3))}


def run(c):
    u = sut.utils()
    s = c["s"]
    m = len(s)
    got = u.mode_occupation_to_mode_assignment(gen.fmt_state(s, c["fmt"]))
    assign = tuple(sut.as_int(x, "mode assignment entry") for x in got)
    want = tuple(i for i, k in enumerate(s) for _ in range(k))
    if assign != want:
        raise Violation("mode assignment of %s is %s, expected %s" % (s, assign, want))
    gen.spoil(got)
    again = tuple(sut.as_int(x, "mode assignment entry") for x in u.mode_occupation_to_mode_assignment(gen.fmt_state(s, c["fmt"])))
    if again != want:
        raise Violation("a second conversion of %s gives %s, the first one %s" % (s, again, want))
    # back, with the number of modes given, from any order of the particles
    order = list(want)
    random.Random(c["shuffle"]).shuffle(order)
    back = u.mode_assignment_to_mode_occupation(gen.fmt_state(order, c["afmt"]), m)
    if sut.as_state(back, m, "mode occupation") != tuple(s):
        raise Violation("assignment %s in %d modes converts to %s, expected %s" % (order, m, back, tuple(s)))
    gen.spoil(back)
    back = u.mode_assignment_to_mode_occupation(gen.fmt_state(want, c["afmt"]), m)
    if sut.as_state(back, m, "mode occupation") != tuple(s):
        raise Violation("a second conversion of %s in %d modes gives %s, expected %s" % (want, m, back, tuple(s)))
    more = u.mode_assignment_to_mode_occupation(gen.fmt_state(order, c["afmt"]), m + c["extra"])
    if sut.as_state(more, m + c["extra"], "mode occupation") != tuple(s) + (0,) * c["extra"]:
        raise Violation("assignment %s in %d modes converts to %s" % (order, m + c["extra"], more))
    # number of modes implied
    if order:
        last = max(order) + 1
        implied = u.mode_assignment_to_mode_occupation(gen.fmt_state(order, c["afmt"]))
        if sut.as_state(implied, last, "mode occupation") != tuple(s[:last]):
            raise Violation("assignment %s converts to %s, expected %s" % (order, implied, tuple(s[:last])))


PROP = Prop(
    "C05",
    "at least two particles",
    [Sub("roundtrip", case, run, lambda c: sum(c["s"]) >= 2, corpus=[
        {"s": [0], "fmt": "tuple", "afmt": "tuple", "shuffle": 0, "extra": 0},
        {"s": [0, 0, 0], "fmt": "nd", "afmt": "list", "shuffle": 0, "extra": 1},
        {"s": [0, 0, 3, 0], "fmt": "nd", "afmt": "nd", "shuffle": 0, "extra": 2},
    ], quick=(8, 2000), thorough=(8, 8000))],
)
