"""C15: the approximate sampler for lossy networks (particles of the first modes made separable)."""
from hypothesis import strategies as st

from vp import gen, ref, stats, sut, zoo
from vp.core import Prop, Sub, Violation
from vp.props.c12 import make_calc
from vp.props.c14 import base, lossy_case, lossy_nt
from vp.props.c19 import used
from vp.props.c20 import fresh, siblings

N1 = 1200


@st.composite
def case(draw, caps={1: 4, 2: 4, 3: 3, 4: 3, 5: 2, 9: 2}):
    c = draw(lossy_case(caps=caps))
    m = len(c["s"])
    c["approx"] = draw(st.one_of(gen.upto(0, m), st.sampled_from([-1, m + 2])))
    c["threads"] = draw(st.sampled_from([1, 1, 2, 3, -1]))
    return c


def run(c, scale=1):
    a = gen.lossy_matrix(c["a"])
    m = len(c["s"])
    k = min(max(c["approx"], 0), m)
    d = ref.bobs(a, c["s"], k)
    strat = sut.bobs(make_calc(c, a), c["approx"], c["threads"])
    bad = stats.gof(sut.draw_with(strat, gen.fmt_state(c["s"], c["sf"]), m, c["batches"]), d, N1 * scale)
    if bad:
        raise Violation("approximate lossy-network sampler, first %d modes approximated, input %s, matrix %s: %s" % (k, c["s"], c["a"], bad))


def b(a, s, approx, **k):
    c = base(a, s, **k)
    c.update(approx=approx, threads=k.get("threads", 1))
    return c


_S = {"k": "haar", "m": 3, "seed": 4, "loss": "sandwich", "t": [0.2, 0.9, 0.5]}
CORPUS = [
    b(_S, [1, 1, 1], 0), b(_S, [1, 1, 1], 1), b(_S, [1, 1, 1], 2), b(_S, [1, 1, 1], 3), b(_S, [2, 0, 1], 2, sf="nd"), b(_S, [0, 1, 1], 1, threads=3),
    b({"k": "haar", "m": 3, "seed": 4, "loss": "uniform", "t": [0.5]}, [1, 1, 1], 2),
    b({"k": "id", "m": 3, "loss": "in", "t": [0.3, 0.6, 0.9]}, [1, 1, 1], 2),
    b({"k": "id", "m": 3, "loss": "none"}, [2, 0, 1], 2),
    b({"k": "haar", "m": 2, "seed": 4, "loss": "zero"}, [1, 1], 1),
    b({"k": "haar", "m": 4, "seed": 4, "loss": "in", "t": [0.3, 0.6, 0.9, 0.8]}, [1, 1, 1, 0], 2),
]

PROP = Prop(
    "C15",
    "at least two particles in at least two modes of a matrix that loses some particles; large, wide: three or more particles in two or more modes, a matrix that mixes modes and is not opaque; islands: two or more particles; used: sampled after an operation that is a matrix change, a distribution computation or sampling of a non-empty state; siblings, fresh: at least one particle",
    [
        Sub("sampling", case, run, lossy_nt, CORPUS, quick=(8, 30), thorough=(8, 300)),
        Sub("deep", lambda: case(caps={2: 3, 3: 3}), lambda c: run(c, 4), lossy_nt, quick=(8, 3), thorough=(8, 50)),
        zoo.large(["bobs"]),
        zoo.wide(["bobs"], 5),
        zoo.islands(["bobs"]),
        *used(["bobs"]),
        siblings(["bobs"]),
        fresh(["bobs"]),
    ],
)
