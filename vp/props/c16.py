"""C16: the approximate sampler for uniform losses."""
from hypothesis import strategies as st

from vp import gen, ref, stats, sut, zoo
from vp.core import Prop, Sub, Violation
from vp.props.c12 import MIXING, make_calc
from vp.props.c19 import used
from vp.props.c20 import fresh, siblings

N1 = 1200


@st.composite
def case(draw, caps={1: 4, 2: 5, 3: 4, 4: 3, 5: 2, 9: 2}):
    m, n = draw(gen.sizes(caps))
    return {
        "u": draw(gen.unitary_specs(m)), "s": draw(gen.states_of(m, n)), "eta": draw(gen.TRANS),
        "level": draw(gen.upto(0, m)),
        "calc": draw(st.sampled_from(["ryser", "chinhuh", "glynn", "classic"])),
        "blank": draw(st.booleans()),
        "batches": draw(st.sampled_from(["one", "one", "few"])),
        "mf": draw(gen.MFMT), "sf": draw(gen.SFMT),
        "threads": draw(st.sampled_from([1, 1, 2, 3, -1])),
    }


def run(c, scale=1):
    u = gen.unitary(c["u"])
    m = len(c["s"])
    d = ref.ubobs(u, c["s"], c["eta"], c["level"])
    strat = sut.ubobs(make_calc(c, u), c["eta"], c["level"], c["threads"])
    bad = stats.gof(sut.draw_with(strat, gen.fmt_state(c["s"], c["sf"]), m, c["batches"]), d, N1 * scale)
    if bad:
        raise Violation("approximate uniform-loss sampler, first %d modes exact, transmissivity %s, input %s, matrix %s: %s" % (c["level"], c["eta"], c["s"], c["u"], bad))


def b(u, s, eta, level, **k):
    c = {"u": u, "s": s, "eta": eta, "level": level, "calc": "ryser", "blank": True, "batches": "one", "mf": "nd", "sf": "tuple", "threads": 1}
    c.update(k)
    return c


_U = {"k": "haar", "m": 3, "seed": 4}
CORPUS = [b(_U, [1, 1, 1], 0.7, k) for k in range(4)] + [
    b(_U, [2, 0, 1], 0.5, 2, sf="nd"), b(_U, [2, 1, 1], 0.5, 1), b(_U, [0, 1, 1], 1.0, 2), b(_U, [0, 0, 0], 0.5, 2), b(_U, [1, 1, 1], 0.0, 1),
    b({"k": "id", "m": 2}, [1, 0], 1.0, 2), b({"k": "id", "m": 3}, [1, 2, 0], 0.8, 2), b({"k": "haar", "m": 4, "seed": 4}, [1, 1, 1, 0], 0.8, 2, threads=3),
    b({"k": "haar", "m": 4, "seed": 9}, [2, 1, 0, 0], 0.9, 1),
]

def nt(c):
    return len(c["s"]) >= 2 and sum(c["s"]) >= 2 and c["u"]["k"] in MIXING and c["eta"] > 0


PROP = Prop(
    "C16",
    "at least two particles in at least two modes of a matrix that mixes modes, transmissivity strictly positive; large, wide: three or more particles in two or more modes, a matrix that mixes modes and is not opaque; islands: two or more particles; used: sampled after an operation that is a matrix change, a distribution computation or sampling of a non-empty state; siblings, fresh: at least one particle",
    [
        Sub("sampling", case, run, nt, CORPUS, quick=(8, 36), thorough=(8, 300)),
        Sub("deep", lambda: case(caps={2: 3, 3: 3}), lambda c: run(c, 4), nt, quick=(8, 4), thorough=(8, 50)),
        zoo.large(["ubobs"]),
        zoo.wide(["ubobs"], 5),
        zoo.islands(["ubobs"]),
        *used(["ubobs"]),
        siblings(["ubobs"]),
        fresh(["ubobs"]),
    ],
)
