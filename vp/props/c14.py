"""C14: exact sampler for networks with mode-dependent losses."""
from hypothesis import strategies as st

from vp import gen, ref, stats, sut, zoo
from vp.core import Prop, Sub, Violation
from vp.props.c12 import make_calc
from vp.props.c19 import used
from vp.props.c20 import fresh, siblings

N1 = 1500


@st.composite
def lossy_case(draw, caps={1: 4, 2: 4, 3: 3, 4: 3, 5: 2, 6: 2, 10: 2}):
    m, n = draw(gen.sizes(caps))
    return {
        "a": draw(gen.lossy_specs(m)), "s": draw(gen.states_of(m, n)),
        "calc": draw(st.sampled_from(["ryser", "chinhuh", "glynn", "classic"])),
        "blank": draw(st.booleans()),
        "batches": draw(st.sampled_from(["one", "one", "few"])),
        "mf": draw(gen.MFMT), "sf": draw(gen.SFMT),
        "later": draw(st.booleans()),
    }


def run(c, scale=1):
    a = gen.lossy_matrix(c["a"])
    d = ref.lossy(a, c["s"])
    if c["later"]:
        # matrix supplied after construction
        strat = sut.lossynet(make_calc(c, gen.unitary({"k": "haar", "m": len(c["s"]), "seed": 77})))
        strat.set_new_matrix(gen.fmt_matrix(a, c["mf"]))
    else:
        strat = sut.lossynet(make_calc(c, a))
    bad = stats.gof(sut.draw_with(strat, gen.fmt_state(c["s"], c["sf"]), len(c["s"]), c["batches"]), d, N1 * scale)
    if bad:
        raise Violation("lossy-network sampler, input %s, matrix %s: %s" % (c["s"], c["a"], bad))


def lossy_nt(c):
    return len(c["s"]) >= 2 and sum(c["s"]) >= 2 and c["a"].get("loss") not in ("none", "zero")


def base(a, s, **k):
    c = {"a": a, "s": s, "calc": "ryser", "blank": True, "batches": "one", "mf": "nd", "sf": "tuple", "later": False}
    c.update(k)
    return c


CORPUS = [
    base({"k": "haar", "m": 2, "seed": 4, "loss": "in", "t": [0.25, 1.0]}, [1, 1]),
    base({"k": "haar", "m": 3, "seed": 4, "loss": "out", "t": [0.25, 1.0, 0.5]}, [2, 0, 1]),
    base({"k": "haar", "m": 3, "seed": 4, "loss": "sandwich", "t": [0.0, 1.0, 0.5]}, [1, 1, 1], later=True),
    base({"k": "haar", "m": 3, "seed": 4, "loss": "zero"}, [1, 1, 1]),
    base({"k": "haar", "m": 3, "seed": 4, "loss": "none"}, [1, 2, 0], sf="nd"),
    base({"k": "id", "m": 3, "loss": "in", "t": [0.3, 0.6, 0.9]}, [1, 1, 1]),
    base({"k": "haar", "m": 1, "seed": 4, "loss": "uniform", "t": [0.5]}, [3]),
    base({"k": "haar", "m": 3, "seed": 4, "loss": "in", "t": [0.3, 0.6, 0.9]}, [0, 0, 0]),
]

PROP = Prop(
    "C14",
    "at least two particles in at least two modes of a matrix that loses some particles; large, wide: three or more particles in two or more modes, a matrix that mixes modes and is not opaque; islands: two or more particles; used: sampled after an operation that is a matrix change, a distribution computation or sampling of a non-empty state; siblings, fresh: at least one particle",
    [
        Sub("sampling", lossy_case, run, lossy_nt, CORPUS, quick=(8, 34), thorough=(8, 400)),
        Sub("deep", lambda: lossy_case(caps={2: 3, 3: 3}), lambda c: run(c, 4), lossy_nt, quick=(8, 4), thorough=(8, 60)),
        zoo.large(["lossynet"]),
        zoo.wide(["lossynet"], 5),
        zoo.islands(["lossynet"]),
        *used(["lossynet"]),
        siblings(["lossynet"]),
        fresh(["lossynet"]),
    ],
)
