"""C13: samplers with uniform losses."""
from hypothesis import strategies as st

from vp import gen, ref, stats, sut, zoo
from vp.core import Prop, Sub, Violation
from vp.props.c12 import MIXING, lossless_case, make_calc
from vp.props.c19 import used
from vp.props.c20 import fresh, siblings

N1 = {"a": 3000, "b": 1500}


@st.composite
def case(draw, caps={1: 5, 2: 6, 3: 4, 4: 3, 5: 3, 6: 2, 8: 2, 12: 2}):
    c = draw(lossless_case(kinds=("a", "b"), caps=caps))
    c["eta"] = draw(gen.TRANS)
    return c


def run(c, scale=1):
    u = gen.unitary(c["u"])
    d = ref.uniform_losses(u, c["s"], c["eta"])
    strat = (sut.ugcc if c["sampler"] == "a" else sut.ugccb)(make_calc(c, u), c["eta"])
    bad = stats.gof(sut.draw_with(strat, gen.fmt_state(c["s"], c["sf"]), len(c["s"]), c["batches"]), d, N1[c["sampler"]] * scale)
    if bad:
        raise Violation("uniform-loss sampler %s, transmissivity %s, input %s, matrix %s: %s" % (c["sampler"], c["eta"], c["s"], c["u"], bad))


def base(sampler_name, u, s, eta, **k):
    c = {"sampler": sampler_name, "u": u, "s": s, "eta": eta, "calc": "ryser", "blank": True, "batches": "one", "mf": "nd", "sf": "tuple"}
    c.update(k)
    return c


CORPUS = []
for _k in ("a", "b"):
    CORPUS += [
        base(_k, {"k": "haar", "m": 3, "seed": 4}, [2, 0, 1], 0.5),
        base(_k, {"k": "haar", "m": 3, "seed": 4}, [2, 0, 1], 0.0),
        base(_k, {"k": "haar", "m": 3, "seed": 4}, [1, 1, 1], 1.0),
        base(_k, {"k": "haar", "m": 3, "seed": 4}, [0, 0, 0], 0.3),
        base(_k, {"k": "haar", "m": 4, "seed": 5}, [1, 1, 0, 1], 0.8, sf="nd"),
        base(_k, {"k": "haar", "m": 2, "seed": 5}, [3, 1], 0.35, mf="list"),
        base(_k, {"k": "id", "m": 3}, [1, 2, 0], 0.6),
    ]
CORPUS.append(base("a", {"k": "haar", "m": 2, "seed": 7}, [5, 7], 0.96))

def run_deep(c):
    run(c, 3 if c["sampler"] == "b" else 10)


def nt(c):
    return len(c["s"]) >= 2 and sum(c["s"]) >= 2 and c["u"]["k"] in MIXING and 0 < c["eta"] < 1


PROP = Prop(
    "C13",
    "at least two particles in at least two modes of a matrix that mixes modes, transmissivity strictly between 0 and 1; large, wide: three or more particles in two or more modes, a matrix that mixes modes and is not opaque; islands: two or more particles; used: sampled after an operation that is a matrix change, a distribution computation or sampling of a non-empty state; siblings, fresh: at least one particle",
    [
        Sub("sampling", case, run, nt, CORPUS, quick=(8, 45), thorough=(8, 600)),
        Sub("deep", lambda: case(caps={2: 3, 3: 3, 4: 3}), run_deep, nt, quick=(8, 4), thorough=(8, 80)),
        zoo.large(["ugcc", "ugccb", "ugccb"]),
        zoo.wide(["ugcc", "ugccb", "ugccb"], 5),
        zoo.islands(["ugcc", "ugccb", "ugccb"]),
        *used(["ugcc", "ugccb"]),
        siblings(["ugcc", "ugccb"]),
        fresh(["ugcc", "ugccb"]),
    ],
)
