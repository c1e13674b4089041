"""C17: the mean-field style approximations for fixed and uniform losses."""
from hypothesis import strategies as st

from vp import gen, ref, stats, sut, zoo
from vp.core import Prop, Sub, Violation
from vp.props.c19 import used
from vp.props.c20 import fresh, siblings

N1 = {"fixed": 2500, "uniform": 900}


@st.composite
def case(draw):
    m = draw(st.sampled_from([1, 2, 2, 3, 3, 3, 4, 4, 5, 5, 6, 10]))
    n = draw(gen.upto(1, min(m, 4 if m <= 5 else 3 if m <= 6 else 2)))
    return {
        "sampler": draw(st.sampled_from(["fixed", "fixed", "uniform"])),
        "a": draw(gen.lossy_specs(m)), "m": m, "n": n, "left": draw(st.sampled_from([0] + [x for x in range(1, n + 1) for _ in range(3)])), "eta": draw(gen.TRANS),
        "net": draw(st.sampled_from(["default", "lossy", "lossless"])),
        "batches": draw(st.sampled_from(["one", "one", "few", "single"])),
        "mf": draw(gen.MFMT), "sf": draw(gen.SFMT),
    }


def run(c, scale=1):
    a = gen.lossy_matrix(c["a"])
    m, n = c["m"], c["n"]
    s = [1] * n + [0] * (m - n)
    mat = gen.fmt_matrix(a, c["mf"])
    if c["sampler"] == "fixed":
        d = ref.fixed_loss_approximation(a, n, c["left"], m)
        net = None if c["net"] == "default" else sut.network(c["net"], mat)
        strat = sut.fixed_loss(mat, c["left"], m, net)
    else:
        d = ref.uniform_loss_approximation(a, n, c["eta"], m)
        strat = sut.uniform_loss(mat, m, c["eta"])
    bad = stats.gof(sut.draw_with(strat, gen.fmt_state(s, c["sf"]), m, c["batches"]), d, N1[c["sampler"]] * scale)
    if bad:
        raise Violation("%s-loss approximation, %d particles in %d modes, %s, matrix %s: %s" % (
            c["sampler"], n, m, "%d left" % c["left"] if c["sampler"] == "fixed" else "transmissivity %s" % c["eta"], c["a"], bad))


def b(sampler, a, m, n, left, eta, **k):
    c = {"sampler": sampler, "a": a, "m": m, "n": n, "left": left, "eta": eta, "net": "default", "batches": "one", "mf": "nd", "sf": "tuple"}
    c.update(k)
    return c


_A = {"k": "haar", "m": 3, "seed": 4, "loss": "none"}
_L = {"k": "haar", "m": 3, "seed": 5, "loss": "sandwich", "t": [0.2, 0.9, 0.5]}
CORPUS = [
    b("fixed", _A, 3, 2, 2, 1.0), b("fixed", _A, 3, 3, 1, 1.0), b("fixed", _L, 3, 3, 2, 1.0), b("fixed", _A, 3, 2, 0, 1.0, net="lossless"),
    b("uniform", _A, 3, 3, 3, 0.5), b("uniform", _L, 3, 2, 2, 0.7), b("uniform", _A, 3, 2, 2, 0.0), b("uniform", _A, 3, 2, 2, 1.0),
    b("fixed", {"k": "id", "m": 4, "loss": "none"}, 4, 2, 2, 1.0), b("fixed", {"k": "id", "m": 3, "loss": "zero"}, 3, 2, 2, 1.0),
    b("fixed", {"k": "qft", "m": 3, "loss": "none"}, 3, 3, 3, 1.0),
]

def nt(c):
    return c["m"] >= 2 and (c["left"] >= 1 if c["sampler"] == "fixed" else c["eta"] > 0) and c["a"]["loss"] != "zero"


PROP = Prop(
    "C17",
    "at least two modes, at least one particle left (fixed) or a positive transmissivity (uniform), matrix not opaque; large, wide: three or more particles in two or more modes, a matrix that mixes modes and is not opaque; islands: two or more particles; used: sampled after an operation that is a matrix change, a distribution computation or sampling of a non-empty state; siblings, fresh: at least one particle",
    [
        Sub("sampling", case, run, nt, CORPUS, quick=(8, 60), thorough=(8, 400)),
        Sub("deep", case, lambda c: run(c, 6), nt, quick=(8, 8), thorough=(8, 60)),
        zoo.large(["fixed", "uniform"]),
        zoo.wide(["fixed", "uniform"], 5),
        zoo.islands(["fixed", "uniform"]),
        *used(["fixed", "uniform"]),
        siblings(["fixed", "uniform"]),
        fresh(["fixed", "uniform"]),
    ],
)
