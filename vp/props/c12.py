"""C12: the lossless exact samplers follow the boson sampling distribution."""
from hypothesis import strategies as st

from vp import gen, ref, stats, sut, zoo
from vp.core import Prop, Sub, Violation
from vp.props.c19 import used
from vp.props.c20 import fresh, siblings

N1 = {"gcc": 3000, "ma": 3000, "b": 1500}
MIXING = ("haar", "orth", "qft", "block", "bs")


def sampler(name, pc):
    return {"gcc": sut.gcc, "ma": sut.gcc_ma, "b": sut.gccb}[name](pc)


@st.composite
def lossless_case(draw, kinds=("gcc", "gcc", "ma", "b"), caps={1: 5, 2: 8, 3: 5, 4: 4, 5: 3, 6: 3, 8: 2, 12: 3}):
    m, n = draw(gen.sizes(caps))
    sampler_ = draw(st.sampled_from(list(kinds)))
    if max(caps) > 4 and sampler_ in ("gcc", "a") and draw(st.integers(0, 14)) == 0:
        m, n = draw(st.sampled_from([(1, 12), (2, 12), (3, 7)]))     # occupations of several digits
    return {
        "sampler": sampler_,
        "u": draw(gen.unitary_specs(m)), "s": draw(gen.states_of(m, n)),
        "calc": draw(st.sampled_from(["ryser", "ryser", "chinhuh", "glynn", "classic"] if n <= 4 else ["ryser", "ryser", "chinhuh", "glynn"] if n <= 7 else ["ryser", "chinhuh"])),
        "blank": draw(st.booleans()),
        "batches": draw(st.sampled_from(["one", "one", "few", "single"] if n <= 7 else ["one"])),
        "mf": draw(gen.MFMT), "sf": draw(gen.SFMT),
    }


def make_calc(c, a):
    mat = gen.fmt_matrix(a, c["mf"])
    if c["blank"]:
        return sut.calc(c["calc"], mat)
    return sut.calc(c["calc"], mat, gen.fmt_state(c["s"], c["sf"]), gen.fmt_state(c["s"], c["sf"]))


def run(c, scale=1):
    u = gen.unitary(c["u"])
    d = ref.bs(u, c["s"])
    strat = sampler(c["sampler"], make_calc(c, u))
    bad = stats.gof(sut.draw_with(strat, gen.fmt_state(c["s"], c["sf"]), len(c["s"]), c["batches"]), d, N1[c["sampler"]] * scale)
    if bad:
        raise Violation("%s sampler, input %s, matrix %s: %s" % (c["sampler"], c["s"], c["u"], bad))


def run_deep(c):
    """Fewer cases, many more samples each: deviations of about a percent."""
    run(c, 3 if c["sampler"] == "b" else 12)


def nt(c):
    return len(c["s"]) >= 2 and sum(c["s"]) >= 2 and c["u"]["k"] in MIXING


def base(sampler_name, u, s, **k):
    c = {"sampler": sampler_name, "u": u, "s": s, "calc": "ryser", "blank": True, "batches": "one", "mf": "nd", "sf": "tuple"}
    c.update(k)
    return c


CORPUS = []
for _k in ("gcc", "ma", "b"):
    CORPUS += [
        base(_k, {"k": "bs", "m": 2, "seed": 3}, [1, 1]),
        base(_k, {"k": "haar", "m": 3, "seed": 4}, [2, 0, 1]),
        base(_k, {"k": "haar", "m": 3, "seed": 5}, [0, 3, 1], sf="nd"),
        base(_k, {"k": "haar", "m": 4, "seed": 6}, [2, 2, 0, 0], mf="list"),
        base(_k, {"k": "perm", "m": 5, "seed": 6}, [1, 2, 0, 1, 0]),
        base(_k, {"k": "haar", "m": 3, "seed": 7}, [0, 0, 0]),
        base(_k, {"k": "qft", "m": 4}, [1, 1, 1, 1]),
        base(_k, {"k": "haar", "m": 1, "seed": 7}, [3]),
        base(_k, {"k": "haar", "m": 6, "seed": 7}, [1, 0, 1, 0, 0, 1]),
        base(_k, {"k": "haar", "m": 12, "seed": 7}, [1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1]),
    ]
CORPUS.append(base("gcc", {"k": "haar", "m": 2, "seed": 7}, [6, 6]))

PROP = Prop(
    "C12",
    "at least two particles in at least two modes of a matrix that mixes modes; large, wide: three or more particles in two or more modes, a matrix that mixes modes and is not opaque; islands: two or more particles; used: sampled after an operation that is a matrix change, a distribution computation or sampling of a non-empty state; siblings, fresh: at least one particle",
    [
        Sub("sampling", lossless_case, run, nt, CORPUS, quick=(8, 60), thorough=(8, 600)),
        Sub("deep", lambda: lossless_case(kinds=("gcc", "gcc", "gcc", "ma", "ma", "b"), caps={2: 4, 3: 4, 4: 3}), run_deep, nt, quick=(8, 6), thorough=(8, 80)),
        zoo.large(["gcc", "ma", "b", "b"]),
        zoo.wide(["gcc", "ma", "b", "b"], 5),
        zoo.islands(["gcc", "ma", "b", "b"]),
        *used(["gcc", "ma", "b"]),
        siblings(["gcc", "ma", "b"]),
        fresh(["gcc", "ma", "b"]),
    ],
)
