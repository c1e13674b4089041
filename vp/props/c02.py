"""C02: the collective sub-matrix permanent calculators."""
from hypothesis import strategies as st

from vp import gen, ref, sut
from vp.core import Prop, Sub, Violation


def compare(got, a, s, t, what):
    m = len(s)
    got = list(got)
    if len(got) != m:
        raise Violation("%s returned %d permanents for %d modes" % (what, len(got), m))
    for i in range(m):
        if s[i] == 0:
            continue
        r = list(s)
        r[i] -= 1
        want = ref.permanent(a, r, t)
        g = sut.as_complex(got[i], what)
        if abs(g - want) > max(1e-10 * max(ref.row_scale(a, s, t), ref.permanent_scale(a, r, t)), 1e-290):
            raise Violation("%s: entry %d for input %s, output %s is %r, expected %r; matrix\n%s" % (
                what, i, tuple(s), tuple(t), g, complex(want), gen.shown(a)))


@st.composite
def pair(draw, m):
    n = draw(gen.upto(1, 8 if m <= 3 else 6 if m <= 5 else 4 if m <= 8 else 3))
    return {"matrix": draw(gen.general_specs(m)), "s": draw(gen.states_of(m, n)), "t": draw(gen.states_of(m, n - 1))}


@st.composite
def case(draw):
    m = draw(st.one_of(gen.upto(1, 8), gen.upto(1, 8), gen.upto(1, 8), gen.upto(9, 16)))
    c = draw(pair(m))
    if draw(st.integers(0, 7)) == 0:        # many particles in few modes
        m, n = draw(st.sampled_from([(1, 13), (1, 17), (2, 12), (2, 16), (3, 11)]))
        c = {"matrix": draw(gen.general_specs(m)), "s": draw(gen.states_of(m, n)), "t": draw(gen.states_of(m, n - 1))}
    c["mf"] = draw(gen.formats_of(c["matrix"]))
    c["sf"] = draw(gen.SFMT)
    return c


def run_value(c):
    a = gen.general_matrix(c["matrix"])
    for name in ("ryser", "ch"):
        k = sut.subcalc(name, gen.fmt_matrix(a, c["mf"]), gen.fmt_state(c["s"], c["sf"]), gen.fmt_state(c["t"], c["sf"]))
        first = k.compute_permanents()
        compare(first, a, c["s"], c["t"], name)
        gen.spoil(first)
        compare(k.compute_permanents(), a, c["s"], c["t"], name + " (second call)")


@st.composite
def history(draw):
    ops = []
    sizes = st.sampled_from([1, 2, 3, 4] * 5 + [5, 6, 7, 9, 11])
    m = draw(sizes)
    for _ in range(draw(st.integers(2, 6))):
        if draw(st.integers(0, 3)) == 0:
            m = draw(sizes)
        op = draw(pair(m))
        op["matrix"] = draw(gen.next_spec([o["matrix"] for o in ops], st.just(op["matrix"])))
        op["s"] = draw(gen.next_state([o["s"] for o in ops], st.just(op["s"])))
        op["t"] = draw(gen.next_state([o["t"] for o in ops], st.just(op["t"])))
        op["order"] = draw(st.permutations([0, 1, 2]))
        op["keep"] = draw(st.sampled_from(["none", "none", "matrix", "states", "t"]))
        ops.append(op)
    return {"ops": ops, "mf": draw(gen.MFMT), "sf": draw(gen.SFMT), "reuse": draw(st.booleans())}


def run_history(c):
    for name in ("ryser", "ch"):
        k = cur = None
        put = gen.Reuse(c.get("reuse", False))
        for j, op in enumerate(c["ops"]):
            new = [gen.general_matrix(op["matrix"]), op["s"], op["t"]]
            keep = op.get("keep", "none") if cur is not None and len(cur[1]) == len(op["s"]) else "none"
            if keep == "matrix":
                new[0] = cur[0]
            elif keep == "states":
                new[1:] = cur[1:]
            elif keep == "t" and sum(cur[2]) == sum(op["s"]) - 1:
                new[2] = cur[2]
            given = lambda w: put(w, gen.fmt_matrix(new[0], c["mf"]) if w == 0 else gen.fmt_state(new[w], c["sf"]))
            if k is None:
                k = sut.subcalc(name, given(0), given(1), given(2))
            else:
                for w in op.get("order", [0, 1, 2]):
                    if new[w] is not cur[w]:
                        setattr(k, ("matrix", "input_state", "output_state")[w], given(w))
            cur = new
            got = k.compute_permanents()
            compare(got, new[0], new[1], new[2], "%s after %d reconfigurations" % (name, j))
            gen.spoil(got)


@st.composite
def long_case(draw):
    return {"k": draw(st.sampled_from([20, 40, 80])), "seed": draw(gen.SEED), "name": draw(st.sampled_from(["ryser", "ch"])), "mf": draw(gen.MFMT), "sf": draw(gen.SFMT), "m": draw(gen.upto(1, 4)), "resize": draw(st.booleans())}


def run_long(c):
    """A long life of one calculator, or of as many as there are instances."""
    g = gen._rng(c["seed"], 62)
    m, k = c["m"], None
    mats = [gen.random_general(g, m) for _ in range(12)]
    for j in range(c["k"]):
        if c["resize"] and g.random() < 0.1:
            m = int(g.integers(1, 5))
            mats = [gen.random_general(g, m) for _ in range(12)]
        a = gen.general_matrix(mats[int(g.integers(0, len(mats)))])
        n = int(g.integers(1, 6))
        s, t = gen.random_state(g, m, n), gen.random_state(g, m, n - 1)
        args = [gen.fmt_matrix(a, c["mf"]), gen.fmt_state(s, c["sf"]), gen.fmt_state(t, c["sf"])]
        if k is None or g.random() < 0.1:
            k = sut.subcalc(c["name"], *args)
        else:
            for w in g.permutation(3):
                setattr(k, ("matrix", "input_state", "output_state")[w], args[w])
        compare(k.compute_permanents(), a, s, t, "%s after %d instances" % (c["name"], j))


def run_siblings(c):
    """One calculator object per instance, all of them alive and used in turn."""
    for name in ("ryser", "ch"):
        made = []
        for op in c["ops"]:
            a = gen.general_matrix(op["matrix"])
            made.append((sut.subcalc(name, gen.fmt_matrix(a, c["mf"]), gen.fmt_state(op["s"], c["sf"]), gen.fmt_state(op["t"], c["sf"])), a, op["s"], op["t"]))
            for j, (k, b, s, t) in enumerate(made):
                compare(k.compute_permanents(), b, s, t, "%s, calculator %d of %d" % (name, j + 1, len(made)))


PROP = Prop(
    "C02",
    "value: at least two particles at the input, matrix neither zero nor all ones; history and siblings: at least two instances evaluated on one object or on several used in turn, one with two or more particles; long: at least two modes at first",
    [
        Sub("value", case, run_value, lambda c: sum(c["s"]) >= 2 and c["matrix"]["k"] not in ("zero", "ones"), corpus=[
            {"matrix": {"k": "gauss", "m": 3, "seed": 1}, "s": [1, 0, 0], "t": [0, 0, 0], "mf": "nd", "sf": "nd"},
            {"matrix": {"k": "gauss", "m": 1, "seed": 1}, "s": [5], "t": [4], "mf": "nd", "sf": "nd"},
        ], quick=(8, 900), thorough=(8, 4000)),
        Sub("history", history, run_history, lambda c: any(sum(o["s"]) >= 2 for o in c["ops"]), quick=(8, 450), thorough=(8, 3000)),
        Sub("long", long_case, run_long, lambda c: c["m"] >= 2, quick=(8, 40), thorough=(8, 400)),
        Sub("siblings", history, run_siblings, lambda c: any(sum(o["s"]) >= 2 for o in c["ops"]), quick=(8, 120), thorough=(8, 1500)),
    ],
)
