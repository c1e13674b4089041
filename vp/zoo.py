"""Every simulation strategy behind one description, with its exact output law."""
import math

from hypothesis import strategies as st

from vp import gen, ref, sut

UNITARY = ["gcc", "ma", "b", "ugcc", "ugccb", "ubobs"]          # need a unitary matrix
LOSSY = ["lossynet", "bobs", "fixed", "uniform"]                 # accept lossy matrices
ALL = UNITARY + LOSSY
SETTABLE = ["gcc", "ma", "b", "ugcc", "ugccb", "lossynet"]       # have set_new_matrix
SLOW = ["bobs", "ubobs"]


@st.composite
def configs(draw, m, kinds=ALL, threads=(1, 2, 3, -1)):
    kind = draw(st.sampled_from(list(kinds)))
    c = {"kind": kind, "m": m, "calc": draw(st.sampled_from(["ryser", "ryser", "chinhuh", "glynn"])), "mf": draw(gen.MFMT)}
    c["a"] = draw(matrix_for(kind, m))
    if kind in ("ugcc", "ugccb", "ubobs", "uniform"):
        c["eta"] = draw(gen.TRANS)
    if kind == "ubobs":
        c["level"] = draw(gen.upto(0, m))
    if kind == "bobs":
        c["approx"] = draw(gen.upto(0, m))
    if kind in SLOW:
        c["threads"] = draw(st.sampled_from(list(threads)))
    if kind == "fixed":
        c["left"] = draw(gen.upto(0, min(m, 3)))
    return c


def matrix_for(kind, m):
    return gen.lossy_specs(m) if kind in LOSSY else gen.unitary_specs(m)


@st.composite
def inputs(draw, c, n_max=3):
    m = c["m"]
    if c["kind"] in ("fixed", "uniform"):
        lo = max(1, c.get("left", 0))
        n = draw(gen.upto(lo, max(lo, min(m, n_max))))
        return [1] * n + [0] * (m - n)
    return draw(gen.states(m, n_max))


def calculator(c, s=None, matrix=None):
    mat = gen.fmt_matrix(gen.lossy_matrix(c["a"]), c["mf"]) if matrix is None else matrix
    return sut.calc(c["calc"], mat, s, s)


def build(c, pc=None, matrix=None):
    k, m = c["kind"], c["m"]
    mat = gen.fmt_matrix(gen.lossy_matrix(c["a"]), c["mf"]) if matrix is None else matrix
    if pc is None and k not in ("fixed", "uniform"):
        pc = sut.calc(c["calc"], mat)
    if k == "gcc":
        return sut.gcc(pc)
    if k == "ma":
        return sut.gcc_ma(pc)
    if k == "b":
        return sut.gccb(pc)
    if k == "ugcc":
        return sut.ugcc(pc, c["eta"])
    if k == "ugccb":
        return sut.ugccb(pc, c["eta"])
    if k == "lossynet":
        return sut.lossynet(pc)
    if k == "bobs":
        return sut.bobs(pc, c["approx"], c["threads"])
    if k == "ubobs":
        return sut.ubobs(pc, c["eta"], c["level"], c["threads"])
    if k == "fixed":
        return sut.fixed_loss(mat, c["left"], m)
    if k == "uniform":
        return sut.uniform_loss(mat, m, c["eta"])
    raise ValueError(k)


def law(c, s, a=None, like=None):
    """Exact output distribution for input s (matrix a overrides the configured one; s may
    be some of the particles of an input `like`)."""
    k = c["kind"]
    a = gen.lossy_matrix(c["a"]) if a is None else a
    if k in ("gcc", "ma", "b"):
        return ref.bs(a, s)
    if k in ("ugcc", "ugccb"):
        return ref.uniform_losses(a, s, c["eta"])
    if k == "lossynet":
        return ref.lossy(a, s)
    if k == "bobs":
        return ref.bobs(a, s, c["approx"])
    if k == "ubobs":
        return ref.ubobs(a, s, c["eta"], c["level"], like)
    if k == "fixed":
        return ref.fixed_loss_approximation(a, sum(s), c["left"], len(s))
    if k == "uniform":
        return ref.uniform_loss_approximation(a, sum(s), c["eta"], len(s))
    raise ValueError(k)


def particle_range(c, s):
    """Particle numbers an output may have."""
    n = sum(s)
    k = c["kind"]
    lossless = c["a"].get("loss", "none") == "none"
    if k in ("gcc", "ma", "b"):
        return n, n
    if k == "fixed":
        return (c["left"] if lossless else 0), c["left"]
    eta = c.get("eta")
    if lossless and (eta is None or eta == 1.0):
        return n, n
    if eta == 0.0:
        return 0, 0
    return 0, n


N1 = {"gcc": 1500, "ma": 1500, "ugcc": 1500, "b": 700, "ugccb": 700, "lossynet": 700, "bobs": 500, "ubobs": 700, "fixed": 1500, "uniform": 500}


# experiments of a size where most code paths are taken many times; fewer samples each
LARGE = {
    "gcc": [(6, 5), (7, 5), (8, 5), (10, 4), (12, 4)], "ma": [(6, 5), (7, 5), (8, 5), (10, 4), (12, 4)],
    "b": [(6, 7), (7, 6), (8, 6), (9, 6), (10, 5), (12, 4), (5, 8)], "ugccb": [(6, 7), (7, 6), (8, 6), (9, 6), (10, 5), (12, 4)],
    "ugcc": [(6, 4), (7, 4), (8, 4), (5, 5)], "lossynet": [(6, 5), (7, 5), (8, 5), (10, 4)],
    "bobs": [(6, 5), (7, 5), (8, 4), (10, 4)], "ubobs": [(6, 5), (7, 5), (8, 4), (9, 4)],
    "fixed": [(7, 4), (8, 4), (10, 3), (9, 5), (5, 5), (6, 6), (7, 6)], "uniform": [(7, 4), (8, 4), (10, 3), (14, 3)],
}
LARGE_N = {"gcc": 250, "ma": 250, "ugcc": 120, "b": 600, "ugccb": 600, "lossynet": 400, "bobs": 300, "ubobs": 400, "fixed": 1000, "uniform": 500}


CROWDED = [(1, 15), (2, 12), (2, 10), (3, 12), (3, 9), (4, 10), (4, 8), (5, 9)]   # many particles in few modes


@st.composite
def large_case(draw, kinds):
    kind = draw(st.sampled_from(list(kinds)))
    m, n = draw(st.sampled_from(LARGE[kind]))
    crowded = kind not in ("fixed", "uniform") and draw(st.integers(0, 2)) == 0
    if crowded:
        m, n = draw(st.sampled_from(CROWDED if kind != "bobs" else CROWDED[:5] + CROWDED[6:7]))
    c = draw(configs(m, [kind], threads=(1, 2, 3)))
    if n >= 8 and c["calc"] == "glynn":     # slow there
        c["calc"] = "ryser"
    if "eta" in c:
        c["eta"] = draw(st.sampled_from([0.3, 0.5, 0.7, 0.9, 0.97, 1.0]))
    if kind in ("fixed", "uniform"):
        c["s"] = [1] * n + [0] * (m - n)
        c["left"] = draw(st.sampled_from([n, n] + list(range(1, n + 1))))
        # the reference looks at every way to spread the particles over the input modes
        lossless = c["a"].get("loss", "none") == "none"
        while math.comb(c["left"] + n - 1, n - 1) * math.comb(c["left"] + (m if lossless else 2 * m) - 1, c["left"]) > 250000:
            c["left"] -= 1
    else:
        c["s"] = draw(gen.states_of(m, n))
        while crowded and math.prod(x + 1 for x in c["s"]) > 60:
            i = c["s"].index(min(x for x in c["s"] if x))
            c["s"][i] -= 1
            c["s"][c["s"].index(max(c["s"]))] += 1
    if kind == "bobs":  # the reference enumerates where the approximated particles go
        while math.comb(sum(c["s"][:c["approx"]]) + max(c["approx"], 1) - 1, sum(c["s"][:c["approx"]])) > 60:
            c["approx"] -= 1
    c["sf"] = draw(gen.SFMT)
    c["batches"] = draw(st.sampled_from(["one", "one", "few"] if n < 8 else ["one"]))
    return c


def run_large(c):
    from vp import stats
    from vp.core import Violation

    s = c["s"]
    d = law(c, s)
    bad = stats.gof(sut.draw_with(build(c), gen.fmt_state(s, c["sf"]), len(s), c["batches"]), d, LARGE_N[c["kind"]], grow=(3, 8))
    if bad:
        raise Violation("strategy %s, input %s, matrix %s: %s" % (c["kind"], tuple(s), c["a"], bad))


def large_nt(c):
    return len(c["s"]) >= 2 and sum(c["s"]) >= 3 and c["a"]["k"] not in ("id", "perm", "phase") and c["a"].get("loss") != "zero"


def large(kinds, quick=8, thorough=120):
    from vp.core import Sub

    return Sub("large", lambda: large_case(kinds), run_large, large_nt, quick=(8, quick), thorough=(8, thorough))


# Experiments of many modes or particles.  The law of a few particles picked at random from
# every outcome (the lost ones included) is exact and small: picking commutes with losses
# and with the network, so it is the law of the experiment of as many particles picked at
# random from the input.
WIDE = {
    "gcc": [(16, 3), (20, 3), (24, 2), (33, 2), (40, 2)], "ma": [(16, 3), (20, 3), (24, 2), (33, 2), (40, 2)],
    "b": [(16, 5), (20, 4), (24, 3), (33, 3), (40, 2), (10, 8)], "ugccb": [(16, 5), (20, 4), (24, 3), (33, 3), (40, 2), (10, 8)],
    "ugcc": [(13, 3), (17, 2), (24, 2), (33, 2)], "lossynet": [(13, 4), (17, 3), (20, 3), (33, 2)],
    "bobs": [(13, 3), (17, 3), (20, 2), (25, 2)], "ubobs": [(13, 4), (17, 3), (20, 3), (33, 2)],
    "fixed": [(12, 12), (16, 9), (20, 8), (24, 12), (33, 20), (40, 3)], "uniform": [(12, 12), (16, 9), (20, 8), (24, 12), (33, 7), (40, 3)],
}
WIDE_N = {"gcc": 150, "ma": 150, "ugcc": 120, "b": 150, "ugccb": 150, "lossynet": 150, "bobs": 150, "ubobs": 150, "fixed": 600, "uniform": 300}


@st.composite
def wide_case(draw, kinds):
    kind = draw(st.sampled_from(list(kinds)))
    m, n = draw(st.sampled_from(WIDE[kind]))
    c = draw(configs(m, [kind], threads=(1, 2, 3)))
    if n >= 8 and c["calc"] == "glynn":
        c["calc"] = "ryser"
    if "eta" in c:
        c["eta"] = draw(st.sampled_from([0.3, 0.5, 0.7, 0.9, 0.97, 1.0]))
    if kind in ("fixed", "uniform"):
        c["s"] = [1] * n + [0] * (m - n)
        c["left"] = draw(st.sampled_from([n, n] + list(range(1, n + 1))))
    else:
        c["s"] = draw(gen.states_of(m, n))
    c["sf"] = draw(gen.SFMT)
    c["look"] = draw(st.sampled_from(["pair", "pair", "total"]))
    c["pick"] = draw(gen.SEED)
    return c


ISLAND_N = {"gcc": 500, "ma": 500, "ugcc": 400, "b": 400, "ugccb": 400, "lossynet": 250, "bobs": 250, "ubobs": 300, "fixed": 600, "uniform": 300}


@st.composite
def island_case(draw, kinds):
    """A small network in a wide interferometer: few outcomes, so that few samples tell."""
    kind = draw(st.sampled_from(list(kinds)))
    m = draw(st.sampled_from({"bobs": [9, 10, 13, 17], "ubobs": [9, 10, 13, 17, 25, 33], "lossynet": [9, 10, 13, 17, 25, 33], "ugcc": [9, 10, 13, 17, 17, 33]}.get(kind, [9, 10, 11, 13, 17, 18, 25, 33, 40, 65])))
    c = draw(configs(m, [kind], threads=(1, 2, 3)))
    size = draw(st.sampled_from([2, 3, 3, 3, 4]))
    a = {"k": "island", "m": m, "size": size, "seed": draw(gen.SEED)}
    if kind in LOSSY:
        a["loss"] = draw(st.sampled_from(["none", "uniform", "in", "out"]))
        a["t"] = draw(st.lists(st.sampled_from([0.25, 0.5, 0.81, 1.0]), min_size=1, max_size=5))
    c["a"] = a
    if "eta" in c:
        c["eta"] = draw(st.sampled_from([0.5, 0.9, 1.0, 1.0]))
    if kind in ("fixed", "uniform"):
        n = draw(gen.upto(1, 3))
        c["s"] = [1] * n + [0] * (m - n)
        c["left"] = draw(gen.upto(1, n))
    else:
        c["s"] = [0] * m
        cols = gen.island(a)[1]
        for _ in range(draw(st.sampled_from([2] if kind == "ugcc" and m > 17 else [2, 3, 3] if kind in ("gcc", "ma", "ugcc") else [2, 2, 3] if kind in SLOW else [2, 3, 3, 4]))):
            c["s"][draw(st.sampled_from(cols))] += 1
    if kind == "bobs":
        c["approx"] = draw(st.sampled_from([0, 0, c["approx"]]))
        while sum(c["s"][:c["approx"]]) > (2 if c["approx"] <= 9 else 1):
            c["approx"] -= 1
    if kind == "ubobs":
        c["level"] = draw(st.sampled_from([m, m, c["level"]]))
        while sum(c["s"][c["level"]:]) > 1:
            c["level"] += 1
    c["sf"] = draw(gen.SFMT)
    c["batches"] = draw(st.sampled_from(["one", "one", "few"])) if kind != "ugcc" else "one"
    return c


def run_island(c):
    from vp import stats
    from vp.core import Violation

    s = c["s"]
    bad = stats.gof(sut.draw_with(build(c), gen.fmt_state(s, c["sf"]), len(s), c["batches"]), law(c, s), ISLAND_N[c["kind"]], grow=(3, 10))
    if bad:
        raise Violation("strategy %s, input %s, matrix %s: %s" % (c["kind"], tuple(s), c["a"], bad))


def picked(c, s, k):
    """Law of k particles picked at random."""
    a, m, n = gen.lossy_matrix(c["a"]), len(s), sum(s)
    if c["kind"] == "fixed":
        return ref.fixed_loss_approximation(a, n, k, m)
    if c["kind"] == "uniform":
        return ref.mix((math.comb(k, l) * c["eta"] ** l * (1 - c["eta"]) ** (k - l), ref.fixed_loss_approximation(a, n, l, m)) for l in range(k + 1))
    return ref.mix((ref.comb_prod(s, r) / math.comb(n, k), law(c, r, a, s)) for r in ref.substates(s, k))


def run_wide(c):
    from vp import stats
    from vp.core import Violation

    s, m = c["s"], c["m"]
    n = c["left"] if c["kind"] == "fixed" else sum(s)
    k = min(2, n)
    strat = build(c)
    rng = gen._rng(c["pick"], 5)
    lo, hi = particle_range(c, s)

    def some(samples):
        out = []
        for t in samples:
            if not lo <= sum(t) <= hi:
                raise Violation("strategy %s, input %s: outcome %s has %d particles, possible are %d to %d" % (c["kind"], tuple(s), t, sum(t), lo, hi))
            where = [i for i, x in enumerate(t) for _ in range(x)]
            new = [0] * m
            for j in rng.permutation(n)[:k]:
                if j < len(where):
                    new[where[j]] += 1
            out.append(tuple(new))
        return out

    look = c["look"] if "eta" in c and c["a"].get("loss", "none") == "none" else "pair"
    draw = sut.draw_with(strat, gen.fmt_state(s, c["sf"]), m)
    if look == "total":
        d = {(l,): math.comb(n, l) * c["eta"] ** l * (1 - c["eta"]) ** (n - l) for l in range(n + 1)}
        bad = stats.gof(lambda j: [(sum(t),) for t in draw(j)], {t: p for t, p in d.items() if p}, WIDE_N[c["kind"]], grow=(3, 8))
    else:
        bad = stats.gof(lambda j: some(draw(j)), picked(c, s, k), WIDE_N[c["kind"]], grow=(3, 8))
    if bad:
        raise Violation("strategy %s, input %s, matrix %s, %s: %s" % (c["kind"], tuple(s), c["a"], "particle numbers" if look == "total" else "%d particles picked at random from every outcome" % k, bad))


def wide(kinds, quick=6, thorough=100):
    from vp.core import Sub

    return Sub("wide", lambda: wide_case(kinds), run_wide, large_nt, quick=(8, quick), thorough=(8, thorough))


def islands(kinds, quick=8, thorough=120):
    from vp.core import Sub

    return Sub("islands", lambda: island_case(kinds), run_island, lambda c: sum(c["s"]) >= 2, quick=(8, quick), thorough=(8, thorough))
