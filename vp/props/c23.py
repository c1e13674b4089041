"""C23: evolution of single-particle amplitudes through a network."""
import numpy as np
from hypothesis import strategies as st

from vp import gen, sut
from vp.core import Prop, Sub, Violation


@st.composite
def case(draw):
    m = draw(st.one_of(gen.upto(1, 8), gen.upto(1, 8), gen.upto(1, 8), st.sampled_from([12, 20, 33, 50])))
    a = draw(gen.lossy_specs(m))
    return {"a": a, "then": draw(st.one_of(st.none(), gen.variant(a))), "kind": draw(st.sampled_from(["lossy", "lossy", "lossless"])), "mf": draw(gen.MFMT),
            "v": draw(st.sampled_from(["int", "real", "complex", "complex", "imag", "sparse", "graded", "basis"])), "seed": draw(gen.SEED), "as": draw(st.sampled_from(["nd", "list", "tuple"])),
            "times": draw(gen.upto(1, 3))}


def vector(c):
    g = np.random.Generator(np.random.PCG64(c["seed"]))
    m = c["a"]["m"]
    if c["v"] == "int":
        v = g.integers(0, 4, m)
    elif c["v"] == "real":
        v = g.standard_normal(m)
    elif c["v"] == "basis":
        v = np.eye(m, dtype=complex)[g.integers(0, m)]
    elif c["v"] == "imag":
        v = 1j * g.standard_normal(m)
    else:
        v = g.standard_normal(m) + 1j * g.standard_normal(m)
        if c["v"] == "sparse":
            v = v * (g.random(m) < 0.5)
        elif c["v"] == "graded":
            v = v * 10.0 ** g.integers(-4, 3, m)
    return v


def run(c):
    other = dict(c, a=c["then"]) if c.get("then") else None
    net = sut.network(c["kind"], gen.fmt_matrix(gen.lossy_matrix(c["a"]), c["mf"]))
    net2 = other and sut.network(c["kind"], gen.fmt_matrix(gen.lossy_matrix(other["a"]), c["mf"]))
    run_one(c, net)
    if other:
        run_one(other, net2)
        run_one(c, net)


def run_one(c, net):
    a = gen.lossy_matrix(c["a"])
    m = a.shape[0]
    v = vector(c)
    arg = v.copy() if c["as"] == "nd" else (v.tolist() if c["as"] == "list" else tuple(v.tolist()))
    want = a @ np.asarray(v, dtype=complex)
    for _ in range(c["times"] + 1):
        out = net.simulate(arg)
        got = sut.as_array(out, (m,), "evolved state").copy()
        gen.spoil(out)
        if np.abs(got - want).max() > 1e-8 * (1 + np.abs(v).sum()):
            raise Violation("%s network: %s evolves to %s, expected %s; matrix\n%s" % (c["kind"], v, got, want, gen.shown(a)))
    # another vector, presented in the same object if that can be changed
    v2 = vector(dict(c, seed=c["seed"] + 1))
    if isinstance(arg, np.ndarray):
        arg[:] = v2
    elif isinstance(arg, list):
        arg[:] = v2.tolist()
    else:
        arg = tuple(v2.tolist())
    got = sut.as_array(net.simulate(arg), (m,), "evolved state")
    want = a @ np.asarray(v2, dtype=complex)
    if np.abs(got - want).max() > 1e-8 * (1 + np.abs(v2).sum()):
        raise Violation("%s network, second vector: %s evolves to %s, expected %s; matrix\n%s" % (c["kind"], v2, got, want, gen.shown(a)))


PROP = Prop(
    "C23",
    "at least two modes and a matrix that is neither the identity nor opaque",
    [Sub("evolution", case, run, lambda c: c["a"]["m"] >= 2 and c["a"]["k"] != "id" and c["a"]["loss"] != "zero", quick=(8, 1500), thorough=(8, 5000))],
)
