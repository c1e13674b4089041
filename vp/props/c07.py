"""C07: expansion of a lossy interferometer into a unitary on twice as many modes."""
import numpy as np
from hypothesis import strategies as st

from vp import gen, sut
from vp.core import Prop, Sub, Violation


@st.composite
def case(draw, m_max=12):
    m = draw(gen.upto(1, m_max))
    if draw(st.integers(0, 9)) == 0:
        m = draw(st.sampled_from([16, 17, 20, 33]))
    a = draw(gen.lossy_specs(m))
    # sometimes followed by a close relative of the same matrix in the same session
    return {"matrix": a, "mf": draw(gen.MFMT), "then": draw(st.one_of(st.none(), gen.variant(a)))}


def run(c):
    run_one(c)
    if c.get("then"):
        run_one(dict(c, matrix=c["then"]))


def run_one(c):
    a = gen.lossy_matrix(c["matrix"])
    m = a.shape[0]
    u = sut.utils()
    arg = gen.fmt_matrix(a, c["mf"])
    raw = u.prepare_interferometer_matrix_in_expanded_space(arg)
    sut.as_array(raw, (2 * m, 2 * m), "expanded matrix")
    gen.spoil(raw)
    w = sut.as_array(u.prepare_interferometer_matrix_in_expanded_space(arg), (2 * m, 2 * m), "expanded matrix")
    d = np.abs(w[:m, :m] - a).max()
    if d > 1e-9:
        raise Violation("the observed block of the expanded matrix differs from the given matrix by %.3g:\n%s" % (d, gen.shown(a)))
    d = np.abs(w.conj().T @ w - np.eye(2 * m)).max()
    if d > 1e-8:
        raise Violation("the expanded matrix of\n%s\nis not unitary (deviation %.3g)" % (gen.shown(a), d))
    got = sut.as_array(u.get_modes_transmissivity_values_from_matrix(arg), (m,), "transmissivities")
    if np.abs(got.imag).max() > 0:
        raise Violation("complex transmissivities")
    want = np.linalg.eigvalsh(a.conj().T @ a)
    d = np.abs(np.sort(got.real) - np.sort(want)).max()
    if d > 1e-8:
        raise Violation("transmissivities of\n%s\nare %s, expected (in any order) %s" % (gen.shown(a), np.sort(got.real), np.sort(want)))


PROP = Prop(
    "C07",
    "at least two modes and a matrix that really loses particles (not unitary, not zero)",
    [Sub("dilation", case, run, lambda c: c["matrix"]["m"] >= 2 and c["matrix"].get("loss") not in ("none", "zero"), corpus=[
        {"matrix": {"k": "id", "m": 1, "loss": "uniform", "t": [0.25]}, "mf": "nd"},
        {"matrix": {"k": "haar", "m": 3, "seed": 1, "loss": "zero"}, "mf": "nd"},
        {"matrix": {"k": "haar", "m": 3, "seed": 1, "loss": "in", "t": [0.0, 1.0, 0.5]}, "mf": "list"},
        {"matrix": {"k": "id", "m": 3, "loss": "in", "t": [0.0, 1.0, 1.0]}, "mf": "int"},
    ], quick=(8, 1500), thorough=(8, 5000))],
)
