"""C08: QFT and random-phase layers acting on the first modes only."""
import numpy as np
from hypothesis import strategies as st

from vp import gen, stats, sut
from vp.core import Prop, Sub, Violation


@st.composite
def case(draw):
    n = draw(st.one_of(gen.upto(1, 24), gen.upto(1, 24), gen.upto(1, 24), gen.upto(25, 150)))
    return {"all": n, "m": draw(st.integers(0, n)), "np": draw(gen.NP)}


def dft(m):
    return np.exp(2j * np.pi * (np.outer(np.arange(m), np.arange(m)) % max(m, 1)) / max(m, 1)) / np.sqrt(max(m, 1))


def run_qft(c):
    n, m = c["all"], c["m"]
    want = np.eye(n, dtype=complex)
    want[:m, :m] = dft(m)
    num = gen.num(c)
    for _ in range(2):
        raw = sut.utils().generate_qft_matrix_for_first_m_modes(num(m), num(n))
        got = sut.as_array(raw, (n, n), "QFT layer")
        if np.abs(got - want).max() > 1e-9:
            raise Violation("QFT layer on %d of %d modes deviates by %.3g" % (m, n, np.abs(got - want).max()))
        if m > 0:
            rawq = sut.qcu().compute_qft_matrix(num(m))
            q = sut.as_array(rawq, (m, m), "QFT matrix")
            if np.abs(q - dft(m)).max() > 1e-9:
                raise Violation("QFT matrix of size %d deviates by %.3g" % (m, np.abs(q - dft(m)).max()))
            gen.spoil(rawq)     # the caller's to change
        gen.spoil(raw)


@st.composite
def pcase(draw):
    n = draw(st.one_of(gen.upto(1, 10), gen.upto(1, 10), gen.upto(1, 10), st.sampled_from([16, 25])))
    return {"all": n, "m": draw(st.integers(0, n)), "reps": 400}


def run_phases(c):
    n, m = c["all"], c["m"]
    angles = []
    for _ in range(c["reps"] if m else 2):
        raw = sut.utils().generate_random_phases_matrix_for_first_m_modes(m, n)
        d = np.array(sut.as_array(raw, (n, n), "phase layer"))
        gen.spoil(raw)
        off = d - np.diag(np.diagonal(d))
        if np.abs(off).max(initial=0) > 0:
            raise Violation("the random phase layer on %d of %d modes is not diagonal" % (m, n))
        v = np.diagonal(d)
        if np.abs(np.abs(v) - 1).max() > 1e-12:
            raise Violation("a random phase does not have unit modulus")
        if m < n and np.abs(v[m:] - 1).max() > 1e-12:
            raise Violation("the phase layer on the first %d of %d modes touches other modes" % (m, n))
        angles.append(np.angle(v[:m]) / (2 * np.pi) % 1.0)
    if m == 0:
        return
    ang = np.array(angles)
    # continuous: exact repetitions do not happen (400 x 10 values of double precision)
    flat = np.sort(ang.ravel())
    ties = int((np.diff(flat) < 1e-13).sum())
    if ties > 2:
        raise Violation("random phases of the first %d of %d modes are not continuous: %d of %d values repeat others" % (m, n, ties, flat.size))
    q = stats.ks_uniform_p(ang.ravel())
    if q < 1e-10:
        raise Violation("the phases of the first %d of %d modes, taken together, are not uniform: KS p=%.3g" % (m, n, q))
    for i in range(m):
        p = stats.ks_uniform_p(ang[:, i])
        if p < 1e-10:
            raise Violation("phase of mode %d (of the first %d of %d) is not uniform on the circle: KS p=%.3g, values %s" % (i, m, n, p, ang[:4, i]))
        # every integer combination of independent uniform phases is uniform again
        for lag in (1, 2, 3):
            for a, b in ((1, -1), (1, 1), (2, -1), (1, -2), (2, 1), (1, 2)):
                q = stats.ks_uniform_p((a * ang[lag:, i] + b * ang[:-lag, i]) % 1.0)
                if q < 1e-10:
                    raise Violation("phases of mode %d, %d calls apart, are dependent: KS p=%.3g" % (i, lag, q))
        for j in range(i):
            for a, b in ((1, -1), (1, 1), (2, -1), (1, -2), (2, 1), (1, 2)):
                q = stats.ks_uniform_p((a * ang[:, i] + b * ang[:, j]) % 1.0)
                if q < 1e-10:
                    raise Violation("phases of modes %d and %d are dependent: KS p=%.3g" % (j, i, q))
    q = stats.ks_uniform_p(ang.sum(axis=1) % 1.0)
    if q < 1e-10:
        raise Violation("the sum of the phases of the first %d of %d modes is not uniform: KS p=%.3g" % (m, n, q))
    g = np.random.Generator(np.random.PCG64(m * 100 + n))
    for _ in range(30):
        w = g.integers(-2, 3, m)
        q = stats.ks_uniform_p(ang @ w % 1.0) if np.any(w) else 1.0
        if q < 1e-10:
            raise Violation("the phases of the first %d of %d modes are dependent (combination %s): KS p=%.3g" % (m, n, w, q))


PROP = Prop(
    "C08",
    "at least two modes in the layer",
    [
        Sub("qft", case, run_qft, lambda c: c["m"] >= 2, corpus=[{"all": 1, "m": 0}, {"all": 1, "m": 1}, {"all": 5, "m": 5}, {"all": 60, "m": 60}, {"all": 200, "m": 190}, {"all": 300, "m": 300}], quick=(2, 300), thorough=(2, 600)),
        Sub("phases", pcase, run_phases, lambda c: c["m"] >= 2, corpus=[{"all": 2, "m": 1, "reps": 6000}, {"all": 4, "m": 3, "reps": 4000}], quick=(2, 40), thorough=(4, 400)),
    ],
)
