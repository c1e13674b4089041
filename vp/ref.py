"""Reference models.  Nothing here uses the code under test.

Conventions: a matrix A acts on creation operators as a_i^dag -> sum_j A[j, i] b_j^dag
(rows are outputs, columns are inputs), states are occupation tuples.
"""
import itertools
import math
import signal
from functools import lru_cache, wraps

import numpy as np


def states(n, m):
    """All m-mode states of exactly n particles (recursive enumeration)."""
    if m == 0:
        return [()] if n == 0 else []
    if m == 1:
        return [(n,)]
    out = []
    for k in range(n + 1):
        for rest in states(n - k, m - 1):
            out.append((k,) + rest)
    return out


def substates(s, l=None):
    out = [tuple(r) for r in itertools.product(*[range(x + 1) for x in s])]
    if l is None:
        return out
    return [r for r in out if sum(r) == l]


def fact_prod(s):
    p = 1
    for x in s:
        p *= math.factorial(int(x))
    return p


def comb_prod(s, r):
    p = 1
    for a, b in zip(s, r):
        p *= math.comb(int(a), int(b))
    return p


def expand(A, s):
    """Coefficients of prod_i (sum_j A[j,i] x_j)^{s_i} as a dict exponent -> complex."""
    A = np.asarray(A, dtype=complex)
    rows = A.shape[0]
    poly = {(0,) * rows: 1.0 + 0j}
    for i, k in enumerate(s):
        for _ in range(int(k)):
            new = {}
            for t, c in poly.items():
                for j in range(rows):
                    a = A[j, i]
                    if a == 0:
                        continue
                    u = t[:j] + (t[j] + 1,) + t[j + 1:]
                    new[u] = new.get(u, 0j) + c * a
            poly = new
    return poly


def permanent(A, s, t):
    """perm of the effective scattering matrix: row j repeated t_j, column i repeated s_i."""
    return expand(A, s).get(tuple(int(x) for x in t), 0j) * fact_prod(t)


def row_scale(A, s, t):
    A = np.abs(np.asarray(A, dtype=complex))
    p = 1.0
    for j, k in enumerate(t):
        p *= float(sum(s[i] * A[j, i] for i in range(len(s)))) ** int(k)
    return p


def permanent_scale(A, s, t):
    """Magnitude of the terms that formulas over row sums (Ryser, Chin-Huh) or over column
    sums (Glynn) add up, the natural scale of their rounding errors."""
    return max(row_scale(A, s, t), row_scale(np.asarray(A).T, t, s))


def bs(A, s):
    """Output distribution of the Fock state s through the isometry A (lossless)."""
    norm = fact_prod(s)
    return {t: (abs(c) ** 2) * fact_prod(t) / norm for t, c in expand(A, s).items()}


def dilate(A):
    """Isometry [A; sqrt(I - A^dag A)] (2m x m)."""
    A = np.asarray(A, dtype=complex)
    m = A.shape[1]
    w, v = np.linalg.eigh(np.eye(m) - A.conj().T @ A)
    w = np.clip(w, 0, None)
    w[w < 1e-14] = 0.0
    rest = (v * np.sqrt(w)) @ v.conj().T
    return np.vstack([A, rest])


def lossy(A, s):
    """Output distribution on the m observed modes for a sub-unitary matrix A."""
    A = np.asarray(A, dtype=complex)
    m = A.shape[0]
    B = dilate(A)
    if np.abs(B[m:]).max(initial=0) == 0:
        return bs(A, s)
    # drop lost modes that couple to nothing
    keep = [j for j in range(m)] + [m + j for j in range(B.shape[0] - m) if np.abs(B[m + j]).max() > 0]
    out = {}
    for t, p in bs(B[keep], s).items():
        k = t[:m]
        out[k] = out.get(k, 0.0) + p
    return out


def mix(parts):
    out = {}
    for w, d in parts:
        if w == 0:
            continue
        for t, p in d.items():
            out[t] = out.get(t, 0.0) + w * p
    return out


def fixed_losses(U, s, left):
    """Exactly sum(s)-left particles lost, each set of lost particles equally likely."""
    n = int(sum(s))
    tot = math.comb(n, left)
    return mix((comb_prod(s, r) / tot, bs(U, r)) for r in substates(s, left))


def uniform_losses(U, s, eta):
    """Each particle independently survives with probability eta (before the network)."""
    n = int(sum(s))
    return mix(
        (comb_prod(s, r) * eta ** sum(r) * (1 - eta) ** (n - sum(r)), bs(U, r))
        for r in substates(s)
    )


def multinomial_inputs(q, modes, m):
    """q particles independently uniform over the given modes: (weight, occupation)."""
    out = []
    k = len(modes)
    if k == 0:
        return [(1.0, (0,) * m)] if q == 0 else []
    for occ in states(q, k):
        w = math.factorial(q) / fact_prod(occ) / k ** q
        st = [0] * m
        for mode, c in zip(modes, occ):
            st[mode] = c
        out.append((w, tuple(st)))
    return out


def bobs(A, s, approximated):
    """Particles of the first `approximated` modes are spread independently and
    uniformly over those modes; the rest is exact; network A may be lossy."""
    m = len(s)
    q = int(sum(s[:approximated]))
    rest = (0,) * approximated + tuple(int(x) for x in s[approximated:])
    parts = []
    for w, occ in multinomial_inputs(q, list(range(approximated)), m):
        parts.append((w, lossy(A, tuple(a + b for a, b in zip(occ, rest)))))
    return mix(parts)


def fixed_loss_approximation(A, n, l, m):
    """l particles, each spread independently and uniformly over the first n modes."""
    return mix((w, lossy(A, occ)) for w, occ in multinomial_inputs(l, list(range(n)), m))


def uniform_loss_approximation(A, n, eta, m):
    return mix(
        (math.comb(n, l) * eta ** l * (1 - eta) ** (n - l), fixed_loss_approximation(A, n, l, m))
        for l in range(n + 1)
    )


def ubobs(U, s, eta, level, like=None):
    """Uniformly lossy approximate sampler: modes 0..level-1 exact, particles of the
    other modes spread independently and uniformly over those modes, every particle
    survives with probability eta; averaged over relabelings of equally occupied
    input modes (equally occupied in `like`, of which s are some of the particles)."""
    U = np.asarray(U, dtype=complex)
    m = len(s)
    classes = {}
    for i, x in enumerate(s if like is None else like):
        classes.setdefault(int(x), []).append(i)
    groups = list(classes.values())
    q = int(sum(s[level:]))
    exact = tuple(int(x) for x in s[:level]) + (0,) * (m - level)
    n_exact = sum(exact)
    tail = list(range(level, m))
    parts = []
    for r in substates(exact):
        wr = comb_prod(exact, r) * eta ** sum(r) * (1 - eta) ** (n_exact - sum(r))
        if wr == 0:
            continue
        for l in range(q + 1):
            wl = math.comb(q, l) * eta ** l * (1 - eta) ** (q - l)
            if wl == 0:
                continue
            for w, occ in multinomial_inputs(l, tail, m):
                parts.append((wr * wl * w, tuple(a + b for a, b in zip(r, occ))))
    inputs = {}
    for w, st in parts:
        inputs[st] = inputs.get(st, 0.0) + w
    # average over permutations inside each class, acting on columns: only the images of
    # the occupied columns matter
    relabeled = {}
    for st, w in inputs.items():
        moved = [[col for col in g if st[col]] for g in groups]
        images = list(itertools.product(*[list(itertools.permutations(g, len(c))) for g, c in zip(groups, moved)]))
        for image in images:
            phys = [0] * m
            for cols, to in zip(moved, image):
                for col, x in zip(cols, to):
                    phys[x] = st[col]
            phys = tuple(phys)
            relabeled[phys] = relabeled.get(phys, 0.0) + w / len(images)
    return mix((w, bs(U, st)) for st, w in relabeled.items())


@lru_cache(maxsize=None)
def partitions_k(n, k):
    """Number of partitions of n into exactly k positive parts (DP)."""
    if n == 0 and k == 0:
        return 1
    if n <= 0 or k <= 0:
        return 0
    return partitions_k(n - 1, k - 1) + partitions_k(n - k, k)


def partitions(n, maxpart=None, maxlen=None):
    if maxpart is None:
        maxpart = n
    if n == 0:
        yield ()
        return
    if maxlen is not None and maxlen == 0:
        return
    for k in range(min(n, maxpart), 0, -1):
        for rest in partitions(n - k, k, None if maxlen is None else maxlen - 1):
            yield (k,) + rest


# ------------------------------------------------------------------ time
_depth = [0]


def off_the_clock(fn):
    """The time a model takes does not count against the code under test."""

    @wraps(fn)
    def timed(*args, **kw):
        if _depth[0]:
            return fn(*args, **kw)
        clocks = [(c, signal.setitimer(c, 0)[0]) for c in (signal.ITIMER_PROF, signal.ITIMER_REAL)]
        _depth[0] += 1
        try:
            return fn(*args, **kw)
        finally:
            _depth[0] -= 1
            for c, left in clocks:
                if left:
                    signal.setitimer(c, left)

    return timed


for _name in ("states", "permanent", "bs", "lossy", "fixed_losses", "uniform_losses", "bobs", "ubobs", "fixed_loss_approximation", "uniform_loss_approximation"):
    globals()[_name] = off_the_clock(globals()[_name])
