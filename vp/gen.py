"""Case vocabulary: JSON matrix / state specs, their builders, Hypothesis strategies."""
import math

import numpy as np
from hypothesis import strategies as st

SEED = st.integers(0, 2 ** 20)
TRANS = st.one_of(
    st.sampled_from([0.0, 0.04, 0.25, 0.5, 0.81, 0.96, 1.0]),
    st.integers(1, 99).map(lambda k: k / 100),
    st.integers(1, 99).map(lambda k: k / 100),
    st.sampled_from([1e-6, 1e-4, 0.001, 0.01, 0.99, 0.999, 0.9999, 1 - 1e-6]),
)
SCALE = st.sampled_from([1.0] * 8 + [1e-3, 1e-6, 1e-9, 1e-12, 1e-15, 1e4, 1e8])


def upto(lo, hi):
    """Near-uniform over lo..hi (integers() favours the ends), shrinking towards lo."""
    return st.sampled_from(list(range(lo, hi + 1)))


@st.composite
def sizes(draw, caps):
    """(modes, particles) with particles up to caps[modes]; the degenerate ends are kept
    but rare, so that most cases are worth their cost."""
    ms = sorted(caps)
    m = draw(st.sampled_from([x for x in ms for _ in range(1 if x == 1 else 2 if x >= 6 else 3)]))
    top = caps[m]
    n = draw(st.sampled_from([x for x in range(top + 1) for _ in range(1 if x <= 1 else 3)]))
    return m, n


# ---------------------------------------------------------------- builders
def _rng(seed, salt=0):
    return np.random.Generator(np.random.PCG64([int(seed), salt]))


def haar(m, seed, salt=0):
    g = _rng(seed, salt)
    z = (g.standard_normal((m, m)) + 1j * g.standard_normal((m, m))) / math.sqrt(2)
    q, r = np.linalg.qr(z)
    d = np.diagonal(r)
    return q * (d / np.abs(d))


def orth(m, seed):
    g = _rng(seed, 7)
    q, r = np.linalg.qr(g.standard_normal((m, m)))
    return q * np.sign(np.diagonal(r))


def perm_matrix(m, seed):
    p = _rng(seed, 3).permutation(m)
    u = np.zeros((m, m), dtype=complex)
    for i in range(m):
        u[p[i], i] = 1
    return u


def vary(a, ops):
    """Apply a chain of variations.  Every one keeps unitary matrices unitary and
    sub-unitary ones sub-unitary, and leaves some aspect of the matrix as it was."""
    a = np.array(a, dtype=complex)
    m = a.shape[0]
    for op, seed in ops:
        g = _rng(seed, 41)
        if op == "T":
            a = a.T.copy()
        elif op == "conj":
            a = a.conj()
        elif op == "H":
            a = a.conj().T.copy()
        elif op == "neg":
            a = -a
        elif op == "i":
            a = 1j * a
        elif op == "rows":
            a = np.exp(2j * np.pi * g.random(m))[:, None] * a
        elif op == "cols":
            a = a * np.exp(2j * np.pi * g.random(m))[None, :]
        elif op == "negcol":
            a[:, g.integers(0, m)] *= -1
        elif op == "negrow":
            a[g.integers(0, m)] *= -1
        elif op == "swaprows":
            a = a[g.permutation(m)]
        elif op == "swapcols":
            a = a[:, g.permutation(m)]
        elif op == "lastrows":       # everything but the last rows is as before
            if m > 1:
                a[-2:] = haar(2, seed, 43) @ a[-2:]
        elif op == "lastcols":
            if m > 1:
                a[:, -2:] = a[:, -2:] @ haar(2, seed, 43)
        elif op in ("small", "tiny"):
            if m > 1:
                x = 10.0 ** -(1 + (1 if op == "small" else 4) * g.random())
                i = int(g.integers(0, m - 1))
                a[i:i + 2] = np.array([[np.cos(x), -np.sin(x)], [np.sin(x), np.cos(x)]]) @ a[i:i + 2]
        elif op == "tinyphase":      # hardly complex where it was real
            a = np.exp(1j * 10.0 ** -g.integers(1, 9) * g.standard_normal(m))[:, None] * a
        elif op == "rephase":        # the same moduli, phases that matter
            a = rephased(a, g)
        elif op != "same":
            raise ValueError(op)
    return a


def f4(x):
    """The 4 x 4 unitaries of equal moduli, up to phases of rows and columns."""
    e = 1j * np.exp(1j * x)
    return np.array([[1, 1, 1, 1], [1, e, -1, -e], [1, -1, 1, -1], [1, -e, -1, e]]) / 2


def rephased(a, g):
    """Another matrix with the moduli of this one, if a random choice gives one that is
    no amplifier; the matrix itself otherwise."""
    m = a.shape[0]
    flat = np.abs(a)
    if m == 4 and np.ptp(flat) < 1e-9:
        return flat[0, 0] * 2 * f4(2 * np.pi * g.random())
    top = max(1.0, np.linalg.norm(a, 2))
    for _ in range(6):
        b = flat * np.exp(2j * np.pi * g.random((m, m))) if g.random() < 0.5 else a * g.choice([-1, 1], (m, m))
        if np.linalg.norm(b, 2) <= top and not np.allclose(b @ b.conj().T, np.eye(m)) and not np.allclose(a @ a.conj().T, np.eye(m)):
            return b
    return a


VARIATIONS = ["rephase", "rephase", "T", "conj", "H", "neg", "i", "rows", "cols", "negcol", "negrow", "swaprows", "swapcols", "lastrows", "lastcols", "small", "small", "tiny", "tinyphase", "same"]


def unitary(spec):
    u = _unitary(spec)
    return vary(u, spec["vary"]) if spec.get("vary") else u


def _unitary(spec):
    k, m = spec["k"], spec["m"]
    seed = spec.get("seed", 0)
    if k == "haar":
        return haar(m, seed)
    if k == "orth":
        return orth(m, seed).astype(complex)
    if k == "id":
        return np.eye(m, dtype=complex)
    if k == "perm":
        return perm_matrix(m, seed)
    if k == "qft":
        w = np.exp(2j * np.pi * np.outer(np.arange(m), np.arange(m)) / m)
        return w / math.sqrt(m)
    if k == "phase":
        return np.diag(np.exp(2j * np.pi * _rng(seed, 5).random(m)))
    if k == "block":
        u = np.zeros((m, m), dtype=complex)
        a = 1 + seed % max(1, m - 1) if m > 1 else 1
        u[:a, :a] = haar(a, seed, 1)
        if m > a:
            u[a:, a:] = haar(m - a, seed, 2)
        return u
    if k in ("nearid", "nearorth", "nearperm"):
        # a special matrix up to a small unitary error
        g = _rng(seed, 13)
        h = g.standard_normal((m, m)) + 1j * g.standard_normal((m, m))
        w, v = np.linalg.eigh((h + h.conj().T) / 2)
        e = (v * np.exp(1j * 10.0 ** -(1 + seed % 9) * w)) @ v.conj().T
        return e @ {"nearid": np.eye(m), "nearorth": orth(m, seed), "nearperm": perm_matrix(m, seed)}[k]
    if k == "flat":
        return f4(2 * np.pi * _rng(seed, 17).random()) if m == 4 else _unitary({"k": "qft", "m": m})
    if k == "island":       # a small network in a wide interferometer
        g = _rng(seed, 19)
        rows, cols = island(spec)
        u = np.zeros((m, m), dtype=complex)
        u[np.ix_(rows, cols)] = haar(len(rows), seed, 4)
        for i, j in zip(g.permutation([i for i in range(m) if i not in rows]), g.permutation([j for j in range(m) if j not in cols])):
            u[i, j] = 1
        return u
    if k == "bs45":
        x = np.pi / 4 + spec.get("turn", 0.0)
        return np.array([[np.cos(x), -np.sin(x)], [np.sin(x), np.cos(x)]], dtype=complex)
    if k == "bs":
        g = _rng(seed, 11)
        u = np.eye(m, dtype=complex)
        if m > 1:
            i, j = sorted(g.choice(m, 2, replace=False))
            th = g.choice([np.pi / 4, np.pi / 4, g.random() * np.pi / 2])
            c, s = np.cos(th), np.sin(th)
            u[i, i], u[i, j], u[j, i], u[j, j] = c, -s, s, c
        return u
    raise ValueError(k)


def island(spec):
    """Output and input modes of the small network."""
    g = _rng(spec["seed"], 18)
    return sorted(int(x) for x in g.permutation(spec["m"])[:spec["size"]]), sorted(int(x) for x in g.permutation(spec["m"])[:spec["size"]])


def lossy_matrix(spec):
    """A sub-unitary matrix: unitary spec plus a loss description."""
    a = _lossy_matrix(spec)
    return vary(a, spec["vary"]) if spec.get("vary") else a


def _lossy_matrix(spec):
    m = spec["m"]
    u = _unitary(spec)
    loss = spec.get("loss", "none")
    t = np.array((spec.get("t") or [1.0]) * m, dtype=float)[:m]
    if loss == "none":
        return u
    if loss == "uniform":
        return u * math.sqrt(t[0])
    if loss == "in":
        return u @ np.diag(np.sqrt(t))
    if loss == "out":
        return np.diag(np.sqrt(t)) @ u
    if loss == "both":
        return np.diag(np.sqrt(t)) @ u @ np.diag(np.sqrt(t[::-1]))
    if loss == "sandwich":
        return u @ np.diag(np.sqrt(t)) @ haar(m, spec.get("seed", 0), 21)
    if loss == "zero":
        return u * 0
    raise ValueError(loss)


def general_matrix(spec):
    """Arbitrary complex matrices (permanents are defined for any matrix)."""
    a = _general_matrix(spec)
    if spec.get("vary"):
        a = vary(a, spec["vary"])
    return a * spec.get("scale", 1.0)


def _general_matrix(spec):
    k, m = spec["k"], spec["m"]
    g = _rng(spec.get("seed", 0), 31)
    if k == "gauss":
        return g.standard_normal((m, m)) + 1j * g.standard_normal((m, m))
    if k == "gint":
        return (g.integers(-2, 3, (m, m)) + 1j * g.integers(-2, 3, (m, m))).astype(complex)
    if k == "real":
        return g.standard_normal((m, m)).astype(complex)
    if k == "nonneg":
        return g.integers(0, 4, (m, m)).astype(complex)
    if k == "bigint":
        return g.integers(-2000, 2001, (m, m)).astype(complex)
    if k == "ones":
        return np.ones((m, m), dtype=complex)
    if k == "sparse":
        return (g.standard_normal((m, m)) + 1j * g.standard_normal((m, m))) * (g.random((m, m)) < 0.45)
    if k == "rank1":
        return np.outer(g.standard_normal(m) + 1j * g.standard_normal(m), g.standard_normal(m) + 1j)
    if k == "nearequal":   # rows (or columns) equal up to small differences
        a = np.ones((m, 1)) * (g.standard_normal(m) + 1j * g.standard_normal(m))
        a = a + 10.0 ** -g.integers(1, 10) * (g.standard_normal((m, m)) + 1j * g.standard_normal((m, m)))
        return a if spec.get("seed", 0) % 2 else a.T.copy()
    if k == "nearreal":
        return g.standard_normal((m, m)) + 1j * 10.0 ** -g.integers(1, 10) * g.standard_normal((m, m))
    if k == "zerorow":
        a = g.standard_normal((m, m)) + 1j * g.standard_normal((m, m))
        a[g.integers(0, m)] = 0
        return a
    if k == "zerocol":
        a = g.standard_normal((m, m)) + 1j * g.standard_normal((m, m))
        a[:, g.integers(0, m)] = 0
        return a
    if k == "graded":   # entries of very different sizes
        return (g.standard_normal((m, m)) + 1j * g.standard_normal((m, m))) * 10.0 ** g.integers(-7, 3, (m, m))
    if k == "cancel":   # rows summing to zero
        a = g.integers(-3, 4, (m, m)) + 1j * g.integers(-3, 4, (m, m))
        a = a.astype(complex)
        a[:, 0] -= a.sum(axis=1)
        return a
    if k == "imag":
        return 1j * g.standard_normal((m, m))
    if k == "zero":
        return np.zeros((m, m), dtype=complex)
    return _lossy_matrix(spec)


def fmt_matrix(a, fmt):
    """Present the same matrix in another container."""
    a = np.asarray(a)
    if fmt == "list":
        return [[complex(x) for x in row] for row in a]
    if fmt == "tuple":
        return tuple(tuple(complex(x) for x in row) for row in a)
    if fmt == "fortran":
        return np.asfortranarray(a.copy())
    if fmt == "view":
        big = np.full((2 * a.shape[0], 2 * a.shape[1]), 7 + 7j, dtype=a.dtype)
        big[::2, ::2] = a
        return big[::2, ::2]
    if fmt == "real" and np.abs(np.asarray(a).imag).max(initial=0) == 0:
        return a.real.copy()
    if fmt in ("int", "int32", "intlist") and np.abs(a).max(initial=0) <= 1e6 and np.abs(a.imag).max(initial=0) == 0 and np.all(a.real == np.round(a.real)):
        if fmt == "intlist":
            return [[int(x) for x in row] for row in a.real.round()]
        return a.real.round().astype(int if fmt == "int" else np.int32)
    return a.copy()


def fmt_state(s, fmt):
    if fmt == "list":
        return [int(x) for x in s]
    if fmt == "nd":
        return np.array([int(x) for x in s], dtype=int)
    if fmt == "nd32":
        return np.array([int(x) for x in s], dtype=np.int32)
    if fmt == "npints":
        return tuple(np.int64(x) for x in s)
    return tuple(int(x) for x in s)


MFMT = st.sampled_from(["nd", "nd", "nd", "list", "tuple", "fortran", "view", "real", "int", "int32"])


def formats_of(spec):
    """How the matrix is presented; integer matrices are often presented as such."""
    if spec["k"] in ("nonneg", "ones", "bigint") and not spec.get("vary"):
        return st.sampled_from(["int", "int", "int32", "intlist", "nd", "list", "real"])
    return MFMT


SFMT = st.sampled_from(["tuple", "tuple", "list", "nd", "npints"])


# ---------------------------------------------------------------- strategies
@st.composite
def unitary_specs(draw, m, kinds=None):
    k = draw(st.sampled_from(kinds or ["haar", "haar", "haar", "haar", "haar", "orth", "orth", "qft", "flat", "bs", "block", "block", "perm", "phase", "id", "nearorth", "nearid", "nearperm"]))
    spec = {"k": k, "m": m}
    if k not in ("id", "qft"):
        spec["seed"] = draw(SEED)
    return spec


@st.composite
def lossy_specs(draw, m, losses=None, kinds=None):
    spec = draw(unitary_specs(m, kinds))
    loss = draw(st.sampled_from(losses or ["none", "uniform", "uniform", "in", "in", "out", "out", "both", "both", "sandwich", "sandwich", "sandwich", "sandwich", "zero"]))
    spec["loss"] = loss
    if loss == "uniform":
        spec["t"] = [draw(TRANS)]
    elif loss in ("in", "out", "both", "sandwich"):
        spec["t"] = draw(st.lists(TRANS, min_size=m, max_size=m))
    return spec


@st.composite
def general_specs(draw, m):
    k = draw(st.sampled_from(["gauss", "gauss", "gint", "real", "imag", "nonneg", "ones", "bigint", "sparse", "sparse", "rank1", "zerorow", "zerocol", "graded", "cancel", "zero", "nearequal", "nearreal", "lossy", "haar"]))
    spec = draw(lossy_specs(m)) if k == "lossy" else {"k": k, "m": m, "seed": draw(SEED)}
    scale = draw(SCALE)
    if scale != 1.0:
        spec["scale"] = scale
    return spec


@st.composite
def variant(draw, spec):
    """Another matrix that shares much with the given one."""
    ops = [list(x) for x in spec.get("vary", [])][-1:]
    return dict(spec, vary=ops + [[draw(st.sampled_from(VARIATIONS)), draw(st.integers(0, 99))]])


@st.composite
def next_spec(draw, previous, fresh):
    """The next matrix of a history: a fresh one, or a variation of an earlier one of
    the same size."""
    s = draw(fresh)
    like = [p for p in previous if p["m"] == s["m"]]
    if like and draw(st.integers(0, 2)) == 0:
        return draw(variant(draw(st.sampled_from(like))))
    return s


@st.composite
def next_state(draw, previous, fresh):
    """The next state of a history: fresh, or an earlier one of the same size with its
    occupations in another order."""
    s = draw(fresh)
    like = [p for p in previous if len(p) == len(s) and sum(p) == sum(s)]
    if like and draw(st.integers(0, 2)) == 0:
        return list(draw(st.permutations(draw(st.sampled_from(like)))))
    return s


@st.composite
def states(draw, m, n_max, n_min=0, bunch=True):
    """States with a controlled particle number; spread, bunched and gapped alike."""
    n = draw(upto(n_min, n_max))
    return draw(states_of(m, n, bunch))


@st.composite
def states_of(draw, m, n, bunch=True):
    style = draw(st.sampled_from(["any", "any", "std", "bunched", "one", "flat"]))
    s = [0] * m
    if style == "std" and n <= m:
        for i in range(n):
            s[i] = 1
    elif style == "flat" and n <= m:
        idx = draw(st.permutations(list(range(m))))
        for i in idx[:n]:
            s[i] = 1
    elif style == "one":
        s[draw(st.integers(0, m - 1))] = n
    elif style == "bunched":
        a = draw(st.integers(0, m - 1))
        b = draw(st.integers(0, m - 1))
        k = draw(st.integers(0, n))
        s[a] += k
        s[b] += n - k
    else:
        for _ in range(n):
            s[draw(st.integers(0, m - 1))] += 1
    return s


def random_state(g, m, n):
    s = [0] * m
    for _ in range(n):
        s[int(g.integers(0, m))] += 1
    return s


def random_general(g, m):
    """A matrix spec picked by a random generator (for histories too long to draw)."""
    k = ["gauss", "gint", "real", "sparse", "nonneg", "haar", "perm"][int(g.integers(0, 7))]
    return {"k": k, "m": m, "seed": int(g.integers(0, 1000))}


class Reuse:
    """Presents changing values through one and the same object, changed in place, while
    its size allows; otherwise (or with on=False) through a fresh object each time."""

    def __init__(self, on):
        self.on = on
        self.obj = {}

    def __call__(self, key, fresh):
        old = self.obj.get(key)
        if self.on and isinstance(fresh, np.ndarray) and isinstance(old, np.ndarray) and old.shape == fresh.shape and old.dtype == fresh.dtype:
            old[...] = fresh
            return old
        if self.on and isinstance(fresh, list) and isinstance(old, list):
            old[:] = fresh
            return old
        self.obj[key] = fresh
        return fresh


def spoil(x):
    """Scribble over an object that was handed out, as far as it can be changed at all."""
    if isinstance(x, list):
        for y in x:
            spoil(y)
        x.reverse()
        del x[::2]
    elif isinstance(x, dict):
        for y in x.values():
            spoil(y)
        x.clear()
    elif isinstance(x, np.ndarray):
        if x.flags.writeable:
            if x.dtype == object:
                for y in x.ravel():
                    spoil(y)
            else:
                x[...] = 3
    elif isinstance(x, tuple):
        for y in x:
            spoil(y)


def num(c):
    """How the case presents its whole numbers: plain or as numpy integers."""
    return np.int64 if c.get("np") else int


NP = st.sampled_from([False, False, True])


def is_bunched(s):
    return any(x > 1 for x in s)


def shown(a):
    return np.array2string(np.asarray(a), precision=4, max_line_width=120)


def same(x, y):
    """Equal, including the containers and their types."""
    if isinstance(x, np.ndarray) or isinstance(y, np.ndarray):
        return isinstance(x, np.ndarray) and isinstance(y, np.ndarray) and x.shape == y.shape and x.dtype == y.dtype and np.array_equal(x, y)
    if isinstance(x, (list, tuple)):
        return type(x) is type(y) and len(x) == len(y) and all(same(a, b) for a, b in zip(x, y))
    return x == y
