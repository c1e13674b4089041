"""A stand-in for rpy2 and the R package BosonSampling (no R in this sandbox).

bosonSampler(A, sampleSize, perm) follows the package's documentation: A is an m x n matrix
whose columns are the input modes' columns of the unitary, the values are 1-based output
modes, one sample per column of an n x sampleSize matrix (R stores columns contiguously),
perm and pmf are only filled in when perm is TRUE.  Its law is computed by vp.ref.
"""
import sys
import types

import numpy as np

from vp import ref

INSTALLED = {"BosonSampling", "Rcpp", "RcppArmadillo"}
_cache = {}
LIMIT = 50000  # single draws in one case before it counts as a search that never ends
calls = 0
last = None  # the matrix of the latest call


class ComplexVector(list):
    def __init__(self, values):
        super().__init__(complex(v) for v in values)


class RMatrix:
    def __init__(self, data, nrow=1, ncol=1, byrow=False):
        data = [complex(x) for x in data]
        nrow, ncol = int(nrow), int(ncol)
        if len(data) != nrow * ncol:
            raise ValueError("data length %d does not fit a %d x %d matrix" % (len(data), nrow, ncol))
        self.value = np.array(data).reshape((nrow, ncol), order="C" if byrow else "F")
        self.nrow, self.ncol = nrow, ncol


    dim = property(lambda self: IntVector((self.nrow, self.ncol)))


class IntVector(list):
    pass


class FloatVector(list):
    pass


class BoolVector(list):
    pass


class ListVector(tuple):
    """The named list returned by bosonSampler."""

    names = ("values", "perm", "pmf")

    def rx2(self, key):
        return self[self.names.index(key) if isinstance(key, str) else key - 1]


class _R:
    matrix = staticmethod(RMatrix)

    def __getitem__(self, name):
        if name != "matrix":
            raise LookupError(name)
        return RMatrix


def law(a):
    key = a.tobytes() + repr(a.shape).encode()
    if key not in _cache:
        if len(_cache) > 50:
            _cache.clear()
        d = {t: p for t, p in ref.bs(a, (1,) * a.shape[1]).items() if p > 1e-15}
        keys = sorted(d)
        w = np.array([d[k] for k in keys])
        _cache[key] = (d, keys, w / w.sum())
    return _cache[key]


def bosonSampler(A, sampleSize=1, perm=False):
    if not isinstance(A, RMatrix):
        raise TypeError("A has to be an R matrix")
    if A.ncol < 1 or A.ncol > A.nrow:
        raise ValueError("A has to be an m x n matrix with 1 <= n <= m")
    global calls, last
    calls += 1
    last = A.value
    if calls > LIMIT:
        raise RuntimeError("no answer after %d draws" % LIMIT)
    d, keys, w = law(A.value)
    k = int(sampleSize)
    if k < 1:
        raise ValueError("sampleSize has to be positive")
    # with perm=TRUE samples are only used to discover outcomes: visiting each of them
    # equally often is one possible history and keeps the search short
    idx = np.random.choice(len(keys), k, p=None if perm else w)
    values, pmf = [], []
    for i in idx:
        modes = [j + 1 for j, c in enumerate(keys[i]) for _ in range(c)]
        values += [int(x) for x in np.random.permutation(modes)]
        pmf.append(d[keys[i]])
    if not perm:
        return ListVector((IntVector(values), None, None))
    return ListVector((IntVector(values), ComplexVector([0j] * k), FloatVector(pmf)))


def isinstalled(name, lib_loc=None):
    return name in INSTALLED


class PackageNotInstalledError(ImportError):
    pass


def importr(name, *a, **k):
    if name not in INSTALLED:
        raise PackageNotInstalledError("The R package %s is not installed" % name)
    return types.SimpleNamespace(bosonSampler=bosonSampler)


def install():
    rpy2 = types.ModuleType("rpy2")
    robjects = types.ModuleType("rpy2.robjects")
    packages = types.ModuleType("rpy2.robjects.packages")
    vectors = types.ModuleType("rpy2.robjects.vectors")
    rpy2.__path__ = robjects.__path__ = []
    for c in (ComplexVector, IntVector, FloatVector, BoolVector, ListVector):
        setattr(robjects, c.__name__, c)
        setattr(vectors, c.__name__, c)
    robjects.r = _R()
    robjects.vectors = vectors
    packages.importr, packages.isinstalled = importr, isinstalled
    packages.PackageNotInstalledError = PackageNotInstalledError
    robjects.packages = packages
    rpy2.robjects = robjects
    sys.modules.update({"rpy2": rpy2, "rpy2.robjects": robjects, "rpy2.robjects.packages": packages, "rpy2.robjects.vectors": vectors})


def uninstall():
    for k in ("rpy2", "rpy2.robjects", "rpy2.robjects.packages", "rpy2.robjects.vectors"):
        sys.modules[k] = None
