"""C24: distances, sample-size bounds, prime factors."""
import functools
import math

import numpy as np
from hypothesis import strategies as st

from vp import gen, sut
from vp.core import Prop, Sub, Violation


def dist_from(seed, k, sparse, total=1.0):
    return _dist_from(seed, k, sparse) * total


def _dist_from(seed, k, sparse):
    g = np.random.Generator(np.random.PCG64(seed))
    p = g.random(k) ** 2
    if sparse:
        p *= g.random(k) < 0.5
        if p.sum() == 0:
            p[g.integers(0, k)] = 1
    return p / p.sum()


@st.composite
def tvd_case(draw):
    return {"k": draw(st.one_of(gen.upto(1, 30), st.sampled_from([100, 300, 1200, 5000]))), "seeds": [draw(gen.SEED) for _ in range(3)], "sparse": draw(st.booleans()),
            "equal": draw(st.booleans()), "total": draw(st.sampled_from([[1.0, 1.0, 1.0], [1.0, 1.0, 1.0], [1.0, 0.9, 0.5], [1.0, 0.0, 0.3]])), "fmt": draw(st.sampled_from(["list", "nd", "tuple"])), "drop": draw(st.booleans()), "shuffle": draw(gen.SEED)}


def run_tvd(c):
    q = sut.qcu()
    # parts of a distribution too (an approximate one, or one of given outcomes only)
    ps = [dist_from(s, c["k"], c["sparse"], t) for s, t in zip(c["seeds"], c["total"])]
    if c["equal"]:
        ps[1] = ps[0].copy()
    conv = {"list": lambda x: x.tolist(), "nd": lambda x: x.copy(), "tuple": lambda x: tuple(x.tolist())}[c["fmt"]]

    def t(i, j):
        return float(q.count_total_variation_distance(conv(ps[i]), conv(ps[j])))

    def want(i, j):
        return 0.5 * math.fsum(abs(a - b) for a, b in zip(ps[i], ps[j]))

    def as_dict(i):
        g = np.random.Generator(np.random.PCG64(c["shuffle"] + i))
        keys = [(k, k // 2) for k in range(c["k"])]
        order = g.permutation(c["k"])
        return {keys[k]: float(ps[i][k]) for k in order if not (c["drop"] and ps[i][k] == 0)}

    for i in range(3):
        for j in range(3):
            if abs(t(i, j) - want(i, j)) > 1e-9:
                raise Violation("total variation distance is %r, expected %r, of %s and %s" % (t(i, j), want(i, j), ps[i].tolist(), ps[j].tolist()))
            d1, d2 = as_dict(i), as_dict(j)
            k1, k2 = dict(d1), dict(d2)
            dd = float(q.count_total_variation_distance_dicts(d1, d2))
            if abs(dd - want(i, j)) > 1e-9:
                raise Violation("total variation distance of dictionaries is %r, expected %r" % (dd, want(i, j)))
            if dict(d1) != k1 or dict(d2) != k2:
                raise Violation("the compared distributions were modified")
    # a pair with different supports
    d1 = {(0,): 1.0}
    d2 = {(1,): 1.0}
    if abs(q.count_total_variation_distance_dicts(d1, d2) - 1) > 1e-12:
        raise Violation("disjoint distributions are not at distance 1")


@st.composite
def bound_case(draw):
    return {"np": draw(gen.NP), "k": draw(st.one_of(gen.upto(2, 80), st.sampled_from([100, 511, 512, 1000, 1023, 1024, 1025, 2048, 50000, 10 ** 6]), st.integers(2, 3000))),
            "n": draw(st.one_of(gen.upto(1, 50), st.sampled_from([1000, 10 ** 6]), st.integers(1, 10 ** 7))),
            "err": draw(st.one_of(st.sampled_from([1e-12, 1e-3, 0.01, 0.05, 0.3, 0.9, 0.99, 1.0]), st.integers(1, 999).map(lambda x: x / 1000))),
            "d": draw(st.one_of(st.sampled_from([0.005, 0.01, 0.1, 0.33, 0.5, 1.0]), st.integers(2, 1000).map(lambda x: x / 1000)))}


def run_bound(c):
    q = sut.qcu()
    k, n, err, d = c["k"], c["n"], c["err"], c["d"]

    def log_big(k):  # log(2^k - 2)
        return k * math.log(2) + (math.log1p(-2.0 ** (1 - k)) if k < 1000 and k > 1 else 0.0)

    def rigorous(n_):
        return math.sqrt(max(log_big(k) - math.log(err), 0) / (2 * n_))

    def documented(n_):
        return math.sqrt((k * math.log(2) - math.log(err)) / (2 * n_))

    num = gen.num(c)
    got = float(q.count_tv_distance_error_bound_of_experiment_results(num(k), num(n), err))
    if not rigorous(n) * (1 - 1e-9) <= got <= documented(n) * (1 + 1e-9):
        raise Violation("error bound for %d outcomes, %d samples, error probability %g is %r, expected between %r and %r" % (k, n, err, got, rigorous(n), documented(n)))
    need = sut.as_int(q.compute_minimal_number_of_samples_for_desired_accuracy(num(k), err, d), "number of samples")
    if need < 1:
        raise Violation("number of samples is %d" % need)
    if rigorous(need) > d * (1 + 1e-9) or float(q.count_tv_distance_error_bound_of_experiment_results(k, need, err)) > d * (1 + 1e-9):
        raise Violation("%d samples are claimed to reach distance %g for %d outcomes with error probability %g, the bound is %r" % (need, d, k, err, documented(need)))
    if need > 1 and rigorous(need - 1) <= d * (1 - 1e-9) and documented(need - 1) <= d * (1 - 1e-9):
        raise Violation("%d samples are claimed to be needed for distance %g with %d outcomes, error probability %g; %d suffice" % (need, d, k, err, need - 1))


@st.composite
def prime_case(draw):
    kind = draw(st.sampled_from(["any", "product", "square", "power", "even", "large", "prime"]))
    if kind == "any":
        v = draw(st.integers(1, 10 ** 7))
    elif kind == "product":
        v = math.prod(draw(st.lists(st.sampled_from([2, 3, 5, 7, 11, 13, 17, 19, 23, 97, 101, 997]), max_size=6)))
    elif kind == "square":
        v = draw(st.sampled_from([3, 5, 7, 31, 97, 997, 7919, 65537, 99991])) ** 2
    elif kind == "even":        # beyond the range of fixed-width integers
        v = 2 ** draw(st.integers(20, 200)) * draw(st.sampled_from([1, 3, 9, 15, 49, 101, 997 * 991, 65537]))
    elif kind == "large":
        v = draw(st.one_of(st.integers(10 ** 7, 10 ** 10), st.integers(10 ** 10, 10 ** 12), st.sampled_from([2 ** 31, 2 ** 32, 10 ** 10]).flatmap(lambda b: st.integers(b - 50, b + 50))))
    elif kind == "prime":
        v = draw(st.integers(2, 10 ** 11))
        while not is_prime(v):
            v += 1
        v *= draw(st.sampled_from([1, 1, 2, 3, 4, 9]))
    else:
        v = draw(st.sampled_from([2, 3, 5, 7])) ** draw(st.integers(0, 12))
    return {"v": v, "np": v < 2 ** 62 and draw(gen.NP)}


@functools.lru_cache(None)
def is_prime(n):
    return n >= 2 and all(n % k for k in (2, 3, 5, 7, 11, 13) if k < n) and all(n % k for k in range(3, math.isqrt(n) + 1, 2))


def run_prime(c):
    got = list(sut.qcu().get_prime_factors(gen.num(c)(c["v"])))
    ints = [sut.as_int(x, "prime factor of %d" % c["v"]) for x in got]
    if math.prod(ints) != c["v"] or not all(is_prime(x) for x in ints):
        raise Violation("prime factors of %d are given as %s" % (c["v"], got))


@st.composite
def mat_case(draw):
    m = draw(gen.upto(1, 6))
    return {"a": draw(gen.general_specs(m)), "b": draw(gen.general_specs(m))}


def run_mat(c):
    a, b = gen.general_matrix(c["a"]), gen.general_matrix(c["b"])
    got = float(sut.qcu().count_distance_between_matrices(a, b))
    want = math.sqrt(math.fsum(abs(x) ** 2 for x in (a - b).ravel()))
    if abs(got - want) > 1e-9 * (1 + want):
        raise Violation("distance of matrices is %r, expected %r" % (got, want))


PROP = Prop(
    "C24",
    "tvd: at least 3 outcomes; bounds: every case; primes: composite numbers; matrices: two different matrices",
    [
        Sub("tvd", tvd_case, run_tvd, lambda c: c["k"] >= 3, quick=(2, 500), thorough=(4, 4000)),
        Sub("bounds", bound_case, run_bound, quick=(2, 500), thorough=(2, 1500)),
        Sub("primes", prime_case, run_prime, lambda c: c["v"] > 3 and not is_prime(c["v"]), corpus=[{"v": v} for v in range(1, 50)], quick=(2, 400), thorough=(2, 2000)),
        Sub("matrices", mat_case, run_mat, lambda c: c["a"] != c["b"], quick=(1, 150), thorough=(1, 2000)),
    ],
)
