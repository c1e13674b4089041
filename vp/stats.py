"""Goodness of fit of samples against an exactly known distribution.

gof() escalates: a screening stage with few samples, and only when that looks odd a
second and a third stage, each with FRESH samples.  A violation needs either an
impossible outcome (exact probability below 1e-15), or a stage-3 deviation whose
probability under the exact distribution is below 1e-9 after correction for the number
of tests in the case (exact binomial tails; chi-square with a far stricter 1e-13).
"""
import math
from collections import Counter

import numpy as np
from scipy import special, stats as _st

FINAL = 1e-9
FINAL_CHI2 = 1e-13
IMPOSSIBLE = 1e-15
RARE = (3e-4, 1e-3, 3e-3, 1e-2, 3e-2)    # all outcomes less likely than this, taken together


def binom_two_sided(k, n, p):
    """Twice the smaller exact tail (capped at 1)."""
    p = min(max(p, 0.0), 1.0)
    if n == 0:
        return 1.0
    lo = 1.0 if k >= n else special.bdtr(k, n, p)      # P(X<=k)
    hi = 1.0 if k <= 0 else special.bdtrc(k - 1, n, p)  # P(X>=k)
    if p == 0.0:
        lo, hi = 1.0, (1.0 if k == 0 else 0.0)
    if p == 1.0:
        lo, hi = (1.0 if k == n else 0.0), 1.0
    return min(1.0, 2 * min(lo, hi))


def chi2_p(counts, dist, n, min_expected=5.0, lower=False):
    """Upper tail of the chi-square test; with lower=True the lower tail (frequencies
    that are closer to their expectations than independent draws can be)."""
    cells = sorted(((p * n, counts.get(t, 0)) for t, p in dist.items()), key=lambda c: c[0])
    pooled = []
    e_acc = o_acc = 0.0
    for e, o in cells:
        e_acc += e
        o_acc += o
        if e_acc >= min_expected:
            pooled.append((e_acc, o_acc))
            e_acc = o_acc = 0.0
    if e_acc > 0 or o_acc > 0:
        if pooled:
            e, o = pooled[-1]
            pooled[-1] = (e + e_acc, o + o_acc)
        else:
            pooled.append((e_acc, o_acc))
    if len(pooled) < 2:
        return 1.0
    x = sum((o - e) ** 2 / e for e, o in pooled if e > 0)
    if lower:
        # with few cells a perfect agreement is not that unlikely
        return float(_st.chi2.cdf(x, len(pooled) - 1)) if len(pooled) > 14 else 1.0
    return float(_st.chi2.sf(x, len(pooled) - 1))


def _features(dist):
    """Coarse events whose probability is known exactly: particle number, each mode's
    occupation, two-mode coincidences."""
    feats = {}
    for t, p in dist.items():
        feats.setdefault(("sum", sum(t)), 0.0)
        feats[("sum", sum(t))] += p
        for i, x in enumerate(t):
            feats.setdefault(("occ", i, x), 0.0)
            feats[("occ", i, x)] += p
        for tau in RARE:
            if p < tau:
                feats[("rare", tau)] = feats.get(("rare", tau), 0.0) + p
    return feats


def _feature_counts(counts, dist):
    fc = Counter()
    for t, c in counts.items():
        for tau in RARE:
            if dist.get(t, 0.0) < tau:
                fc[("rare", tau)] += c
        fc[("sum", sum(t))] += c
        for i, x in enumerate(t):
            fc[("occ", i, x)] += c
    return fc


def lag_test(samples, dist, eq):
    """Agreement of samples a fixed distance apart.  The distance is the worst one of all,
    found on the first samples; the probability is exact for disjoint pairs and corrected
    for the choice of the distance."""
    w = min(len(samples), 4096)
    if w < 64 or eq >= 1 - 1e-12:
        return 1.0, ""
    top = [t for t, _ in Counter(samples[:w]).most_common(48)]
    acc = np.zeros(2 * w)
    codes = {t: i for i, t in enumerate(top)}
    arr = np.array([codes.get(t, -1) for t in samples[:w]])
    mean = sum(dist.get(t, 0.0) ** 2 for t in top)
    spec = np.zeros(w + 1)
    for i in range(len(top)):
        f = np.fft.rfft((arr == i).astype(float), 2 * w)
        spec += np.abs(f) ** 2
    acc = np.fft.irfft(spec, 2 * w)
    lags = np.arange(1, w // 2 + 1)
    left = w - lags
    z = (acc[lags] - left * mean) / np.sqrt(left * max(mean * (1 - mean), 1e-12))
    L = int(lags[np.argmax(z)])
    n = len(samples)
    pairs = same = 0
    for start in range(0, n - L, 2 * L):
        for i in range(start, min(start + L, n - L)):
            pairs += 1
            same += samples[i] == samples[i + L]
    return min(1.0, binom_two_sided(same, pairs, min(eq, 1.0)) * len(lags)), "samples %d apart equal %d/%d times, expected fraction %.6g" % (L, same, pairs, eq)


def assess(samples, dist):
    """-> (p_screen, p_bonferroni, p_chi2_strict, description, impossible)"""
    n = len(samples)
    counts = Counter(samples)
    for t, c in counts.items():
        if dist.get(t, 0.0) < IMPOSSIBLE:
            return 0.0, 0.0, 0.0, "outcome %s has exact probability %.3g but was sampled %d times of %d" % (
                t, dist.get(t, 0.0), c, n), True
    worst = (1.0, "")
    tests = 0
    for t, p in dist.items():
        q = binom_two_sided(counts.get(t, 0), n, p)
        tests += 1
        if q < worst[0]:
            worst = (q, "outcome %s: exact probability %.6g, frequency %d/%d" % (t, p, counts.get(t, 0), n))
    fc = _feature_counts(counts, dist)
    feats = _features(dist)
    for f, p in feats.items():
        q = binom_two_sided(fc.get(f, 0), n, p)
        tests += 1
        if q < worst[0]:
            name = "particle number %d" % f[1] if f[0] == "sum" else "all outcomes less likely than %g" % f[1] if f[0] == "rare" else "mode %d holding %d" % (f[1], f[2])
            worst = (q, "%s: exact probability %.6g, frequency %d/%d" % (name, p, fc.get(f, 0), n))
    # independence: disjoint adjacent pairs agree with probability sum p^2
    eq = sum(p * p for p in dist.values())
    pairs = n // 2
    same = sum(1 for i in range(pairs) if samples[2 * i] == samples[2 * i + 1])
    q = binom_two_sided(same, pairs, min(eq, 1.0)) if eq < 1 - 1e-12 else 1.0
    tests += 1
    if q < worst[0]:
        worst = (q, "adjacent samples equal %d/%d times, expected fraction %.6g" % (same, pairs, eq))
    sums_ = Counter()
    for t, p in dist.items():
        sums_[sum(t)] += p
    eqs = sum(p * p for p in sums_.values())
    if eqs < 1 - 1e-12:
        same_s = sum(1 for i in range(pairs) if sum(samples[2 * i]) == sum(samples[2 * i + 1]))
        q = binom_two_sided(same_s, pairs, min(eqs, 1.0))
        tests += 1
        if q < worst[0]:
            worst = (q, "adjacent samples have equal particle numbers %d/%d times, expected fraction %.6g" % (same_s, pairs, eqs))
    # halves against each other: sample i and sample i + n/2
    same2 = sum(1 for i in range(pairs) if samples[i] == samples[i + pairs])
    q = binom_two_sided(same2, pairs, min(eq, 1.0)) if eq < 1 - 1e-12 else 1.0
    tests += 1
    if q < worst[0]:
        worst = (q, "first and second half of the samples agree position-wise %d/%d times, expected fraction %.6g" % (
            same2, pairs, eq))
    q, text = lag_test(samples, dist, eq)
    tests += 1
    if q < worst[0]:
        worst = (q, text)
    bonf = min(1.0, worst[0] * tests)
    c5 = chi2_p(counts, dist, n, 5.0)
    c20 = chi2_p(counts, dist, n, 25.0)
    low = chi2_p(counts, dist, n, 25.0, lower=True)
    sums = Counter()
    sd = {}
    for t, c in counts.items():
        sums[sum(t)] += c
    for t, p in dist.items():
        sd[sum(t)] = sd.get(sum(t), 0.0) + p
    cs = chi2_p(sums, sd, n, 5.0)
    screen = min(bonf, c5, cs, low)
    desc = worst[1]
    if low < FINAL_CHI2 and not bonf < FINAL:
        return screen, bonf, low, "frequencies closer to the exact probabilities than those of independent samples (lower tail of chi-square %.3g over %d outcomes, n=%d)" % (low, len(dist), n), False
    if c20 < FINAL_CHI2 and not bonf < FINAL:
        desc = "chi-square p=%.3g over %d outcomes, n=%d; worst single deviation: %s" % (c20, len(dist), n, worst[1])
    return screen, bonf, c20, desc, False


def clean(dist):
    tot = sum(dist.values())
    if abs(tot - 1) > 1e-8:
        raise AssertionError("reference distribution sums to %r" % tot)
    return dist


def gof(draw, dist, n1, grow=(4, 24), screen=(0.05, 4e-3)):
    """draw(k) -> list of k outcome tuples.  Returns None or a description."""
    clean(dist)
    n = n1
    for stage in range(3):
        samples = draw(n)
        s, bonf, c20, desc, impossible = assess(samples, dist)
        if impossible:
            return desc
        if stage == 2:
            if bonf < FINAL or c20 < FINAL_CHI2:
                return "%s (corrected p=%.3g)" % (desc, min(bonf, c20))
            return None
        # overwhelming evidence already
        if bonf < 1e-14:
            return "%s (corrected p=%.3g)" % (desc, bonf)
        if s >= screen[stage]:
            return None
        n = n1 * grow[stage]
    return None


def ks_uniform_p(u):
    return float(_st.kstest(np.asarray(u), "uniform").pvalue)
