"""C19: earlier use of a strategy object does not influence later samples."""
import copy
import os
import pickle
import sys

from hypothesis import strategies as st

from vp import env, gen, stats, sut, zoo
from vp.core import Prop, Sub, Violation


@st.composite
def history(draw, c, longest, matrices, most=3):
    """Operations on one strategy, then the input whose samples are looked at."""
    ops = []
    m_now = c["m"]

    def an_input():
        s = zoo.inputs(dict(c, m=m_now), most)
        if c["kind"] not in ("fixed", "uniform"):
            s = gen.next_state([o["s"] for o in ops if "s" in o], s)
        return draw(s)

    for _ in range(draw(gen.upto(1, longest))):
        kind = draw(st.sampled_from(["simulate", "simulate", "matrix", "matrix", "accuracy", "interrupted", "invalid", "copy"]))
        if kind == "matrix" and c["kind"] in zoo.SETTABLE:
            if draw(st.integers(0, 3)) == 0:
                m_now = draw(gen.upto(1, 4))
            past = [c["a"]] + [o["a"] for o in ops if o["op"] == "matrix"]
            ops.append({"op": "matrix", "a": draw(gen.next_spec(past, matrices(m_now)))})
        elif kind == "accuracy" and c["kind"] == "ugcc" and m_now <= 5 and 0.3 <= c["eta"]:
            ops.append({"op": "accuracy", "s": draw(gen.states(m_now, 2, 1)), "accuracy": draw(st.sampled_from([0.5, 0.9]))})
        elif kind == "interrupted":
            ops.append({"op": kind, "s": an_input(), "count": draw(gen.upto(1, 3)), "after": draw(st.one_of(gen.upto(1, 12), gen.upto(1, 120)))})
        elif kind == "invalid":
            ops.append({"op": kind, "bad": draw(st.sampled_from(["longer", "text"])), "count": draw(gen.upto(1, 3))})
        elif kind == "copy":
            ops.append({"op": kind, "how": draw(st.sampled_from(["deepcopy", "pickle"])), "use": draw(st.booleans()), "seed": draw(st.integers(0, 9))})
        else:
            ops.append({"op": "simulate", "s": an_input(), "count": draw(gen.upto(1, 12))})
    c["ops"] = ops
    c["s"] = an_input()
    c["sf"] = draw(gen.SFMT)
    c["reuse"] = draw(st.booleans())
    if c["reuse"]:
        c["sf"] = draw(st.sampled_from(["list", "nd"]))
    return c


@st.composite
def case(draw, kinds=zoo.ALL):
    c = draw(zoo.configs(draw(gen.upto(2, 4)), kinds, threads=(1, 2)))
    return draw(history(c, 4, lambda m: zoo.matrix_for(c["kind"], m)))


SHARP = ["id", "perm", "perm", "perm", "phase", "bs", "block"]


@st.composite
def sharp_case(draw, kinds=zoo.ALL):
    """Experiments with few possible outcomes: whatever an earlier call left behind soon
    shows as an impossible one."""
    c = draw(zoo.configs(draw(st.sampled_from([2, 3, 4, 5] * 6 + [6, 8, 11, 13])), kinds, threads=(1,)))
    c["a"] = draw(gen.unitary_specs(c["m"], SHARP))
    if "eta" in c:
        c["eta"] = draw(st.sampled_from([1.0, 1.0, 1.0, 0.5, 0.0]))
    if "level" in c:
        c["level"] = draw(st.sampled_from([c["m"], c["m"], c["level"] if c["m"] <= 5 else c["m"]]))
    if "approx" in c:
        c["approx"] = draw(st.sampled_from([0, 0, min(c["approx"], 5)]))
    # (that sampler goes through all outcomes of the experiment)
    return draw(history(c, 6, lambda m: gen.unitary_specs(m, SHARP), 2 if c["kind"] == "ugcc" and c["m"] > 5 else 4))


@st.composite
def long_case(draw, kinds=zoo.ALL):
    c = draw(zoo.configs(draw(gen.upto(2, 4)), kinds, threads=(1,)))
    c["a"] = draw(gen.unitary_specs(c["m"], ["id", "perm", "perm", "phase"]))
    if "eta" in c:
        c["eta"] = draw(st.sampled_from([1.0, 1.0, 0.5]))
    if "level" in c:
        c["level"] = c["m"]
    if "approx" in c:
        c["approx"] = draw(st.sampled_from([0, 0, c["approx"]]))
    c["seed"] = draw(gen.SEED)
    c["steps"] = draw(st.sampled_from([25, 50, 100] if c["kind"] not in zoo.SLOW else [25, 50]))
    c["sf"] = draw(gen.SFMT)
    return c


def run_long(c):
    """A long life of one sampler of experiments with few possible outcomes: many inputs and
    matrices, some of them again and again, a few samples each."""
    g = gen._rng(c["seed"], 63)
    m = c["m"]
    strat, a = zoo.build(c), gen.lossy_matrix(c["a"])
    mats = [gen.unitary({"k": "perm", "m": m, "seed": int(g.integers(0, 1000))}) for _ in range(8)]
    for k in range(c["steps"]):
        if c["kind"] in zoo.SETTABLE and g.random() < 0.3:
            a = mats[int(g.integers(0, len(mats)))]
            strat.set_new_matrix(gen.fmt_matrix(a, c["mf"]))
        if c["kind"] in ("fixed", "uniform"):
            n = int(g.integers(max(1, c.get("left", 1)), m + 1))
            s = [1] * n + [0] * (m - n)
        else:
            s = gen.random_state(g, m, int(g.integers(0, 4)))
        count = int(g.integers(0, 5))
        d = zoo.law(c, s, a)
        for t in sut.as_samples(strat.simulate(gen.fmt_state(s, c["sf"]), count), m, count):
            if d.get(t, 0.0) < stats.IMPOSSIBLE:
                raise Violation("strategy %s after %d earlier operations, input %s: impossible outcome %s" % (c["kind"], k, s, t))


class Interrupted(BaseException):
    pass


def interrupted(fn, after):
    """Call fn, interrupting it (as Ctrl-C would) at the given call of a function of the
    package; returns quietly if it is over before that."""
    left = [after]
    home = os.path.join(env.REPO, "theboss") + os.sep

    def hook(frame, event, arg):
        if event == "call" and frame.f_code.co_filename.startswith(home):
            left[0] -= 1
            if left[0] == 0:
                raise Interrupted

    sys.setprofile(hook)
    try:
        fn()
    except Interrupted:
        pass
    finally:
        sys.setprofile(None)


def run(c, samples=None):
    strat = zoo.build(c)
    a = gen.lossy_matrix(c["a"])
    put = gen.Reuse(c.get("reuse", False))
    for k, op in enumerate(c["ops"]):
        if op["op"] == "matrix":
            a = gen.lossy_matrix(op["a"])
            strat.set_new_matrix(put("a", gen.fmt_matrix(a, c["mf"])))
        elif op["op"] == "accuracy":
            gen.spoil(strat.compute_distribution_up_to_accuracy(put("s", gen.fmt_state(op["s"], c["sf"])), op["accuracy"]))
        elif op["op"] == "interrupted":
            interrupted(lambda: strat.simulate(gen.fmt_state(op["s"], c["sf"]), op["count"]), op["after"])
        elif op["op"] == "invalid":
            m = len(a)
            few = [int(i < 3 or m <= 5) for i in range(m)]  # (some samplers would go through all outcomes)
            bad = few + [1] if op["bad"] == "longer" else few[:-1] + ["x"]
            try:
                strat.simulate(bad, op["count"])
            except Exception:
                pass
        elif op["op"] == "copy":
            old = strat
            strat = copy.deepcopy(old) if op["how"] == "deepcopy" else pickle.loads(pickle.dumps(old))
            if op["use"]:
                # what becomes of the original is no concern of the copy
                if c["kind"] in zoo.SETTABLE:
                    old.set_new_matrix(gen.haar(len(a), op["seed"], 15))
                s = [1] * max(1, min(len(a), c.get("left", 1))) + [0] * len(a)
                old.simulate(s[:len(a)], 2)
        else:
            got = strat.simulate(put("s", gen.fmt_state(op["s"], c["sf"])), op["count"])
            seen = sut.as_samples(got, len(op["s"]), op["count"])
            if samples:
                d = zoo.law(c, op["s"], a)
                for t in seen:
                    if d.get(t, 0.0) < stats.IMPOSSIBLE:
                        raise Violation("strategy %s after %d earlier operations, input %s: impossible outcome %s" % (c["kind"], k, op["s"], t))
            gen.spoil(got)
    d = zoo.law(c, c["s"], a)
    bad = stats.gof(sut.draw_with(strat, put("s", gen.fmt_state(c["s"], c["sf"])), len(c["s"])), d, samples or zoo.N1[c["kind"]])
    if bad:
        raise Violation("strategy %s after %d earlier operations, input %s: %s" % (c["kind"], len(c["ops"]), c["s"], bad))


def run_sharp(c):
    run(c, 60)


def nt(c):
    return sum(c["s"]) >= 1 and len(c["s"]) >= 2 and any("s" not in o or sum(o["s"]) >= 1 for o in c["ops"])


CORPUS = [
    # the matrix changes by a few percent
    dict({"kind": k, "m": 2, "calc": "ryser", "mf": "nd", "eta": 1.0, "a": {"k": "bs45", "m": 2}, "s": [1, 0], "sf": "tuple", "reuse": False},
         ops=[{"op": "simulate", "s": [1, 0], "count": 3}, {"op": "matrix", "a": {"k": "bs45", "m": 2, "turn": x}}])
    for k in zoo.SETTABLE for x in (0.03, 0.06)
] + [
    # the moduli are kept
    dict({"kind": k, "m": len(s), "calc": "ryser", "mf": "nd", "eta": 1.0, "a": a, "s": s, "sf": "tuple", "reuse": False},
         ops=[{"op": "matrix", "a": a}, {"op": "simulate", "s": s, "count": 3}, {"op": "matrix", "a": dict(a, vary=[["rephase", x]])}])
    for k in zoo.SETTABLE for x in (1, 2)
    for a, s in [({"k": "flat", "m": 4, "seed": 1}, [1, 1, 0, 0])] + ([({"k": "haar", "m": 2, "seed": 3, "loss": "uniform", "t": [0.3]}, [1, 1])] if k == "lossynet" else [])
]


def used(kinds, quick=(8, 20), thorough=(8, 150)):
    """Histories of some kinds of strategies only, for the properties of those."""
    return [Sub("used", lambda: case(kinds), run, nt, [c for c in CORPUS if c["kind"] in kinds], quick=quick, thorough=thorough),
            Sub("used_sharp", lambda: sharp_case(kinds), run_sharp, nt, quick=(quick[0], 3 * quick[1]), thorough=(thorough[0], 4 * thorough[1]))]


PROP = Prop(
    "C19",
    "a final input with at least one particle in two or more modes, preceded by at least one operation that is a matrix change, a distribution computation, a copy, an invalid call or (possibly interrupted) sampling of a non-empty state; long: always",
    [Sub("histories", case, run, nt, CORPUS, quick=(8, 150), thorough=(8, 1000)),
     Sub("sharp", sharp_case, run_sharp, nt, quick=(8, 400), thorough=(8, 4000)),
     Sub("long", long_case, run_long, quick=(8, 25), thorough=(8, 300))],
)
