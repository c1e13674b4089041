"""C01: every permanent calculator returns the permanent of the effective scattering matrix."""
import copy
import pickle

import numpy as np
from hypothesis import strategies as st

from vp import gen, ref, sut
from vp.core import Prop, Sub, Violation

LIMIT = {"classic": 6, "glynn": 10, "chinhuh": 16, "ryser": 16}


def tolerance(a, s, t):
    return max(1e-10 * ref.permanent_scale(a, s, t), 1e-290)


def compare(got, a, s, t, what):
    want = ref.permanent(a, s, t)
    got = sut.as_complex(got, what)
    if abs(got - want) > tolerance(a, s, t):
        raise Violation("%s: permanent for input %s, output %s is %r, expected %r; matrix\n%s" % (
            what, tuple(s), tuple(t), got, complex(want), gen.shown(a)))


@st.composite
def one_case(draw, m_max=8, n_max=12):
    m = draw(gen.upto(1, m_max))
    n = draw(gen.upto(0, n_max if m <= 3 else min(n_max, 6 if m <= 6 else 4)))
    if m_max >= 8 and draw(st.integers(0, 5)) == 0:     # the corners: many particles, many modes
        m, n = draw(st.sampled_from([(1, 16), (2, 14), (2, 16), (3, 13), (4, 9), (6, 7), (10, 3), (12, 3), (16, 2), (24, 2)]))
    spec = draw(gen.general_specs(m))
    return {
        "matrix": spec,
        "s": draw(gen.states_of(m, n)),
        "t": draw(gen.states_of(m, n)),
        "mf": draw(gen.formats_of(spec)),
        "sf": draw(gen.SFMT),
        "via": draw(st.sampled_from(["class", "factory"])),
    }


def run_value(c):
    a = gen.general_matrix(c["matrix"])
    s, t = c["s"], c["t"]
    for name in sut.CALC_NAMES:
        if sum(s) > LIMIT[name]:
            continue
        pc = sut.calc(name, gen.fmt_matrix(a, c["mf"]), gen.fmt_state(s, c["sf"]), gen.fmt_state(t, c["sf"]), c["via"])
        compare(pc.compute_permanent(), a, s, t, name)
        compare(pc.compute_permanent(), a, s, t, name + " (second call)")


HISTORY_M = st.sampled_from([1, 2, 3, 4] * 5 + [5, 6, 7, 9, 11])


@st.composite
def history_case(draw):
    ops = []
    k = draw(st.integers(2, 7))
    m, n = draw(HISTORY_M), draw(gen.upto(0, 5))
    for _ in range(k):
        if draw(st.integers(0, 3)) == 0:
            m = draw(HISTORY_M)
        if draw(st.integers(0, 1)):
            n = draw(gen.upto(0, 5))
        n = n if m <= 4 else min(n, 3)
        past = [x for o in ops for x in (o["s"], o["t"])]
        ops.append({
            "matrix": draw(gen.next_spec([o["matrix"] for o in ops], gen.general_specs(m))),
            "s": draw(gen.next_state(past, gen.states_of(m, n))),
            "t": draw(gen.next_state(past, gen.states_of(m, n))),
            "order": draw(st.permutations([0, 1, 2])),
            "keep": draw(st.sampled_from(["none", "none", "matrix", "s", "t", "states"])),
            "repeat": draw(st.integers(1, 2)),
            "clone": draw(st.sampled_from(["no", "no", "no", "deepcopy", "pickle"])),
        })
    return {"ops": ops, "blank": draw(st.booleans()), "mf": draw(gen.MFMT), "sf": draw(gen.SFMT), "reuse": draw(st.booleans())}


def run_history(c):
    for name in sut.CALC_NAMES:
        cur = {"a": None, "s": None, "t": None}
        pc = None
        put = gen.Reuse(c.get("reuse", False))
        for k, op in enumerate(c["ops"]):
            a = gen.general_matrix(op["matrix"])
            new = {"a": a, "s": op["s"], "t": op["t"]}
            if pc is None:
                if c["blank"]:
                    pc = sut.calc(name, gen.fmt_matrix(a, c["mf"]))
                    pc.input_state = gen.fmt_state(op["s"], c["sf"])
                    pc.output_state = gen.fmt_state(op["t"], c["sf"])
                else:
                    pc = sut.calc(name, put("a", gen.fmt_matrix(a, c["mf"])), put("s", gen.fmt_state(op["s"], c["sf"])), put("t", gen.fmt_state(op["t"], c["sf"])))
                cur = new
            else:
                same_m = len(cur["s"]) == len(op["s"])
                keep = op["keep"] if same_m else "none"
                if keep == "matrix":
                    new["a"] = cur["a"]
                if keep == "states":
                    new["s"], new["t"] = cur["s"], cur["t"]
                if keep == "s" and sum(cur["s"]) == sum(op["t"]):
                    new["s"] = cur["s"]
                if keep == "t" and sum(cur["t"]) == sum(op["s"]):
                    new["t"] = cur["t"]
                for which in op["order"]:
                    if which == 0 and new["a"] is not cur["a"]:
                        pc.matrix = put("a", gen.fmt_matrix(new["a"], c["mf"]))
                    if which == 1 and new["s"] is not cur["s"]:
                        pc.input_state = put("s", gen.fmt_state(new["s"], c["sf"]))
                    if which == 2 and new["t"] is not cur["t"]:
                        pc.output_state = put("t", gen.fmt_state(new["t"], c["sf"]))
                cur = new
            if op.get("clone") == "deepcopy":
                pc = copy.deepcopy(pc)
            elif op.get("clone") == "pickle":
                pc = pickle.loads(pickle.dumps(pc))
            for _ in range(op["repeat"]):
                compare(pc.compute_permanent(), cur["a"], cur["s"], cur["t"], "%s after %d reconfigurations" % (name, k))
            # what was set is what is read back
            if [int(x) for x in pc.input_state] != [int(x) for x in cur["s"]] or [int(x) for x in pc.output_state] != [int(x) for x in cur["t"]]:
                raise Violation("%s: states read back differ from the ones set" % name)
            if not np.array_equal(np.asarray(pc.matrix, dtype=complex), np.asarray(cur["a"], dtype=complex)):
                raise Violation("%s: matrix read back differs from the one set" % name)


@st.composite
def long_case(draw):
    return {"k": draw(st.sampled_from([20, 40, 80])), "seed": draw(gen.SEED), "name": draw(st.sampled_from(sut.CALC_NAMES)), "mf": draw(gen.MFMT), "sf": draw(gen.SFMT), "m": draw(gen.upto(1, 4)), "resize": draw(st.booleans())}


def run_long(c):
    """A long life of one calculator: many matrices and states, some of them again and again."""
    g = gen._rng(c["seed"], 61)
    m, pc = c["m"], None
    for k in range(c["k"]):
        if pc is None or (c["resize"] and g.random() < 0.1):
            m = m if pc is None else int(g.integers(1, 5))
            mats = [gen.random_general(g, m) for _ in range(12)]
            n = -1
        new = n < 0
        if new or g.random() < 0.4:
            n = int(g.integers(0, 5))
            s, t = gen.random_state(g, m, n), gen.random_state(g, m, n)
            todo = ["s", "t"]
        else:
            todo = [["s"], ["t"], []][int(g.integers(0, 3))]
            s = gen.random_state(g, m, n) if "s" in todo else s
            t = gen.random_state(g, m, n) if "t" in todo else t
        if new or g.random() < 0.5:
            a = gen.general_matrix(mats[int(g.integers(0, len(mats)))])
            todo = ["a"] + todo
        todo = [todo[i] for i in g.permutation(len(todo))]
        if pc is None:
            pc = sut.calc(c["name"], gen.fmt_matrix(a, c["mf"]), gen.fmt_state(s, c["sf"]), gen.fmt_state(t, c["sf"]))
        for x in todo:
            if x == "a":
                pc.matrix = gen.fmt_matrix(a, c["mf"])
            elif x == "s":
                pc.input_state = gen.fmt_state(s, c["sf"])
            else:
                pc.output_state = gen.fmt_state(t, c["sf"])
        compare(pc.compute_permanent(), a, s, t, "%s after %d reconfigurations" % (c["name"], k))


@st.composite
def factory_case(draw):
    c = draw(history_case())
    c["ops"] = c["ops"][:4]
    return c


def run_factory(c):
    """One calculator factory, reconfigured between the calculators it makes; the ones
    made earlier keep what they were made with."""
    for name in sut.CALC_NAMES + [None]:
        f, made, cur, obj = None, [], None, None
        for op in c["ops"]:
            new = {"a": gen.general_matrix(op["matrix"]), "s": op["s"], "t": op["t"]}
            keep = op["keep"] if cur is not None and len(cur["s"]) == len(op["s"]) else "none"
            # what is kept stays in the factory as the same object
            if keep == "matrix":
                new["a"] = cur["a"]
            if keep == "states":
                new["s"], new["t"] = cur["s"], cur["t"]
            if keep == "s" and sum(cur["s"]) == sum(op["t"]):
                new["a"], new["s"] = cur["a"], cur["s"]
            if keep == "t" and sum(cur["t"]) == sum(op["s"]):
                new["a"], new["t"] = cur["a"], cur["t"]
            fresh = {"a": gen.fmt_matrix(new["a"], c["mf"]), "s": gen.fmt_state(new["s"], c["sf"]), "t": gen.fmt_state(new["t"], c["sf"])}
            if f is None:
                f = sut.calc_factory(name, *((fresh["a"], fresh["s"], fresh["t"]) if not c["blank"] else (None, None, None)))
            for which in op["order"]:
                x = "ast"[which]
                if cur is None or new[x] is not cur[x]:
                    setattr(f, ("matrix", "input_state", "output_state")[which], fresh[x])
            cur = new
            made.append((f.generate_calculator(), cur["a"], cur["s"], cur["t"]))
            for k, (pc, b, s, t) in enumerate(made):
                compare(pc.compute_permanent(), b, s, t, "%s calculator %d of %d made by one factory" % (name or "default", k + 1, len(made)))
            if [int(x) for x in f.input_state] != [int(x) for x in cur["s"]] or [int(x) for x in f.output_state] != [int(x) for x in cur["t"]] \
                    or not np.array_equal(np.asarray(f.matrix, dtype=complex), np.asarray(cur["a"], dtype=complex)):
                raise Violation("%s: the factory's matrix and states read back differ from the ones set" % name)


def esm_run(c):
    calc = None
    for op in c["ops"]:
        a = gen.general_matrix(op["matrix"])
        s, t = op["s"], op["t"]
        args = (gen.fmt_matrix(a, c["mf"]), gen.fmt_state(s, c["sf"]), gen.fmt_state(t, c["sf"]))
        if calc is None and not c["blank"]:
            calc = sut.utils().EffectiveScatteringMatrixCalculator(*args)
        else:
            if calc is None:
                calc = sut.utils().EffectiveScatteringMatrixCalculator(args[0])
            for which in op["order"]:
                setattr(calc, ("matrix", "input_state", "output_state")[which], args[which])
        if [int(x) for x in calc.input_state] != s or [int(x) for x in calc.output_state] != t or not np.array_equal(np.asarray(calc.matrix, dtype=complex), a):
            raise Violation("the matrix and states of the effective matrix calculator read back differ from the ones set")
        got = calc.calculate()
        if sum(s) == 0 or sum(t) == 0:
            if len(got) != 0:
                raise Violation("effective scattering matrix of an empty state is %r" % (got,))
            continue
        rows = [j for j, k in enumerate(t) for _ in range(k)]
        cols = [i for i, k in enumerate(s) for _ in range(k)]
        want = a[np.ix_(rows, cols)]
        got = sut.as_array(got, want.shape, "effective scattering matrix")
        if not np.allclose(got, want, rtol=1e-12, atol=0):
            raise Violation("effective scattering matrix for input %s, output %s is\n%s, expected\n%s" % (s, t, gen.shown(got), gen.shown(want)))


@st.composite
def esm_case(draw):
    ops = []
    for _ in range(draw(st.integers(1, 3))):
        c = draw(one_case(6, 6))
        m = c["matrix"]["m"]
        # particle numbers need not match here
        ops.append({"matrix": c["matrix"], "s": c["s"], "t": draw(gen.states(m, 6)), "order": draw(st.permutations([0, 1, 2]))})
    return {"ops": ops, "mf": draw(gen.MFMT), "sf": draw(gen.SFMT), "blank": draw(st.booleans())}


def nt(c):
    return sum(c["s"]) >= 2 and c["matrix"]["k"] not in ("zero", "ones")


PROP = Prop(
    "C01",
    "value: at least two particles and a matrix that is neither all zeros nor all ones; effective: one operation with at least two particles on either side; history/factory: at least two operations, one of them with two or more particles; long: at least two modes at first",
    [
        Sub("value", one_case, run_value, nt, corpus=[
            {"matrix": {"k": "gauss", "m": 1, "seed": 1}, "s": [4], "t": [4], "mf": "nd", "sf": "tuple", "via": "class"},
            {"matrix": {"k": "gauss", "m": 3, "seed": 1}, "s": [0, 0, 0], "t": [0, 0, 0], "mf": "nd", "sf": "tuple", "via": "factory"},
            {"matrix": {"k": "gauss", "m": 4, "seed": 2}, "s": [1, 1, 0, 1], "t": [0, 3, 0, 0], "mf": "list", "sf": "nd", "via": "factory"},
            {"matrix": {"k": "gauss", "m": 2, "seed": 3}, "s": [8, 1], "t": [2, 7], "mf": "nd", "sf": "list", "via": "class"},
            {"matrix": {"k": "gauss", "m": 8, "seed": 4}, "s": [1, 0, 1, 0, 1, 0, 1, 1], "t": [0, 2, 0, 1, 0, 1, 0, 1], "mf": "nd", "sf": "list", "via": "class"},
        ], quick=(8, 900), thorough=(8, 3000)),
        Sub("history", history_case, run_history, lambda c: len(c["ops"]) >= 2 and any(sum(o["s"]) >= 2 for o in c["ops"]), quick=(8, 500), thorough=(8, 3000)),
        Sub("long", long_case, run_long, lambda c: c["m"] >= 2, quick=(8, 40), thorough=(8, 400)),
        Sub("factory", factory_case, run_factory, lambda c: len(c["ops"]) >= 2 and any(sum(o["s"]) >= 2 for o in c["ops"]), quick=(4, 200), thorough=(4, 1500)),
        Sub("effective", esm_case, esm_run, lambda c: any(sum(o["s"]) >= 2 and sum(o["t"]) >= 2 for o in c["ops"]), quick=(4, 300), thorough=(4, 2000)),
    ],
)
