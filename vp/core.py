"""Runner: sub-checks, generation with Hypothesis, shrinking, replay, evidence."""
import hashlib
import importlib
import json
import os
import random as _pyrandom
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

from vp import env

QUICK_SOFT_S = 300      # a worker stops generating after this long (quick)
THOROUGH_SOFT_S = 3600
QUICK_TOTAL_S = 480     # no new case is started later than this after the check began
THOROUGH_TOTAL_S = 7200
SHRINK_S = 40           # time allowed for shrinking one failure
CASE_CPU_S = 120        # CPU seconds after which one case counts as non-terminating
CASE_WALL_S = 240
SLOW_LOG = os.environ.get("VP_SLOW_LOG")       # where to list cases that take long


class Violation(Exception):
    """The code under test broke the property on this case."""


class HarnessError(Exception):
    """The check itself is at fault."""


class CaseTimeout(BaseException):
    pass


class Sub:
    def __init__(self, name, gen, run, nontrivial=None, corpus=(), quick=(2, 60), thorough=(8, 600), what=""):
        self.name = name
        self.gen = gen              # () -> hypothesis strategy of JSON cases
        self.run = run              # case -> None, raises Violation
        self.nontrivial = nontrivial or (lambda c: True)
        self.corpus = list(corpus)
        self.quick = quick          # (shards, examples per shard)
        self.thorough = thorough
        self.what = what


class Prop:
    def __init__(self, pid, rule, subs, standin=True, findings=None):
        self.id = pid
        self.rule = rule
        self.subs = {s.name: s for s in subs}
        self.standin = standin
        self.findings = findings    # () -> list of (key, text) of defects present


def load(pid):
    mod = importlib.import_module("vp.props.%s" % pid.lower())
    return mod.PROP


def canon(case):
    return json.dumps(case, sort_keys=True, separators=(",", ":"))


def case_seed(case, seed, salt=""):
    h = hashlib.sha256(("%s|%s|%s" % (seed, salt, canon(case))).encode()).digest()
    return int.from_bytes(h[:4], "big")


def seed_all(value):
    import numpy as np

    _pyrandom.seed(value)
    np.random.seed(value % (2 ** 32))


def describe_exc(e):
    tb = traceback.extract_tb(e.__traceback__)
    last = tb[-1] if tb else None
    where = "%s:%s" % (os.path.relpath(last.filename, env.REPO) if last and last.filename.startswith(env.REPO) else (last.filename if last else "?"), last.lineno if last else "?")
    return "%s: %s (at %s)" % (type(e).__name__, str(e)[:300], where)


def execute(sub, case, seed):
    """Run one case.  Returns None or the violation text."""
    seed_all(case_seed(case, seed, sub.name))

    def on_alarm(signum, frame):
        raise CaseTimeout()

    old = signal.signal(signal.SIGPROF, on_alarm)
    old_real = signal.signal(signal.SIGALRM, on_alarm)
    signal.setitimer(signal.ITIMER_PROF, CASE_CPU_S)
    signal.setitimer(signal.ITIMER_REAL, CASE_WALL_S)
    try:
        sub.run(case)
        return None
    except Violation as v:
        return str(v)
    except CaseTimeout:
        return "no result after %d s of CPU time (or %d s in total)" % (CASE_CPU_S, CASE_WALL_S)
    except HarnessError:
        raise
    except (MemoryError, KeyboardInterrupt):
        raise
    except Exception as e:  # the code under test failed on a valid input
        return "unexpected exception: " + describe_exc(e)
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGPROF, old)
        signal.signal(signal.SIGALRM, old_real)


# ------------------------------------------------------------------ worker
def worker(pid, name, shard, tier, seed, out):
    result = {"sub": name, "shard": shard, "evaluations": 0, "nontrivial": [], "samples": [], "violation": None, "error": None}
    t0 = time.time()
    try:
        prop = load(pid)
        try:
            env.install(prop.standin)
        except RuntimeError:
            raise
        except Exception as e:
            result["violation"] = {"case": None, "text": "the package cannot be imported: " + describe_exc(e)}
            return
        _worker(prop, prop.subs[name], shard, tier, seed, result, t0, os.path.join(os.path.dirname(out), "stop"))
    except BaseException as e:  # noqa
        result["error"] = "".join(traceback.format_exception(type(e), e, e.__traceback__))[-4000:]
    finally:
        result["wall_s"] = time.time() - t0
        with open(out, "w") as f:
            json.dump(result, f)


def fewer_mutations(share=0.15):
    """Hypothesis follows every fresh example by up to five near-copies of it (parts of
    it repeated at other places).  The generators here ask for repetitions explicitly,
    so most of those copies are dropped in favour of fresh examples."""
    from hypothesis.internal.conjecture import engine

    full = getattr(engine.ConjectureRunner, "generate_mutations_from", None)
    if full is None or getattr(full, "_vp", False):
        return

    def some(self, data):
        if self.random.random() < share:
            return full(self, data)

    some._vp = True
    engine.ConjectureRunner.generate_mutations_from = some


def _worker(prop, sub, shard, tier, seed, result, t0, stop):
    from hypothesis import HealthCheck, Phase, given, seed as hseed, settings

    soft = QUICK_SOFT_S if tier == "quick" else THOROUGH_SOFT_S
    shards, examples = sub.quick if tier == "quick" else sub.thorough
    deadline = float(os.environ.get("VP_DEADLINE", "inf"))
    nontrivial = set()
    best = {"case": None, "text": None, "size": None, "since": None, "before": 0}
    ran = []                    # everything executed in this process, in order

    def note(case):
        result["evaluations"] += 1
        if sub.nontrivial(case):
            h = hashlib.sha256(canon(case).encode()).hexdigest()[:16]
            if h not in nontrivial:
                nontrivial.add(h)
                if len(result["samples"]) < 3:
                    result["samples"].append(case)

    def one(case):
        case = json.loads(json.dumps(case))
        now = time.time()
        if best["since"] is None:
            if now - t0 > soft or now > deadline or os.path.exists(stop):
                return
        elif now - best["since"] > SHRINK_S:
            return
        note(case)
        ran.append(case)
        text = execute(sub, case, seed)
        if SLOW_LOG and time.time() - now > 5:
            with open(SLOW_LOG, "a") as f:
                f.write("%s %s %.1f s %s\n" % (prop.id, sub.name, time.time() - now, canon(case)))
        if text is not None:
            size = len(canon(case))
            if best["size"] is None or size <= best["size"]:
                best.update(case=case, text=text, size=size, before=len(ran) - 1)
            if best["since"] is None:
                best["since"] = time.time()
                open(stop, "w").close()
            raise Violation(text)

    try:
        for case in sub.corpus[shard::shards] if shards > 1 else sub.corpus:
            one(case)
        if examples:
            fewer_mutations()
            test = given(sub.gen())(one)
            test = settings(
                max_examples=examples,
                database=None,
                deadline=None,
                derandomize=False,
                report_multiple_bugs=False,
                print_blob=False,
                suppress_health_check=list(HealthCheck),
                phases=[Phase.generate, Phase.shrink],
            )(test)
            test = hseed(case_seed({"p": prop.id, "s": sub.name, "shard": shard}, seed))(test)
            test()
    except HarnessError:
        raise
    except Exception:
        if best["case"] is None:
            raise
    result["nontrivial"] = sorted(nontrivial)
    if best["case"] is not None:
        result["violation"] = {"case": best["case"], "text": best["text"], "before": ran[:best["before"]]}


# ------------------------------------------------------------------ parent
def known_findings():
    p = os.path.join(env.VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)["known"]


def run_parallel(jobs, width):
    """jobs: list of argv; run at most width at once."""
    running, pending = [], list(jobs)
    while running or pending:
        while pending and len(running) < width:
            argv = pending.pop(0)
            running.append(subprocess.Popen(argv, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL))
        for p in running[:]:
            if p.poll() is not None:
                running.remove(p)
        time.sleep(0.02)


def reproduces(body, timeout):
    fd, path = tempfile.mkstemp(prefix="vp_replay_", suffix=".json")
    try:
        with os.fdopen(fd, "w") as f:
            json.dump(body, f)
        r = subprocess.run([sys.executable, os.path.join(env.VERIF, "check.py"), "--replay", path],
                           stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=max(1, timeout))
        return r.returncode == 1
    except subprocess.TimeoutExpired:
        return False
    finally:
        os.unlink(path)


def settle(body, before, budget=100):
    """Make the replay self-sufficient: a case that fails only after other cases in the
    same process (state kept by the code under test) is stored with the shortest run of
    preceding cases that makes it fail in a fresh process."""
    end = time.time() + budget
    if body["case"] is None or reproduces(body, end - time.time()):
        return body
    body["note"] = "not reproduced in a fresh process"
    k = 1
    while time.time() < end:
        trial = dict(body, before=before[-k:] if before else [])
        trial.pop("note", None)
        if reproduces(trial, end - time.time()):
            return trial
        if k >= len(before):
            break
        k *= 4
    return body


def check(pid, tier, seed):
    t0 = time.time()
    prop = load(pid)
    os.environ["VP_DEADLINE"] = str(t0 + (QUICK_TOTAL_S if tier == "quick" else THOROUGH_TOTAL_S))
    scratch = tempfile.mkdtemp(prefix="vp_%s_" % pid)
    try:
        jobs, outs = [], []
        for sub in prop.subs.values():
            shards, examples = sub.quick if tier == "quick" else sub.thorough
            for shard in range(shards):
                out = os.path.join(scratch, "%s_%d.json" % (sub.name, shard))
                outs.append(out)
                jobs.append([sys.executable, os.path.join(env.VERIF, "check.py"), "--worker", pid, sub.name, str(shard), tier, str(seed), out])
        # heavier shards of every sub-check interleaved for balance
        width = int(os.environ.get("VP_JOBS", os.cpu_count() or 8))
        if not prop.standin:
            width = min(width, 2)
        run_parallel(jobs, max(1, width))
        results, errors = [], []
        for out in outs:
            if not os.path.exists(out):
                errors.append("worker died: %s" % os.path.basename(out))
                continue
            with open(out) as f:
                r = json.load(f)
            if r["error"]:
                errors.append(r["error"])
            results.append(r)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

    violations = []
    for r in results:
        if r["violation"]:
            violations.append((r["sub"], r["violation"]))
    known_lines, unlisted = [], []
    if prop.findings is not None:
        env.install(prop.standin)
        listed = {k["key"]: k for k in known_findings() if k["property"] == pid}
        for key, text in prop.findings():
            if key in listed:
                known_lines.append("KNOWN-FINDING: property=%s %s" % (pid, listed[key]["what"]))
            else:
                unlisted.append(("findings", {"case": {"finding": key}, "text": text}))
    violations += unlisted

    distinct = set()
    evaluations = 0
    samples, per_sub = [], {}
    for r in results:
        evaluations += r["evaluations"]
        distinct |= {r["sub"] + h for h in r["nontrivial"]}
        d = per_sub.setdefault(r["sub"], {"evaluations": 0, "distinct_nontrivial": 0})
        d["evaluations"] += r["evaluations"]
        d["distinct_nontrivial"] += len(r["nontrivial"])
    seen = {}
    for r in results:
        for s in r["samples"]:
            if seen.get(r["sub"], 0) < 2:
                seen[r["sub"]] = seen.get(r["sub"], 0) + 1
                samples.append({"sub_check": r["sub"], "case": s})
    evidence = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": len(distinct),
            "rule": prop.rule,
            "samples": samples[:12],
            "per_sub_check": per_sub,
        },
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations),
    }
    os.makedirs(os.path.join(env.VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(env.VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)

    for line in known_lines:
        print(line)
    rdir = os.path.join(env.VERIF, "replays")
    settled = 0
    for subname, v in violations:
        os.makedirs(rdir, exist_ok=True)
        body = {"property": pid, "sub_check": subname, "seed": seed, "case": v["case"], "text": v["text"]}
        if settled < 2 and subname != "findings":
            settled += 1
            body = settle(body, v.get("before") or [])
        h = hashlib.sha256(canon(body).encode()).hexdigest()[:10]
        path = os.path.join(rdir, "%s_%s_%s.json" % (pid, subname, h))
        with open(path, "w") as f:
            json.dump(body, f, indent=1)
        print("VIOLATION property=%s replay=%s" % (pid, path))
        print("  [%s] %s" % (subname, v["text"]))
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %d violation(s), %.1f s" % (
        pid, tier, seed, evaluations, len(distinct), len(violations), time.time() - t0))
    if violations:
        return 1
    if errors:
        for e in errors:
            print("HARNESS ERROR\n" + e, file=sys.stderr)
        return 2
    if evaluations == 0:
        print("HARNESS ERROR: nothing was evaluated", file=sys.stderr)
        return 2
    return 0


def replay(path):
    with open(path) as f:
        body = json.load(f)
    prop = load(body["property"])
    env.install(prop.standin)
    if body["sub_check"] == "findings":
        present = dict(prop.findings()) if prop.findings else {}
        text = present.get(body["case"]["finding"])
    elif body["case"] is None:
        text = None
    else:
        sub = prop.subs[body["sub_check"]]
        for earlier in body.get("before", []):
            execute(sub, earlier, body["seed"])
        text = execute(sub, body["case"], body["seed"])
    if text is None:
        print("replay: property %s holds on this case" % body["property"])
        return 0
    print("VIOLATION property=%s replay=%s" % (body["property"], os.path.abspath(path)))
    print("  [%s] %s" % (body["sub_check"], text))
    return 1
