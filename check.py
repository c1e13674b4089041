#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]      decide one property
   check.py --replay <file>                        re-run one recorded case
   check.py --all [--tier ...]                     every property in MANIFEST.json
   check.py --selftest                             smoke test (setup_cmd)
VERIF_SEED (default 1) and VERIF_TIER (default quick) are read from the environment."""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)


def main():
    from vp import env

    if os.environ.get("VP_REEXEC") != "1" and __name__ == "__main__":
        e = dict(os.environ, VP_REEXEC="1", **env.FIXED_ENV)
        py = env.VENV_PY if os.path.exists(env.VENV_PY) else sys.executable
        os.execve(py, [py, os.path.abspath(__file__)] + sys.argv[1:], e)
    env.setup_paths()
    from vp import core

    args = sys.argv[1:]
    if args and args[0] == "--worker":
        pid, name, shard, tier, seed, out = args[1:7]
        core.worker(pid, name, int(shard), tier, int(seed), out)
        return 0
    if args and args[0] == "--replay":
        return core.replay(args[1])
    if args and args[0] == "--selftest":
        env.install(True)
        import hypothesis, numpy, scipy  # noqa

        print("python %s, numpy %s, scipy %s, hypothesis %s" % (
            sys.version.split()[0], numpy.__version__, scipy.__version__, hypothesis.__version__))
        return 0
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in args:
        i = args.index("--tier")
        tier = args[i + 1]
        del args[i:i + 2]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if "--seed" in args:
        i = args.index("--seed")
        seed = int(args[i + 1])
        del args[i:i + 2]
    if args and args[0] == "--all":
        import json

        with open(os.path.join(HERE, "MANIFEST.json")) as f:
            ids = [c["property"] for c in json.load(f)["checks"]]
        worst = 0
        for pid in ids:
            worst = max(worst, core.check(pid, tier, seed))
        return worst
    if not args:
        print(__doc__)
        return 2
    return core.check(args[0].upper(), tier, seed)


if __name__ == "__main__":
    sys.exit(main())
