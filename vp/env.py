"""Process environment shared by every check: import paths and pool stand-ins.

The code under test is always imported from /repo's working tree.  Hypothesis comes
from the tooling venv, appended at the END of sys.path so that numpy / scipy are the
ones of /opt/venv, the interpreter the project itself is tested with.
"""
import os
import sys

REPO = os.environ.get("VP_REPO", "/repo")
VENV_PY = "/opt/venv/bin/python"
TOOLS = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

FIXED_ENV = {
    "PYTHONDONTWRITEBYTECODE": "1",
    "PYTHONHASHSEED": "0",
    "OPENBLAS_NUM_THREADS": "1",
    "OMP_NUM_THREADS": "1",
    "MKL_NUM_THREADS": "1",
}


def setup_paths():
    if REPO in sys.path:
        sys.path.remove(REPO)
    sys.path.insert(0, REPO)
    if VERIF not in sys.path:
        sys.path.append(VERIF)
    if TOOLS not in sys.path:
        sys.path.append(TOOLS)


def install(standin=True):
    """Make theboss importable; with standin=True process pools run in-process."""
    setup_paths()
    if standin:
        from vp import standin as s

        s.install()
    import warnings

    warnings.simplefilter("ignore")
    import theboss  # noqa

    where = os.path.realpath(os.path.dirname(theboss.__file__))
    want = os.path.realpath(os.path.join(REPO, "theboss"))
    if where != want:
        raise RuntimeError("theboss imported from %s instead of %s" % (where, want))
