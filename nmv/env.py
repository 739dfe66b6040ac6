"""Import environment for the checks.

* puts /repo first on sys.path (override with NMV_REPO for scratch copies)
* ``neutrinomass/database/democratic.p`` is absent from this copy of the
  repository, and ``neutrinomass.database.database`` unpickles it at import time.
  Only for that file, and only when it is missing, an *empty* data set is served
  to the import; everything else is the real code.
"""
import builtins
import io
import os
import pickle
import sys
import warnings

REPO = os.environ.get("NMV_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

_real_open = builtins.open


def _open(file, *a, **k):
    try:
        return _real_open(file, *a, **k)
    except FileNotFoundError:
        if isinstance(file, (str, os.PathLike)) and os.path.basename(os.fspath(file)) == "democratic.p":
            return io.BytesIO(pickle.dumps({"democratic_num": [], "stringent_num": [], "completion": []}))
        raise


_done = False


def setup():
    global _done
    if _done:
        return
    _done = True
    warnings.filterwarnings("ignore")
    os.environ.setdefault("MPLBACKEND", "Agg")
    sys.dont_write_bytecode = True
    if REPO in sys.path:
        sys.path.remove(REPO)
    sys.path.insert(0, REPO)
    builtins.open = _open
    try:
        import neutrinomass  # noqa: F401
    finally:
        builtins.open = _real_open
    mod = os.path.dirname(os.path.abspath(neutrinomass.__file__))
    assert os.path.realpath(mod).startswith(os.path.realpath(REPO)), mod


def reexec():
    """Re-execute with a pinned environment (hash seed, no bytecode)."""
    want = {
        "PYTHONHASHSEED": os.environ.get("PYTHONHASHSEED", "0") or "0",
        "PYTHONDONTWRITEBYTECODE": "1",
        "MPLBACKEND": "Agg",
        "LC_ALL": "C.UTF-8",
    }
    if any(os.environ.get(k) != v for k, v in want.items()):
        os.environ.update(want)
        os.execv(sys.executable, [sys.executable, "-W", "ignore"] + sys.argv)
