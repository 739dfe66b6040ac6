#!/usr/bin/env python3
"""run.py CNN [--task ID]: runs one check (see nmv/harness.py)."""
import os
import sys

PY = "/opt/venv/bin/python"
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
if os.path.exists(PY) and os.environ.get("NMV_REEXEC") != "1":
    os.environ["NMV_REEXEC"] = "1"
    os.environ.setdefault("PYTHONHASHSEED", "0")
    os.environ.update(PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", LC_ALL="C.UTF-8", PYTHONIOENCODING="utf-8", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
    os.execv(PY, [PY, "-W", "ignore", os.path.join(HERE, "run.py")] + sys.argv[1:])

from nmv import harness  # noqa: E402

harness.main()
