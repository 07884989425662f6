#!/usr/bin/env python3
"""CLI of the runtime-monitoring framework for spreg.

  check.py C01 [--tier quick|thorough] [--jobs N] [--only SUB[:IDX]] [--replay FILE] [-v]

Exit 0: held on everything observed (known findings printed).  Exit 1: a
VIOLATION line names a replay file.  Exit 3: inconclusive (monitor not reached).
"""
import os
import sys

PY = "/opt/venv/bin/python"
ENV = {"PYTHONHASHSEED": "0", "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1",
       "MKL_NUM_THREADS": "1", "NUMBA_NUM_THREADS": "1", "PYTHONDONTWRITEBYTECODE": "1",
       "MPLBACKEND": "Agg"}
if any(os.environ.get(k) != v for k, v in ENV.items()) or os.path.realpath(
        sys.executable) != os.path.realpath(PY) and os.path.exists(PY) and sys.prefix != "/opt/venv":
    e = dict(os.environ)
    e.update(ENV)
    py = PY if os.path.exists(PY) else sys.executable
    os.execve(py, [py, os.path.abspath(__file__)] + sys.argv[1:], e)

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vf import core  # noqa: E402

if __name__ == "__main__":
    sys.exit(core.main(sys.argv[1:]))
