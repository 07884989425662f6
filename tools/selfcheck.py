"""Set-up: everything is Python; verify that the interpreter, the repository and every check module load."""
import glob
import importlib
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
if os.path.exists(PY) and sys.prefix != "/opt/venv" and not os.environ.get("VF_SELF"):
    os.environ["VF_SELF"] = "1"
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    os.execv(PY, [PY, os.path.abspath(__file__)])
sys.dont_write_bytecode = True
sys.path.insert(0, V)
from vf import core  # noqa: E402

core.load_spreg()
n = 0
for f in sorted(glob.glob(os.path.join(V, "vf", "checks", "c[0-9][0-9].py"))):
    m = importlib.import_module("vf.checks." + os.path.basename(f)[:-3])
    assert m.SUBS
    n += 1
print("loaded spreg and %d check modules" % n)
