"""tools/covrun.py CNN OUT.json [SCALE]: which lines of spreg one check executes (sys.monitoring; single process)."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
if os.path.exists(PY) and not os.environ.get("COVRUN"):
    os.environ["COVRUN"] = "1"
    os.execv(PY, [PY] + sys.argv)
for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(v, "1")
sys.path.insert(0, V)
os.chdir(V)
from vf import core

pid, out = sys.argv[1], sys.argv[2]
scale = sys.argv[3] if len(sys.argv) > 3 else "0.3"
base = os.path.join(core.REPO, "spreg") + os.sep
hit = {}
mon = sys.monitoring
mon.use_tool_id(3, "cov")


def line(code, ln):
    if code.co_filename.startswith(base):
        hit.setdefault(code.co_filename[len(base):], set()).add(ln)
    return mon.DISABLE


mon.register_callback(3, mon.events.LINE, line)
mon.set_events(3, mon.events.LINE)
try:
    core.main([pid, "--jobs", "1", "--no-evidence", "--scale", scale])
except SystemExit:
    pass
json.dump({k: sorted(v) for k, v in hit.items()}, open(out, "w"))
