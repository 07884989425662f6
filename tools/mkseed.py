"""tools/mkseed.py SPEC.py: write seeded/<id>/ from a spec (ID, PROP, EDITS=[(file, old, new)], DEMO, NEEDS, BREAKS)."""
import json, os, runpy, shutil, subprocess, sys, tempfile
for spec in sys.argv[1:]:
    s = runpy.run_path(spec)
    d = "/verif/seeded/" + s["ID"]
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp(prefix="mkseed")
    try:
        subprocess.run(["git", "clone", "-q", "/repo", t + "/r"], check=True)
        for f, old, new in s["EDITS"]:
            p = t + "/r/" + f
            x = open(p, newline="").read()
            assert x.count(old) == 1, (f, x.count(old), old)
            open(p, "w", newline="").write(x.replace(old, new))
        diff = subprocess.run(["git", "-C", t + "/r", "diff"], capture_output=True).stdout
    finally:
        shutil.rmtree(t)
    open(d + "/patch.diff", "wb").write(diff)
    open(d + "/demo.py", "w").write(s["DEMO"])
    open(d + "/demo.sh", "w").write('#!/bin/bash\n. /opt/vp/env.sh\nexec "$PY" "$(dirname "$0")/demo.py"\n')
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": s["PROP"], "needs": s["NEEDS"], "what_it_breaks": s["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
