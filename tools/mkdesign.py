"""refreshes the generated tables (findings, fixes, planted bugs) at the end of DESIGN.md"""
import glob
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(V, "DESIGN.md")
s = open(p).read()
s = s[:s.index("<!-- FINDINGS -->")]
k = json.load(open(os.path.join(V, "known_findings.json")))["findings"]
out = ["<!-- FINDINGS -->", "", "## Known findings (genuine defects recorded, not repaired)", ""]
for f in sorted((f for f in k if f["status"] == "known"), key=lambda f: (f["property"], f["id"])):
    out.append("* %s %s: %s (%d keys)" % (f["property"], f["id"], f["what"], len(f["keys"])))
out += ["", "## Defects repaired in /repo", ""]
for f in sorted((f for f in k if f["status"] == "fixed"), key=lambda f: (f["property"], f["id"])):
    out.append("* %s `%s` %s" % (f["property"], f["commit"], f["what"].split(f["commit"], 1)[-1].strip()))
out += ["", "## Planted bugs and the checks that catch them", "", "| id | property | needs | caught by |", "|---|---|---|---|"]
for m in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    d = json.load(open(m))
    i = os.path.basename(os.path.dirname(m))
    out.append("| %s | %s | %s | %s |" % (i, d["property"], d["needs"].replace("|", "/").replace("\n", " "), d.get("caught_by", d["property"])))
open(p, "w").write(s + "\n".join(out) + "\n")
