"""tools/kf.py known ID PROP 'key1;key2' 'what'   |   tools/kf.py fixed ID PROP COMMIT 'what'"""
import json
import sys
p = "/verif/known_findings.json"
k = json.load(open(p))
a = sys.argv[1:]
k["findings"] = [f for f in k["findings"] if not (f["id"] == a[1] and f["property"] == a[2])]
if a[0] == "known":
    k["findings"].append({"id": a[1], "property": a[2], "status": "known", "keys": a[3].split(";"), "what": a[4]})
else:
    k["findings"].append({"id": a[1], "property": a[2], "status": "fixed", "commit": a[3],
                          "what": "fixed: property=%s %s %s" % (a[2], a[3], a[4])})
open(p, "w").write(json.dumps(k, indent=1) + "\n")
