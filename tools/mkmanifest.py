"""Writes MANIFEST.json from properties.jsonl and the check modules present in vf/checks."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NA = {}
checks, na = [], []
G = "runtime monitoring of the real code under randomised hostile workloads; "
TECH = {
    "C01": G + "online monitors evaluate the normal equations, hat identities and covariance formulas on every fit",
    "C11": G + "each diagnostic recomputed from its published formula on the recorded residuals",
    "C12": G + "differential monitor: same data through other containers, byte comparison of caller-owned memory before/after",
    "C13": G + "metamorphic monitor: observations permuted, results mapped back and compared",
    "C14": G + "metamorphic monitor: units changed, results compared with the algebraic prediction",
    "C15": G + "metamorphic monitor: equivalent weights/layouts/containers compared",
    "C27": G + "offline checker: the recorded trace of cuts is replayed against an exhaustive oracle",
    "C28": G + "decision-trace checker: every stage statistic recomputed and the documented tree replayed",
    "C29": G + "report parser: printed text, tables, names and arrays of one result checked against one another",
    "C30": G + "fault injection: each argument replaced by each class of invalid value; monitor on result/exception/arguments",
    "C31": G + "differential monitor between front ends and specialised estimators",
    "C32": G + "offline checker replays the recorded partition history; differential monitor against the regime estimator",
    "C36": G + "statistical monitor: standardised errors and p-values over repeated samples whose truth is known",
    "C35": G + "the spatial parameter of every optimiser call is recorded by a hook; the outcome with hard_bound is judged by it",
    "C34": G + "every helper call checked online against its dense definition, operands against copies",
    "C33": G + "differential monitor: every value of a fit without reports compared with the fit with reports",
}
for p in props:
    pid = p["id"]
    if os.path.exists(os.path.join(V, "vf", "checks", pid.lower() + ".py")):
        checks.append({
            "property": pid,
            "quick_cmd": "python3 check.py %s --tier quick" % pid,
            "thorough_cmd": "python3 check.py %s --tier thorough" % pid,
            "evidence_file": "evidence/%s.json" % pid,
            "technique": TECH.get(pid, "runtime monitoring: the real estimator runs under randomised hostile workloads while "
                                  "monitors compare what it reports with an independent dense reference evaluation"),
            "level": "exploration",
            "level_note": "Decided on the executions observed; see DESIGN.md section %s for monitors, workload and bounds." % pid,
        })
    else:
        na.append({"property": pid, "reason": NA.get(pid, "check not built yet")})
m = {"version": 1,
     "setup_cmd": "python3 tools/selfcheck.py",
     "checks": checks, "not_applicable": na}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(na), "not claimed")
