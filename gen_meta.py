#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from one description (developer tool; the results are committed)"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from obligations import CHECKS
P = []
def prop(id, title, statement, over, qtext, why, files, mech, na=None, note=None, level="other", state=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": qtext}, why_tests_cant=why,
                  anchors={"files": files, "mechanism": [{"name": m[0], "where": m[1]} for m in mech], "hook_needed": None,
                           **({"state": state} if state else {})}, na=na, note=note, level=level))
T = "The 18 unit tests only cover list create/iterate, a few fixed mail names, two output lines and one job-line parse; "
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "meta_props.py")).read())
with open("properties.jsonl", "w") as f:
    for p in P:
        f.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}) + "\n")
ids = [p["id"] for p in P]
assert len(set(ids)) == len(ids)
for c in CHECKS:
    assert c in ids, c
checks, na = [], []
for p in P:
    if p["id"] in CHECKS:
        checks.append({"property": p["id"], "quick_cmd": "python3 /verif/check.py %s --tier quick" % p["id"],
                       "thorough_cmd": "python3 /verif/check.py %s --tier thorough" % p["id"],
                       "evidence_file": "evidence/%s.json" % p["id"],
                       "technique": "CBMC bounded symbolic execution of the real C sources to SAT, with native replay of counterexamples",
                       "level": "other",
                       "level_note": (p["note"] or "") + " Decided by the solver for every value within the stated bounds (see evidence); nothing is claimed beyond them. Trusts CBMC 6.11, its model of the C library, and the stand-ins of the harness."})
    else:
        assert p["na"], "no check and no reason: " + p["id"]
        na.append({"property": p["id"], "reason": p["na"]})
json.dump({"version": 1, "setup_cmd": "python3 /verif/setup.py", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: the checks compile the unmodified sources. See DESIGN.md."}, open("MANIFEST.json", "w"), indent=1)
print(len(P), "properties,", len(checks), "checks,", len(na), "not applicable")
