#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json, os
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
exec(open(os.path.join(root, "tools", "claims.py")).read())
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIMED:
        checks.append({"property": i, "quick_cmd": "./check.sh %s quick" % i, "thorough_cmd": "./check.sh %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": "contract-based deductive verification of the real code (gov: contracts on go/ssa of /repo, SMT-discharged), failed obligations replayed by drivers on the real code",
                       "level": CLAIMED[i][0], "level_note": CLAIMED[i][1]})
    else:
        na.append({"property": i, "reason": NOT.get(i, "not yet built")})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks: contracts live in /verif/contracts, the verifier reads /repo's source on every run; drivers enter through go test -overlay."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
