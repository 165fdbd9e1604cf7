#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table of claimed properties below."""
import json, os, sys
sys.path.insert(0, os.path.dirname(__file__))
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(HERE + "/properties.jsonl")]
CLAIM = {}
def claim(id, technique, level, note): CLAIM[id] = (technique, level, note)
exec(open(HERE + "/tools/claims.py").read())
DEF = "not decided yet: the contracts this property needs are not discharged by the verifier at this commit"
m = {"version": 1,
     "setup_cmd": "cd gocv && GOFLAGS=-mod=mod GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off go build -o /dev/null .",
     "checks": [], "not_applicable": [],
     "notes": "Every check builds the verifier from /verif/gocv, loads /repo's current source as SSA, and discharges contracts function by function. See DESIGN.md."}
for i in ids:
    if i in CLAIM:
        t, l, n = CLAIM[i]
        m["checks"].append({"property": i, "quick_cmd": "./check.sh " + i, "thorough_cmd": "./check.sh " + i,
                            "evidence_file": f"evidence/{i}.json", "technique": t, "level": l, "level_note": n})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, DEF)})
json.dump(m, open(HERE + "/MANIFEST.json", "w"), indent=1)
