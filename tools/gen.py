#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from the tables in props.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
import props
done = set(props.CLAIMED)
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in props.PROPS:
        assert len(p["title"]) <= 80, p["title"]
        q = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p["over"], "text": p["q"]},
             "why_tests_cant": p["why"],
             "anchors": {"files": p["files"],
                         "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                         "observe_at": p["obs"], "hook_needed": None}}
        f.write(json.dumps(q) + "\n")
checks = []
na = []
for p in props.PROPS:
    if p["id"] in props.NOT_APPLICABLE:
        na.append({"property": p["id"], "reason": props.NOT_APPLICABLE[p["id"]]})
        continue
    if p["id"] not in done:
        na.append({"property": p["id"], "reason": "check not built yet"})
        continue
    checks.append({"property": p["id"],
                   "quick_cmd": "./check.sh %s quick" % p["id"],
                   "thorough_cmd": "./check.sh %s thorough" % p["id"],
                   "evidence_file": "evidence/%s.json" % p["id"],
                   "technique": props.CLAIMED[p["id"]][0],
                   "level": "model_checking",
                   "level_note": props.CLAIMED[p["id"]][1]})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": props.NOTES}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks,", len(na), "not claimed")
