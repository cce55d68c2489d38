#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed checks below."""
import json, os
H = os.path.dirname(os.path.abspath(__file__))
CLAIMED = json.load(open(os.path.join(H, "claims.json")))
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
na = CLAIMED["not_applicable"]
checks = []
for p in props:
    c = CLAIMED["checks"].get(p["id"])
    if not c:
        assert p["id"] in na, p["id"]
        continue
    checks.append({"property": p["id"],
                   "quick_cmd": "python3 run.py check %s quick" % p["id"],
                   "thorough_cmd": "python3 run.py check %s thorough" % p["id"],
                   "technique": c["technique"], "level": c["level"],
                   "level_note": c["note"]})
m = {"version": 1, "setup_cmd": "python3 run.py build asan",
     "checks": checks,
     "hooks": {"guard": "MWS_VERIF", "enable": "no hook is needed: the checks build the unmodified sources of /repo; the name is reserved", "source_commits": []},
     "not_applicable": [{"property": k, "reason": v} for k, v in na.items()
                        if k not in CLAIMED["checks"]],
     "notes": "See DESIGN.md. Every check rebuilds /repo's working tree under /verif/build (ignored by git)."}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(H, "MANIFEST.json"), "a").write("\n")
