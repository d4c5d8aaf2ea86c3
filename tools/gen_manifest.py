#!/usr/bin/env python3
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
sys.path.insert(0, os.path.join(root, "sa"))
props = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
try:
    from registry import CHECKS, NA
except ImportError:
    CHECKS, NA = {}, {}
m = {"version": 1, "setup_cmd": "bash tools/setup.sh", "checks": [], "not_applicable": []}
for p in props:
    if p in CHECKS:
        c = CHECKS[p]
        m["checks"].append({"property": p, "quick_cmd": f"python3 sa/check.py {p}", "thorough_cmd": f"python3 sa/check.py {p} --tier thorough",
          "evidence_file": f"evidence/{p}.json", "technique": c["technique"], "level": c.get("level", "other"), "level_note": c["note"]})
    else:
        m["not_applicable"].append({"property": p, "reason": NA.get(p, "check not built yet")})
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "n/a")
