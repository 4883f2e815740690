#!/usr/bin/env python3
"""Writes MANIFEST.json from harness/harnesses.json and properties.jsonl."""
import json, os
d = os.path.dirname(os.path.abspath(__file__))
conf = json.load(open(d + "/harness/harnesses.json"))
props = [json.loads(l) for l in open(d + "/properties.jsonl")]
checks, na = [], []
for p in props:
    c = conf.get(p["id"])
    if c and c.get("harnesses"):
        checks.append({"property": p["id"],
                       "quick_cmd": "/verif/check %s quick" % p["id"],
                       "thorough_cmd": "/verif/check %s thorough" % p["id"],
                       "evidence_file": "evidence/%s.json" % p["id"],
                       "technique": c["technique"], "level": c.get("level", "exploration"), "level_note": c["note"]})
    else:
        na.append({"property": p["id"], "reason": (c or {}).get("na", "no check built yet")})
m = {"version": 1, "setup_cmd": "/verif/setup.sh", "checks": checks, "not_applicable": na}
json.dump(m, open(d + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
