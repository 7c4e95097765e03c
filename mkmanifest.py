#!/usr/bin/env python3
"""Write MANIFEST.json from properties.jsonl and vf/claims.json (development helper, not a check)."""
import json, os
H = os.path.dirname(os.path.abspath(__file__))
claims = json.load(open(os.path.join(H, "vf", "claims.json")))
checks, na = [], []
for l in open(os.path.join(H, "properties.jsonl")):
    p = json.loads(l)["id"]
    c = claims[p]
    if "na" in c: na.append({"property": p, "reason": c["na"]}); continue
    checks.append({"property": p, "quick_cmd": "python3-vt check.py %s quick" % p, "thorough_cmd": "python3-vt check.py %s thorough" % p,
                   "evidence_file": "evidence/%s.json" % p, "technique": c["technique"], "level": c["level"], "level_note": c["note"]})
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
     "notes": "No hooks: the verifier reads clang's AST of the unmodified sources. See DESIGN.md."}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
