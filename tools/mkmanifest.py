#!/usr/bin/env python3
"""writes MANIFEST.json from the specifications"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/hv")
import checks
NA = checks.NOT_APPLICABLE
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "bin/setup", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in checks.SPECS:
        s = checks.SPECS[i]
        m["checks"].append({"property": i, "quick_cmd": "bin/check " + i, "thorough_cmd": "bin/check %s --tier thorough" % i, "evidence_file": "evidence/%s.json" % i,
                            "technique": s.get("technique") or "symbolic execution of the real code's LLVM IR, assertions decided by Z3", "level": s["level"], "level_note": s["note"]})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "no check has been built for it yet")})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "claimed", len(m["not_applicable"]), "not")
