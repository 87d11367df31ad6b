#!/usr/bin/env python3
import json, os, claims
V = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": [], "not_applicable": [],
     "notes": "No hooks in /repo: the seams are the C/pthread library calls (interposed at link time) and compiler instrumentation of memory accesses. Fixes of genuine defects are the fix: commits in /repo, listed in known_findings.txt."}
for p in props:
    i = p["id"]
    if i in claims.CLAIMS:
        c = claims.CLAIMS[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i, "evidence_file": "evidence/%s.json" % i,
                            "technique": c["technique"], "level": c["level"], "level_note": c["note"]})
    else: m["not_applicable"].append({"property": i, "reason": claims.NA.get(i, "check not built yet")})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
