#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the registry of checks and the list of properties."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from lib import checks
NA = json.load(open(os.path.join(V, "tools", "not_applicable.json")))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": [], "notes": "Static analysis only: every check reads /repo's current source (clang AST or LLVM IR) and executes none of it."}
for p in props:
    i = p["id"]
    if i in checks.CHECKS:
        c = checks.CHECKS[i]
        e = {"property": i, "quick_cmd": "./check.py %s" % i, "thorough_cmd": "./check.py %s thorough" % i,
             "technique": c.get("technique", "static analysis: " + c["rule"][:120]), "level": "other", "level_note": c["explanation"], "evidence_file": "evidence/%s.json" % i}
        m["checks"].append(e)
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "Not decided yet.")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not applicable")
