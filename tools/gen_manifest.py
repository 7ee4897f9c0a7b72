#!/usr/bin/env python3
"""writes /verif/MANIFEST.json from tools/claims.json"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
cl = json.load(open(os.path.join(V, "tools", "claims.json")))
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    c = cl.get(p)
    if c and c.get("claim"):
        checks.append({
            "property": p,
            "quick_cmd": "./check.py " + p,
            "thorough_cmd": "VERIF_TIER=thorough ./check.py " + p,
            "technique": "contract-based deductive verification of the Go source (gover: SSA of /repo to SMT, Houdini loop invariants, z3/cvc5)",
            "level": "proof",
            "level_note": c["note"],
        })
    else:
        na.append({"property": p, "reason": (c or {}).get("reason", "no contract yet (work in progress)")})
m = {"version": 1, "setup_cmd": "./build.sh", "checks": checks, "not_applicable": na,
     "notes": "see DESIGN.md; known-findings.json lists recorded and repaired defects"}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
