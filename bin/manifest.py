#!/usr/bin/env python3
"""Writes MANIFEST.json from bin/claims.json."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
cl = json.load(open(os.path.join(H, "bin", "claims.json")))
props = [json.loads(l)["id"] for l in open(os.path.join(H, "properties.jsonl")) if l.strip()]
checks, na = [], []
for p in props:
    if p in cl["claims"]:
        checks.append({"property": p, "quick_cmd": "python3 bin/check.py " + p,
                       "thorough_cmd": "VERIF_TIER=thorough python3 bin/check.py " + p,
                       "evidence_file": "evidence/%s.json" % p,
                       "technique": "contract-based deductive verification: weakest-precondition obligations over go/ssa of the real functions, discharged by z3/cvc5; failures replayed by running the contracts on the real code",
                       "level": "proof", "level_note": cl["claims"][p]})
    else:
        na.append({"property": p, "reason": cl["not_applicable"].get(p, "not yet built: contracts for this property are still being written")})
m = {"version": 1, "setup_cmd": "bash bin/setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the contracts live in /verif/contracts and are bound to /repo's functions by name on every run; the harness files enter through go test -overlay."}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
