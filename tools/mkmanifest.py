#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
 "C19": "panic-freedom and termination depend on rustc internals (trait normalisation, "
        "borrowck facts) that no contract within reach can bound; partial functions are "
        "treated as divergence in the proofs and only a panic met by a bounded run is "
        "reported, under the property being checked",
 "C20": "the VS Code extension is TypeScript against the editor API: no deductive "
        "verifier for TypeScript is available here",
}
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl")) if l.strip()]
deduced = os.path.exists(os.path.join(HERE, "lib", "deduce.py"))
cones = json.load(open(os.path.join(HERE, "contracts", "cones.json"))) if deduced else {}
checks = []
for p in props:
    i = p["id"]
    if i in NA:
        continue
    checks.append({
        "property": i,
        "quick_cmd": f"python3 check.py {i}",
        "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {i}",
        "technique": "contract-based deductive verification (Verus) of functions extracted "
                     "from /repo on every run; contracts also run as oracles (bounded)",
        "level": "proof" if cones.get(i) else "exploration",
        "level_note": cones[i]["note"],
    })
json.dump({
    "version": 1,
    "setup_cmd": "python3 tools/setup.py",
    "checks": checks,
    "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()
                       if any(p["id"] == k for p in props)],
    "notes": "See DESIGN.md. No hooks in /repo: the checks use its public API and read its "
             "sources.",
}, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
