#!/usr/bin/env python3
"""Writes MANIFEST.json from bin/checks.py and properties.jsonl."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "bin"))
from checks import CHECKS
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        checks.append({
            "property": i,
            "quick_cmd": "python3 bin/check.py " + i,
            "thorough_cmd": "VERIF_TIER=thorough python3 bin/check.py " + i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": c.get("technique", "property-based testing (rapid): generated inputs against an explicit oracle, shrinking"),
            "level": c.get("level", "exploration"),
            "level_note": c.get("note", "Sampled exploration of generated cases; no claim beyond the cases generated. Trusts the Go runtime and the cryptographic libraries."),
        })
    else:
        na.append({"property": i, "reason": c_reason(i) if False else "not claimed: no check of this property has been built yet"})
m = {"version": 1, "setup_cmd": "python3 bin/setup.py",
     "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the checks use its exported API, in-package overlay tests (cmd/tss) and its binaries. See DESIGN.md."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
