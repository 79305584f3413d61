#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and tools/checks_config.py."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, "tools"))
from checks_config import CHECKS
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
checks, na = [], []
for p in props:
    c = CHECKS.get(p["id"])
    if c is None:
        na.append({"property": p["id"], "reason": "no check built yet"})
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": f"python3 run.py {p['id']}",
        "thorough_cmd": f"VERIF_TIER=thorough python3 run.py {p['id']}",
        "technique": c.get("technique", "property-based testing (generated inputs, shrinking) against an explicit oracle"),
        "level": "exploration",
        "level_note": c.get("note", "Random search over generated cases under ASan and UBSan; no alarm means no counterexample among the cases "
                                    "counted in the evidence file. Trusts the oracle in checks/%s.cpp and the generators' reach." % p["id"]),
    })
m = {"version": 1, "setup_cmd": "python3 run.py P26 --build-only", "checks": checks, "not_applicable": na,
     "notes": "run.py <ID> compiles what the check needs from /repo's working tree; no hooks in /repo are used. Replay a failure with "
              "'python3 run.py <ID> --replay <file>'. KNOWN_FINDINGS.txt lists the recorded defects and the repaired ones."}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
