#!/usr/bin/env python3
"""Writes MANIFEST.json from spec/checks.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "spec"))
from checks import CHECKS
checks = []
for k in sorted(CHECKS):
    c = CHECKS[k]
    checks.append({
        "property": k,
        "quick_cmd": "python3 check.py " + k,
        "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + k,
        "evidence_file": "evidence/%s.json" % k,
        "technique": ("deductive verification of the extracted functions with Verus (contracts, loop invariants); bounded replay harness for failing inputs"
                      if c["templates"] else "bounded stand-in (seeded exploration against an oracle)"),
        "level": c["level"],
        "level_note": c["note"] + (" Trusted: " + "; ".join(c["trusted"]) if c["trusted"] else ""),
    })
m = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "checks": checks,
    "not_applicable": [
        {"property": "N01", "reason": "Schedules, deadlock and delivery through rayon's thread pool and crossbeam channels are liveness and whole-history properties of unsafe third-party code; no contract within the reach of Verus or Kani expresses them here."},
        {"property": "N02", "reason": "Zero knowledge and knowledge soundness are computational statements about probabilistic adversaries (generic group / knowledge-of-exponent assumptions); they are not pre/postconditions of any function. Only the algebra they rest on is claimed (C15-C18)."},
    ],
    "notes": "No hooks in /repo: the functions under contract are extracted from the working tree on every run. KNOWN_FINDINGS.txt records two repaired defects.",
}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
