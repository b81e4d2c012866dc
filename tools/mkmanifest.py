#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from checks import CHECKS
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
NOTE = ("TLC explores the TLA+ design specification exhaustively within the listed constants and checks it against the contract; every "
        "transition is executed on the real code, and recorded histories of the real code are validated against the contract by TLC. "
        "Not a proof beyond those bounds and histories. ")
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        checks.append(dict(property=i, quick_cmd="python3 run.py " + i, thorough_cmd="env VERIF_TIER=thorough python3 run.py " + i,
                           evidence_file="evidence/%s.json" % i,
                           technique="TLA+ specification checked with TLC; behaviours replayed on the code and recorded traces validated by TLC",
                           level=c["level"], level_note=NOTE + c["note"]))
    else:
        na.append(dict(property=i, reason="check under construction"))
json.dump(dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na,
               notes="No hooks in /repo: everything is observed through the public API. Findings: known_findings.txt; design: DESIGN.md."),
          open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
