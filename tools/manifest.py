#!/usr/bin/env python3
"""Write MANIFEST.json from the list of checks below."""
import json
import os
import subprocess

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MC = "TLA+ specification model-checked with TLC; behaviours TLC emits are replayed into the code"
BOUNDED = ("The specification is explored exhaustively within the stated bounds and sampled beyond "
           "them; the code is judged on the emitted behaviours only.")

DONE = ("S01 S02 S03 S04 S05 S06 E01 E02 E03 R01 R02 L01 L02 L03 F01 F02 F03 F04 "
        "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 T01 T02")
CHECKS = {p: (MC, "model_checking", BOUNDED) for p in DONE.split()}
NA = {}


def main():
    m = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": [],
         "notes": "See DESIGN.md. Checks read VERIF_SEED and VERIF_TIER."}
    for p, (tech, level, note) in sorted(CHECKS.items()):
        m["checks"].append({
            "property": p, "quick_cmd": "python3 checks/%s.py" % p,
            "thorough_cmd": "env VERIF_TIER=thorough python3 checks/%s.py" % p,
            "evidence_file": "evidence/%s.json" % p,
            "technique": tech, "level": level, "level_note": note})
    for p, r in sorted(NA.items()):
        m["not_applicable"].append({"property": p, "reason": r})
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
