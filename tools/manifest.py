#!/usr/bin/env python3
"""Writes MANIFEST.json from props_table.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from props_table import PROPS
checks = []
for k, p in sorted(PROPS.items()):
    proof = p["level"] == "proof"
    checks.append(dict(
        property=k, quick_cmd=f"python3 check.py {k} quick", thorough_cmd=f"python3 check.py {k} thorough",
        technique=("contract-based deductive verification (Verus) of the extracted functions, plus a bounded replay of the real code" if proof else
                   "bounded stand-in: generated inputs replayed on the real code against an independent oracle"),
        level=p["level"],
        level_note=p.get("note", "Bounded: the functions of this property are not under contract yet; generated cases only." if not proof else
                         "Every obligation of the functions under contract is discharged for all inputs; the evidence lists the functions, the trusted contracts and the bounded remainder."),
    ))
json.dump(dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=[],
               notes="No hook in /repo: the functions are extracted from its source on every run."), open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
