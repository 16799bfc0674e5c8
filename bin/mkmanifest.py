#!/usr/bin/env python3
"""Rewrites MANIFEST.json from properties.jsonl and bin/registry.py."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "bin"))
from registry import CHECKS, NOTES, NOT_APPLICABLE  # noqa: E402
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        t, note = NOTES[i]
        cmd = f"python3 bin/check.py {i}"
        checks.append(dict(property=i, quick_cmd=f"VERIF_TIER=quick {cmd}", thorough_cmd=f"VERIF_TIER=thorough {cmd}", technique=t, level="exploration", level_note=note))
    else:
        na.append(dict(property=i, reason=NOT_APPLICABLE.get(i, "no check built yet")))
m = dict(version=1, setup_cmd="python3 bin/check.py --build", checks=checks, not_applicable=na,
         notes="No hooks in /repo: every check builds /repo's sources from /verif/bin/check.py. Replay a case with: python3 bin/check.py ID --replay FILE.")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
