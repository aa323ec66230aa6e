#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table of claimed checks."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
try:
    from claims import CLAIMS
except ImportError:
    CLAIMS = {}
checks = [dict(property=i, quick_cmd=f"./check {i}", thorough_cmd=f"./check {i} --thorough", evidence_file=f"evidence/{i}.json",
               technique=CLAIMS[i][1], level=CLAIMS[i][0], level_note=CLAIMS[i][2]) for i in ids if i in CLAIMS]
na = [dict(property=i, reason="check under construction; not claimed yet") for i in ids if i not in CLAIMS]
json.dump(dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
               notes="No hooks in /repo: every observation is made through the public API (see DESIGN.md)."),
          open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
