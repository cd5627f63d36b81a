#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table of checks."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from table import CHECKS, NOT_APPLICABLE, HOOKS  # noqa: E402

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks = []
for p in props:
    if p not in CHECKS:
        continue
    c = CHECKS[p]
    checks.append({
        "property": p,
        "quick_cmd": f"VERIF_TIER=quick python3 check.py {p}",
        "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {p}",
        "evidence_file": f"evidence/{p}.json",
        "technique": c["technique"],
        "level": c.get("level", "exploration"),
        "level_note": c["level_note"],
    })
doc = {
    "version": 1,
    "setup_cmd": "python3 check.py --setup",
    "checks": checks,
    "not_applicable": [{"property": p, "reason": NOT_APPLICABLE.get(p, "the check is not built yet")} for p in props if p not in CHECKS],
    "notes": "check.py builds the harnesses in harness/ against /repo's working tree (into _build/, not committed), runs "
             "them in worker processes and judges what their monitors report. See DESIGN.md.",
}
if HOOKS:
    doc["hooks"] = HOOKS
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(doc, f, indent=1)
    f.write("\n")
