"""Writes MANIFEST.json from the checks that exist."""
import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "tools"))
import props  # noqa: E402

TECH = {}
exec(open(os.path.join(VERIF, "tools", "levels.py"), encoding="utf-8").read())

checks, na = [], []
for x in props.P:
    pid = x["id"]
    name = "checks/%s.py" % pid.lower()
    if os.path.exists(os.path.join(VERIF, name)) and pid in TECH:
        tech, note = TECH[pid]
        checks.append({
            "property": pid,
            "quick_cmd": "./run %s" % pid,
            "thorough_cmd": "VERIF_TIER=thorough ./run %s" % pid,
            "technique": tech, "level": "model_checking", "level_note": note})
    else:
        na.append({"property": pid, "reason": "no check yet"})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
           "notes": "TLA+ specifications in spec/, checked with TLC; conformance drivers in checks/; no hooks in /repo."},
          open(os.path.join(VERIF, "MANIFEST.json"), "w"), indent=1)
