#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from harness/run.py's table of checks and the notes below"""
import ast
import json
import os
import re

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
src = open(os.path.join(VERIF, "harness", "run.py"), encoding="utf-8").read()
mods = ast.literal_eval(re.search(r"MODULES = (\{.*?\n\})", src, re.S).group(1))
props = [json.loads(line) for line in open(os.path.join(VERIF, "properties.jsonl"), encoding="utf-8")]
NOTES = json.load(open(os.path.join(VERIF, "tools", "notes.json"), encoding="utf-8"))
checks, missing = [], []
for p in props:
    pid = p["id"]
    if pid in mods:
        note = NOTES.get(pid, {})
        checks.append({
            "property": pid,
            "quick_cmd": f"/opt/venv/bin/python harness/run.py {pid}",
            "thorough_cmd": f"VERIF_TIER=thorough /opt/venv/bin/python harness/run.py {pid}",
            "technique": note.get("technique", "TLA+ specification checked with TLC; spec behaviours replayed on the code, recorded traces "
                                  "validated by TLC"),
            "level": "model_checking",
            "level_note": note.get("level_note", "Exhaustive on the specification within the stated constants; the code is bound to it by "
                                   "replay of every emitted behaviour and validation of seeded random traces."),
        })
    else:
        missing.append({"property": pid, "reason": "check not built yet"})
json.dump({"version": 1, "setup_cmd": "/opt/venv/bin/python harness/setup.py", "checks": checks, "not_applicable": missing,
           "notes": "TLA+ with TLC; see DESIGN.md. All checks: harness/run.py <property>."},
          open(os.path.join(VERIF, "MANIFEST.json"), "w", encoding="utf-8"), indent=1)
print(len(checks), "checks,", len(missing), "missing")
