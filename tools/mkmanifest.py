#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "lib"))
sys.path.insert(0, os.path.join(ROOT, "gen"))
import notes  # noqa: E402
import stages  # noqa: E402

props = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks = []
for p in props:
    if p not in stages.STAGES:
        continue
    checks.append({
        "property": p,
        "quick_cmd": f"python3 check.py {p} --tier quick",
        "thorough_cmd": f"python3 check.py {p} --tier thorough",
        "evidence_file": f"evidence/{p}.json",
        "technique": notes.TECHNIQUE.get(p, notes.TRACE),
        "level": "model_checking",
        "level_note": notes.NOTE[p],
    })
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks,
     "not_applicable": [{"property": p, "reason": notes.NA.get(p, "check not built yet")}
                        for p in props if p not in stages.STAGES],
     "notes": "No hooks: the checks use the library's public interface only."}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
