#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from ptable import T
from props import PROPS
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(f"{ROOT}/properties.jsonl", "w") as fh:
    for k in sorted(T):
        assert len(T[k]["title"]) <= 80, k
        fh.write(json.dumps(T[k]) + "\n")
checks, na = [], []
for k in sorted(T):
    p = PROPS.get(k)
    if not p:
        na.append({"property": k, "reason": "its check is still under construction"})
        continue
    checks.append({
        "property": k,
        "quick_cmd": f"python3 bin/check.py {k}",
        "thorough_cmd": f"VERIF_TIER=thorough python3 bin/check.py {k}",
        "technique": p["technique"],
        "level": "exploration",
        "level_note": p["note"],
    })
m = {
    "version": 1,
    "setup_cmd": "true",
    "hooks": {"guard": "none: the crate needs no hooks, see DESIGN.md", "enable": "nothing to enable; instrumentation lives in the dependencies (shims/) and in generated programs", "source_commits": []},
    "checks": checks,
    "not_applicable": na,
}
with open(f"{ROOT}/MANIFEST.json", "w") as fh:
    json.dump(m, fh, indent=1)
    fh.write("\n")
print(len(checks), "checks;", "not claimed:", [x["property"] for x in na])
