#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from `check.sh --list` and properties.jsonl."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = subprocess.run([V + "/check.sh", "--list"], capture_output=True, text=True, check=True).stdout
checks, have = [], set()
for l in out.splitlines():
    i, level, tech, note = l.split("\t")
    have.add(i)
    checks.append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
                   "technique": tech, "level": level, "level_note": note})
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
na = [{"property": p["id"], "reason": "no check built yet"} for p in props if p["id"] not in have]
assert have <= {p["id"] for p in props}
m = {"version": 1, "setup_cmd": "./check.sh --build", "checks": checks, "not_applicable": na,
     "notes": "No hooks: every check drives the public API of the unmodified crate. ./check.sh --replay FILE re-executes the execution a VIOLATION line names. See DESIGN.md."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
