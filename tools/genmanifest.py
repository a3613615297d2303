#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl, notes.json and the property tags in contracts/*.spec."""
import glob, json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
tags = set()
for f in glob.glob(here + "/contracts/*.spec"):
    for l in open(f):
        m = re.match(r"\s*property\s+(.*)", l)
        if m: tags |= set(m.group(1).split())
notes = json.load(open(here + "/tools/notes.json"))
props = [json.loads(l) for l in open(here + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in tags and i not in notes["unclaimed"]:
        checks.append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
          "technique": "contract-based deductive verification of the Go SSA of /repo (pre/postconditions, loop invariants, frames; SMT)",
          "level": "proof", "level_note": notes["level"].get(i, notes["level"]["default"])})
    else:
        na.append({"property": i, "reason": notes["unclaimed"].get(i, "not built yet")})
m = {"version": 1, "setup_cmd": "./setup.sh",
     "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: contracts live in /verif/contracts and are bound to the functions of /repo by name; the verified text is the SSA of /repo's working tree, built on every run."}
json.dump(m, open(here + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed", [c["property"] for c in checks])
