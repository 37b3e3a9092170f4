#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per property that the harness registers."""
import json, os, re, subprocess
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
claimed = set()
for f in os.listdir(here + "/harness"):
    if f.endswith(".go"):
        claimed |= set(re.findall(r'register\(&prop\{id: "(C\d+)"', open(f"{here}/harness/{f}").read()))
notes = json.load(open(here + "/tools/levels.json"))
props = [json.loads(l) for l in open(here + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in claimed:
        n = notes[i]
        checks.append({"property": i, "quick_cmd": f"bash run.sh {i} quick", "thorough_cmd": f"bash run.sh {i} thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": n["technique"], "level": n.get("level", "exploration"),
                       "level_note": n["note"]})
    else:
        na.append({"property": i, "reason": "its monitor is not built yet"})
m = {"version": 1, "setup_cmd": "bash setup.sh",
     "checks": checks, "not_applicable": na,
     "notes": "run.sh compiles the monitors of harness/ into the module in /repo through a build overlay; /repo needs no hooks and is not written to. "
              "C14 and C23 are built with the race detector, C23 also with the build tag verifshim, which adds a file of /verif to package render through the overlay."}
json.dump(m, open(here + "/MANIFEST.json", "w"), indent=1)
open(here + "/MANIFEST.json", "a").write("\n")
