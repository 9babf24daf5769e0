#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of properties that have tests."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
src = ""
for f in sorted(os.listdir(os.path.join(V, "harness/checks"))):
    if f.endswith("_test.go"):
        src += open(os.path.join(V, "harness/checks", f)).read()
have = set(re.findall(r"^func Test(C\d+)_", src, re.M))
notes = json.load(open(os.path.join(V, "tools/levels.json")))
m = {"version": 1,
     "setup_cmd": "bash /verif/setup.sh",
     "checks": [], "not_applicable": [],
     "notes": "All checks run through run.py, which rebuilds the harness, the capslock packages and the commands from /repo's working tree in a scratch directory. No hooks were added to /repo. Known findings are in known_findings.txt."}
for p in props:
    i = p["id"]
    if i in have:
        tech, note = notes[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 run.py " + i, "thorough_cmd": "python3 run.py " + i,
                            "evidence_file": "evidence/%s.json" % i, "technique": tech, "level": "exploration", "level_note": note})
    else:
        m["not_applicable"].append({"property": i, "reason": "check not built yet"})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks")
