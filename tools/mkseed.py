#!/usr/bin/env python3
"""Creates a planted bug: mkseed.py SPEC.py

SPEC.py defines id, property, needs, breaks, edits = [(file, old, new)],
files = {name: text} (for the demo) and demo (body of the script).
The patch is made against the clean working tree of /repo and undone again.
"""
import json, os, subprocess, sys

REPO = "/repo"
HEAD = '''#!/bin/bash
# Exit status 0: behaves as it should; anything else: it does not.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
tmp=$(mktemp -d) || exit 99
trap 'rm -rf "$tmp"' EXIT
'''
for spec in sys.argv[1:]:
    ns = {}
    exec(open(spec).read(), ns)
    d = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded", ns["id"])
    os.makedirs(d, exist_ok=True)
    assert subprocess.run(["git", "-C", REPO, "status", "--porcelain"], capture_output=True, text=True).stdout == ""
    try:
        for f, old, new in ns["edits"]:
            p = os.path.join(REPO, f)
            s = open(p).read()
            assert s.count(old) == 1, (ns["id"], f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "-C", REPO, "diff"], capture_output=True, text=True).stdout
    finally:
        subprocess.run(["git", "-C", REPO, "checkout", "-q", "--", "."])
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    json.dump({"property": ns["property"], "needs": ns["needs"], "what_it_breaks": ns["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    for name, text in ns.get("files", {}).items():
        p = os.path.join(d, name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        open(p, "w").write(text.lstrip("\n"))
    open(os.path.join(d, "demo.sh"), "w").write(HEAD + ns["demo"].lstrip("\n"))
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    print("wrote", d)
