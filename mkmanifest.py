#!/usr/bin/env python3
"""Writes MANIFEST.json from rules.py."""
import json
import os
import subprocess

V = os.path.dirname(os.path.abspath(__file__))
import sys
sys.path.insert(0, V)
from rules import RULES, TECH, NOTE, NA  # noqa: E402

hook = subprocess.run(["git", "-C", "/repo", "log", "--format=%h", "--grep", "^verif:"], capture_output=True, text=True).stdout.split()
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
m = {
    "version": 1,
    "setup_cmd": "python3 setup.py",
    "hooks": {
        "guard": "verif",
        "enable": "go build tag: -tags verif (the harness module in /verif/harness replaces github.com/kitex-contrib/xds by /repo)",
        "source_commits": hook,
    },
    "checks": [{
        "property": p,
        "quick_cmd": "python3 check.py %s quick" % p,
        "thorough_cmd": "python3 check.py %s thorough" % p,
        "evidence_file": "evidence/%s.json" % p,
        "technique": TECH[p],
        "level": "exploration",
        "level_note": NOTE[p],
    } for p in ids if p in RULES],
    "not_applicable": [{"property": p, "reason": NA.get(p, "the check is not built yet")} for p in ids if p not in RULES],
}
with open(V + "/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
