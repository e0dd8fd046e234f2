#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the properties and the notes below."""
import json, os
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
BASE = "Generated-input search against an explicit oracle on the real code over loopback sockets; assurance is that of the explored cases. Trusts the harness's reference model, the kernel's TCP and the third-party HTTP layer (miasht, fibers). "
N = {}
exec(open(os.path.join(root, "tools", "notes.py")).read())
checks = []
for p in props:
    i = p["id"]
    if i not in N: continue
    tech, level, note = N[i]
    checks.append({"property": i, "quick_cmd": "bash check.sh %s quick" % i,
                   "thorough_cmd": "bash check.sh %s thorough" % i,
                   "technique": tech, "level": level, "level_note": BASE + note})
claimed = {c["property"] for c in checks}
na = [{"property": p["id"], "reason": "check under construction"} for p in props if p["id"] not in claimed]
m = {"version": 1, "setup_cmd": "bash check.sh build",
     "hooks": {"guard": "none", "enable": "no hooks: the checks use only the public interface", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "All checks are one harness crate (harness/) built against /repo as a path dependency."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
