#!/usr/bin/env python3
"""tools/fixed.py PROP COMMIT WHAT: records a repaired defect."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p, c, w = sys.argv[1:4]
c = subprocess.check_output(["git", "-C", "/repo", "rev-parse", c], text=True).strip()
with open(os.path.join(V, "known_findings.jsonl"), "a") as f:
    f.write(json.dumps({"property": p, "status": "fixed", "commit": c, "what": w, "line": f"fixed: property={p} {c[:7]} {w}"}) + "\n")
