#!/usr/bin/env python3
"""addfix.py <property> <what failed> [commit]: records a repaired defect in known_findings.json"""
import json, pathlib, subprocess, sys
f = pathlib.Path(__file__).resolve().parent.parent / "known_findings.json"
d = json.loads(f.read_text()) if f.exists() else {"findings": [], "fixed": []}
prop, what = sys.argv[1:3]
commit = sys.argv[3] if len(sys.argv) > 3 else subprocess.check_output(["git", "-C", "/repo", "rev-parse", "--short=10", "HEAD"], text=True).strip()
d["fixed"].append(f"fixed: property={prop} {commit} {what}")
f.write_text(json.dumps(d, indent=1) + "\n")
