#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the checks present in checks/."""
import json, pathlib, re
V = pathlib.Path(__file__).resolve().parent.parent
props = [json.loads(l) for l in (V / "properties.jsonl").read_text().splitlines()]
NA = json.loads((V / "tools/not_applicable.json").read_text()) if (V / "tools/not_applicable.json").exists() else {}
checks, na = [], []
for p in props:
    f = V / "checks" / f"{p['id'].lower()}.py"
    if f.exists():
        doc = re.match(r'(?:#.*\n)*"""(.*?)"""', f.read_text(), re.S).group(1)
        doc = " ".join(doc.split())
        level = "fault_enumeration" if 'level="fault_enumeration"' in f.read_text() else "exploration"
        checks.append(dict(property=p["id"], quick_cmd=f"python3 run.py {p['id']}", thorough_cmd=f"python3 run.py {p['id']} --tier thorough",
                           evidence_file=f"evidence/{p['id']}.json", technique="property-based testing (Hypothesis) against an explicit oracle",
                           level=level, level_note="Random structured search, no proof of absence. " + doc))
    else:
        na.append(dict(property=p["id"], reason=NA.get(p["id"], "no check has been built for it")))
m = dict(version=1, setup_cmd="python3 -c 'pass'", checks=checks, not_applicable=na,
         notes="python3 run.py <ID> --replay <file> re-runs a reported case. Known findings and repaired defects: known_findings.json")
(V / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
print(len(checks), "checks;", len(na), "not claimed")
