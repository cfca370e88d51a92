"""Writes the table of planted bugs at the end of DESIGN.md from the metadata beside them."""
import json
from pathlib import Path
V = Path(__file__).resolve().parent.parent
rows = []
for m in sorted(V.glob("seeded/*/meta.json")):
    d = json.loads(m.read_text())
    rows.append(f"| {m.parent.name} | {d['what_it_breaks']} | {d['needs']} | {d['property']} |")
head = """## Planted bugs

Each is a patch of the original code with its own demonstration (`seeded/<id>`), written from the text of the
property and the code.  All are caught by the quick check of their property; several were missed when they were
planted and made the check stronger.  Besides these, about five hundred throw-away edits (written against
the code by hand, or by a mutation tool) were run against the checks of the property they touch; survivors were
either judged equivalent or unreachable, or led to a stronger generator or oracle.

| bug | what it breaks | what it needs | caught by |
|---|---|---|---|
"""
f = V / "DESIGN.md"
s = f.read_text()
f.write_text(s[:s.index("## Planted bugs")] + head + "\n".join(rows) + "\n")
