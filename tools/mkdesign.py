"""Writes the per-property part of DESIGN.md (between the two markers) from the checks and the properties."""
import ast, json, re, textwrap
from pathlib import Path
V = Path(__file__).resolve().parent.parent
props = [json.loads(l) for l in (V / "properties.jsonl").read_text().splitlines()]
notes = json.loads((V / "tools" / "design_notes.json").read_text())
out = []
for p in props:
    i = p["id"]
    tree = ast.parse((V / "checks" / (i.lower() + ".py")).read_text())
    doc = " ".join(ast.get_docstring(tree).split())
    doc = re.sub(r"^C\d\d: ", "", doc)
    desc = next(n.value.args[1].value for n in tree.body if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") == "CHECK")
    tests = []
    for n in ast.walk(tree):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "test" and n.args:
            kw = {k.arg: k.value for k in n.keywords}
            if "quick" in kw:
                tests.append(f"{n.args[0].value} {ast.unparse(kw['quick'])}/{ast.unparse(kw['thorough'])}")
            else:
                tests.append(f"{n.args[0].value} (enumerated)")
    out.append(f"### {i} {p['title']}\n")
    out.append(textwrap.fill("Oracle: " + doc, 118) + "\n")
    out.append(textwrap.fill("Generated: " + desc + ".", 118) + "\n")
    out.append(textwrap.fill("Cases (quick/thorough): " + "; ".join(tests) + ".", 118) + "\n")
    if i in notes:
        out.append(textwrap.fill(notes[i], 118) + "\n")
f = V / "DESIGN.md"
s = f.read_text()
a, b = "<!-- properties -->", "<!-- end of properties -->"
s = s[:s.index(a) + len(a)] + "\n\n" + "\n".join(out) + "\n" + s[s.index(b):]
f.write_text(s)
