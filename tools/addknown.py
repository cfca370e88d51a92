"""addknown.py PROP "test": list (with -w: record) the failing cases of an enumerated test whose failures carry a key. Never run by a check."""
import importlib, json, sys
sys.path.insert(0, "/verif"); sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
from pathlib import Path
from vlib import Trial
prop, name = sys.argv[1:3]
f = "/verif/known_findings.json"; d = json.load(open(f))
m = importlib.import_module("checks." + prop.lower())
test = [t for t in m.CHECK.tests if t.name == name][0]
have = {(x["property"], x.get("key")) for x in d["findings"]}
for c in test.exhaustive("quick"):
    t = Trial(Path("/tmp"))
    try: test.body(c, t)
    except Exception as e:
        print(repr(c), "|", str(e)[:200], "|", getattr(e, "key", None))
        if "-w" in sys.argv and getattr(e, "key", None) and (prop, e.key) not in have:
            d["findings"].append(dict(property=prop, status="known", test=name, case=repr(c), key=e.key, what=str(e)))
    finally: t.close()
if "-w" in sys.argv: json.dump(d, open(f, "w"), indent=1)
