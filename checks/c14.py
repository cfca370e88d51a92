"""C14: tampered and malformed wheels. Oracle: a valid generated wheel with one mutation that the wheel format forbids must be refused and leave everything as it was."""
import csv
import importlib
import io

from hypothesis import strategies as st

import wheelkit as wk
from vlib import Check

c12 = importlib.import_module("checks.c12")
c13 = importlib.import_module("checks.c13")

CHECK = Check("C14", "one forbidden mutation of a generated valid wheel: of a file, of the record, of the metadata, of the layout, or of a name so that it leads "
                     "outside; non-trivial = the mutation applies to the wheel and the wheel installs without it", workers=6)

OUTSIDE = ["../evil.py", "../../evil.py", "../../../../evil.py", "pkg/../../evil.py", "/tmp-evil/evil.py", "..\\evil.py", "./../evil.py"]
mutation = st.one_of(
    st.tuples(st.sampled_from(["change", "grow", "swap", "add", "remove", "drop line", "blank hash", "other hash", "hash of other", "unknown algorithm", "add data", "truncate hash", "lookalike", "directory line"]), st.integers(0, 30), st.integers(0, 5)),
    st.tuples(st.sampled_from(["no RECORD", "no METADATA", "no WHEEL", "no dist-info", "empty METADATA", "other name", "other version", "other dir", "other dir version", "no name", "no version", "two dist-info", "wheel 2", "wheel version", "dist-info file", "wheel text"]),
              st.integers(0, 30), st.integers(0, 5)),
    st.tuples(st.sampled_from(["outside", "outside recorded", "outside data", "outside entry", "outside entry", "outside gui entry", "outside record"]), st.integers(0, 30), st.integers(0, 5)),
)


def mutate(s, m):
    """content, record text and file name of the mutated wheel, None when it does not apply"""
    kind, i, j = m
    info = wk.dist_info_name(s)
    record_path = f"{info}/RECORD"
    content = dict(wk.members(s))
    plain = sorted(p for p in content if not p.startswith(info + "/"))
    recorded = sorted(p for p in content if not p.endswith(("RECORD.jws", "RECORD.p7s")))
    alg = s["alg"]

    def record(c):
        return wk.record_text(c, record_path, alg, s["crlf"])

    original = record(content)
    rows = list(csv.reader(io.StringIO(original)))

    def text(rows):
        out = io.StringIO()
        csv.writer(out, lineterminator="\n").writerows(rows)
        return out.getvalue()

    p = plain[i % len(plain)] if plain else None
    row = next((r for r in rows if r[0] == p), None)
    if kind in ("change", "grow", "swap", "drop line", "blank hash", "other hash", "hash of other", "unknown algorithm", "truncate hash") and row is None:
        return None
    if kind == "change":
        data = bytearray(content[p] or b"x")
        data[j % len(data)] ^= 1 if content[p] else 0
        content[p] = bytes(data)
        return content, original
    if kind == "grow":
        content[p] += [b"\n", b" ", b"\x00", b"# x", b"a" * 10000, b"\r"][j]
        return content, original
    if kind == "swap":
        q = plain[(i + 1 + j) % len(plain)]
        if content[p] == content[q]:
            return None
        content[p], content[q] = content[q], content[p]
        return content, original
    if kind == "add":
        q = ["extra.py", "pkg/extra.py", "extra", f"{info}/extra.txt", "deep/er/extra.txt", "extra.pth"][j]
        if q in content or c12.conflicts([*content, q]):
            return None
        content[q] = b"added"
        return content, original
    if kind == "lookalike":
        q = [f"pkg/{info}/file.txt", f"{info}.bak/file.txt", f"x{info}/file.txt", f"pkg/other-1.0.dist-info/METADATA", f"pkg/x.dist-info/deep/er.py", f"{info[:-10]}.dist-info2/a.py"][j]
        if c12.conflicts([*content, q]):
            return None
        content[q] = b"good"
        original = record(content)
        content[q] = [b"evil", b"good\n", b""][i % 3]
        return content, original
    if kind == "directory line":
        parents = sorted({q.rpartition("/")[0] for q in content if "/" in q})
        return content, text(rows + [[parents[i % len(parents)] + "/" * (j % 2), wk.digest(b"", alg), "0"]])
    if kind == "add data":
        q = info[:-len(".dist-info")] + ".data/" + ["scripts/added", "purelib/added.py", "data/added", "platlib/added.so", "headers/added.h", "scripts/a/b"][j]
        if q in content or c12.conflicts([*content, q]):
            return None
        content[q] = b"added"
        return content, original
    if kind == "remove":
        q = recorded[i % len(recorded)]
        del content[q]
        return content, original
    if kind == "drop line":
        return content, text([r for r in rows if r[0] != p])
    if kind == "blank hash":
        row[1] = ""
        return content, text(rows)
    if kind == "other hash":
        row[1] = wk.digest(b"other" + content[p], alg)
        return content, text(rows)
    if kind == "hash of other":
        q = plain[(i + 1 + j) % len(plain)]
        if content[q] == content[p]:
            return None
        row[1] = wk.digest(content[q], alg)
        return content, text(rows)
    if kind == "unknown algorithm":
        row[1] = ["md6", "sha", "none", "crc32", "sha-256", "__name__"][j] + "=" + row[1].split("=")[1]
        return content, text(rows)
    if kind == "truncate hash":
        row[1] = [row[1][:-1], row[1] + "A", row[1].split("=")[0] + "=", row[1].split("=")[1], row[1].swapcase() if row[1].swapcase().split("=")[1] != row[1].split("=")[1] else row[1] + "x", row[1][:12]][j]
        return content, text(rows)
    if kind == "no RECORD":
        return content, False
    if kind == "no METADATA":
        del content[f"{info}/METADATA"]
        return content, record(content)
    if kind == "no WHEEL":
        del content[f"{info}/WHEEL"]
        return content, record(content)
    if kind == "no dist-info":
        content = {q: c for q, c in content.items() if not q.startswith(info + "/")}
        return content, False
    if kind == "empty METADATA":
        content[f"{info}/METADATA"] = [b"", b"\n", b"garbage", b"Metadata-Version: 2.1\n", b"\xff\xfe", b"Summary: x\n"][j]
        return content, record(content)
    if kind in ("other name", "other version", "no name", "no version"):
        d = dict(s)
        if kind == "other name":
            d["name"] = ["other", s["name"] + "x", "x" + s["name"], s["name"][:-1] + "q", s["name"] + "-2", "other.pkg"][j]
        elif kind == "other version":
            d["version"] = ["9.9", "1.0.1", "1.0.dev1", "1!1.0", "1.0.post9", "0"][j]
        body = wk.metadata_text(d)
        if kind == "no name":
            body = body.replace(f"Name: {s['name']}\n", "")
        elif kind == "no version":
            body = body.replace(f"\nVersion: {s['version']}\n", "\n")
        content[f"{info}/METADATA"] = body.encode()
        return content, record(content)
    if kind in ("other dir", "other dir version"):
        d = dict(s)
        if kind == "other dir":
            d["name"] = ["other", s["name"] + "x", "x" + s["name"], s["name"][:-1] + "q", s["name"] + "_2", "other.pkg"][j]
        else:
            d["version"] = ["9.9", "1.0.1", "1.0.dev1", "1!1.0", "1.0.post9", "0"][j]
        new = wk.dist_info_name(d)
        content = {(new + q[len(info):] if q.startswith(info + "/") else q): c for q, c in content.items()}
        content[f"{new}/METADATA"] = wk.metadata_text(d).encode()
        return {**content, f"{new}/RECORD": wk.record_text(content, f"{new}/RECORD", alg).encode()}, False
    if kind == "two dist-info":
        content["other-1.0.dist-info/METADATA"] = b"Metadata-Version: 2.1\nName: other\nVersion: 1.0\n"
        return content, record(content)
    if kind == "wheel 2":
        content[f"{info}/WHEEL"] = content[f"{info}/WHEEL"].replace(b"Wheel-Version: 1.0", [b"Wheel-Version: 2.0", b"Wheel-Version: 3.1", b"Wheel-Version: 0.9", b"Wheel-Version: 10.0", b"Wheel-Version: 2", b"Wheel-Version: 1!2.0"][j])
        return content, record(content)
    if kind == "wheel version":
        content[f"{info}/WHEEL"] = content[f"{info}/WHEEL"].replace(b"Wheel-Version: 1.0", [b"Wheel-Version: x", b"Wheel-Version: ", b"Wheel-Version", b"Wheel-Version: one.two", b"Wheel-Version: -1", b"Wheel-Version: v"][j])
        return content, record(content)
    if kind == "wheel text":
        content[f"{info}/WHEEL"] = [b"", b"\n\n", b"garbage", b"Generator: x\n", b"\xff\xfe", b"Root-Is-Purelib: true\n"][j]
        return content, record(content)
    if kind == "dist-info file":
        content = {q: c for q, c in content.items() if not q.startswith(info + "/")}
        content[info] = b"a file"
        return content, False
    target = OUTSIDE[i % len(OUTSIDE)]
    if kind == "outside":
        content[target] = b"evil"
        return content, original
    if kind == "outside recorded":
        content[target] = b"evil"
        return content, record(content)
    if kind == "outside record":
        return content, text(rows + [[target, wk.digest(b"evil", alg), "4"]])
    if kind == "outside data":
        q = info[:-len(".dist-info")] + ".data/" + ["scripts", "purelib", "data", "..", "scripts/../..", "headers/.."][j] + "/" + target.lstrip("/")
        content[q] = b"evil"
        return content, original if j % 2 else record(content)
    if kind in ("outside entry", "outside gui entry"):
        group = "console_scripts" if kind == "outside entry" else "gui_scripts"
        n = ["../evil", "../../evil", "../lib/evil", "/{root}/../evil", "sub/../../evil", ".."][j]
        content[f"{info}/entry_points.txt"] = f"[{group}]\n{n} = pkg:main\n".encode()
        return content, record(content)
    raise AssertionError(kind)


@CHECK.test("tamper", st.tuples(c12.specs(), mutation, st.sampled_from(sorted(wk.LAYOUTS))).filter(lambda c: c12.valid(c[0], c[2]) and mutate(c[0], c[1]) is not None), quick=1500, thorough=30000)
def check_tamper(case, t):
    s, m, layout = case
    scratch = t.scratch()
    outer = scratch / "outer"
    root = outer / "a" / "b" / "root"
    wk.target(root, layout)
    content, record = mutate(s, m)
    for p in list(content):
        if p.endswith("entry_points.txt"):
            content[p] = content[p].replace(b"/{root}", str(root).encode())
            if m[0].startswith("outside") and m[0].endswith("entry"):
                info = wk.dist_info_name(s)
                record = wk.record_text(content, f"{info}/RECORD", s["alg"])
    wheel = wk.write_wheel(scratch / "dist", s, content, record)
    before = wk.snapshot(outer)
    before_all = {p for p in wk.snapshot(scratch) if not p.startswith("outer/")}
    failure, f = c13.attempt(root, s, layout, wheel, None, None)
    after = wk.snapshot(outer)
    t.label(m[0])
    t.nontrivial(True)
    t.eq({p for p in wk.snapshot(scratch) if not p.startswith("outer/")}, before_all, "files outside of the installation")
    if m[0] in ("outside", "outside recorded", "outside data") and failure is None:
        # the unpacking may keep such names inside: nothing may be outside of the target
        t.eq({p for p in after if not p.startswith("a/b/root")}, {p for p in before if not p.startswith("a/b/root")}, "files outside of the target")
        return
    t.check(failure is not None, f"a wheel with the mutation {m} was installed: {wk.difference(before, after)[:300]}", key="accepted: " + m[0])
    t.check(after == before, f"a wheel with the mutation {m} was refused ({failure!r}), {wk.difference(before, after)[:300]}", key="changed")


@CHECK.test("dist-info", st.tuples(c12.specs(), st.integers(0, 20), st.sampled_from(["grow", "other hash"])).filter(lambda c: c12.valid(c[0], "venv")), quick=200, thorough=4000)
def check_dist_info(case, t):
    """a file of the dist-info folder that disagrees with the record is at least warned about, and the installed record is true"""
    s, i, kind = case
    info = wk.dist_info_name(s)
    content = dict(wk.members(s))
    names = sorted(p for p in content if p.startswith(info + "/") and not p.endswith(("RECORD.jws", "RECORD.p7s")))
    p = names[i % len(names)]
    record = wk.record_text(content, f"{info}/RECORD", s["alg"])
    content[p] += b"\n"
    scratch = t.scratch()
    root = scratch / "root"
    wk.target(root)
    before = wk.snapshot(root)
    wheel = wk.write_wheel(scratch / "dist", s, content, record)
    import warnings
    from pkm.api.distributions.wheel_distribution import WheelDistribution
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter("always")
        try:
            WheelDistribution(wk.descriptor(s), wheel).install_to(wk.target(root, "venv", make=False))
        except OSError:
            t.label("refused")
            t.check(wk.snapshot(root) == before, "a refused wheel changed the target", key="changed")
            return
    t.nontrivial(True)
    t.check(any("mismatch" in str(w.message) for w in caught), f"{p} disagrees with the record and nothing was said", key="silent")
    site = root / wk.LAYOUTS["venv"]["purelib"]
    for row in wk.read_record(site / info / "RECORD"):
        q = site / row[0]
        if row[1]:
            t.eq(row[1], wk.digest(q.read_bytes(), row[1].split("=")[0]), f"recorded hash of {row[0]}", key="hash")
