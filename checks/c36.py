"""C36: package metadata files. Oracle: the saved values (round trip), and the readers of the standard library (importlib.metadata) and of packaging."""
import importlib.metadata
import textwrap

from hypothesis import strategies as st
from packaging.metadata import parse_email
from packaging.specifiers import SpecifierSet
from packaging.version import Version as PVersion

from vlib import Check
from pkm.api.dependencies.dependency import Dependency
from pkm.api.packages.package_metadata import PackageMetadata
from pkm.api.versions.version import Version
from pkm.api.versions.version_specifiers import VersionSpecifier

CHECK = Check("C36", "metadata records with multi-line and non-ASCII texts, long lines, lists of every size, and files in the styles of other tools (folded lines, header case, description as header or payload); "
                     "non-trivial = a text that needs folding or an encoding, or a list of several values", workers=6)

word = st.sampled_from(["a", "pkg", "Some", "é", "日本", "x" * 90, "1.0", "a:b", "#", "=?utf-8?q?x?=", "<b>", '"q"', "a,b", "%", "--", "\\"])
line = st.lists(word, min_size=1, max_size=20).map(" ".join)
para = st.one_of(line, st.lists(st.one_of(line, st.just(""), st.tuples(st.sampled_from(["  ", "\t", "        ", "- "]), line).map("".join), st.sampled_from(["Name: other", "From x", "--- boundary", ".", "|x", "=="])), min_size=2, max_size=6).map("\n".join))
description = st.one_of(st.just(""), para, st.tuples(para, st.sampled_from(["\n", "\n\n"])).map("".join), st.tuples(st.sampled_from(["\n", "  ", "# "]), para).map("".join)).map(lambda s: s if s.strip() else "")
dedented = para.map(lambda s: "\n".join(x.strip() for x in s.strip().split("\n")))  # a text whose inner indentation does not matter

dep = st.sampled_from(["a", "a >=1.0", "b[x,y] <2.0,>=1", "c ; python_version >= '3.8'", "d >=1 ; extra == 'dev'", "e[z] ==1.* ; sys_platform == 'linux' and extra == 'x'", "f @ https://h/f-1.0.zip", "g != 3.0.*,>=2"])
spec = st.sampled_from([None, ">=3.8", "<4,>=3.7", "!=3.0.*,!=3.1.*,>=2.7", ">=3.8,<4,!=3.9.*", "==3.*", "~=3.8", "!=3.9.1,>=3.8", ">=3.8.1,<4.0.0"])
MULTI = ["Platform", "Supported-Platform", "Classifier", "Provides-Dist", "Obsoletes-Dist", "Requires-External", "Project-URL", "Provides-Extra", "License-File"]
SINGLE = ["Author", "Author-email", "Maintainer", "Maintainer-email", "Home-page", "Download-URL", "Description-Content-Type", "Keywords", "License"]
record = st.fixed_dictionaries({
    "name": st.sampled_from(["a", "My.Pkg", "x-y_z"]), "version": st.sampled_from(["1.0", "1!2.0rc1.post1.dev2+local.1", "0"]), "summary": st.one_of(st.none(), line), "description": st.one_of(st.none(), description),
    "deps": st.lists(dep, max_size=4), "python": spec, "single": st.dictionaries(st.sampled_from(SINGLE), line, max_size=5), "license": st.one_of(st.none(), dedented),
    "multi": st.dictionaries(st.sampled_from(MULTI), st.lists(line, min_size=1, max_size=3), max_size=4).map(
        lambda m: {k: [f"label {i}, {x}" for i, x in enumerate(v)] if k == "Project-URL" else v for k, v in m.items()})})


def dep_key(d):
    return str(Dependency.parse(str(d)))


def nontrivial(c):
    return any(len(x) > 76 or not x.isascii() or "\n" in x for x in [c["summary"] or "", c["description"] or "", c["license"] or "", *c["single"].values()]) or len(c["deps"]) > 1 or any(len(x) > 1 for x in c["multi"].values())


PYTHONS = [PVersion(v) for v in ("2.7", "3.0", "3.0.5", "3.1", "3.7", "3.7.9", "3.8", "3.8.1", "3.9", "3.9.1", "3.9.7", "3.10", "3.11.2", "4.0", "4.0.1")]


def reading(m):
    left = {k: v for k, v in (m.leftovers or {}).items() if v not in ("", [], None)}
    return {"name": m.package_name, "version": str(m.package_version), "summary": m.summary or "", "description": m.description or "", "deps": [dep_key(d) for d in m.dependencies],
            "python": [str(v) for v in PYTHONS if m.required_python_spec.allows_version(Version.parse(str(v)))], "left": left}


def expected(c):
    left = dict(c["single"])
    left.update(c["multi"])
    if c["license"]:
        left["License"] = c["license"]
    return {"name": c["name"], "version": c["version"], "summary": c["summary"] or "", "description": c["description"] or "", "deps": [dep_key(d) for d in c["deps"]],
            "python": [str(v) for v in PYTHONS if c["python"] is None or SpecifierSet(c["python"]).contains(v, prereleases=True)], "left": left}


def same(got, want, t, what, key):
    for k, w in want.items():
        g = got[k]
        if k == "description":
            g, w = g.rstrip("\n"), w.rstrip("\n")
        if k == "left":
            g = {x: ([v] if x in MULTI and isinstance(v, str) else v) for x, v in g.items()}
        t.check(g == w, f"{what}, {k} is {g!r} instead of {w!r}", key=key)


def std_reading(text, folder):
    """importlib.metadata's reading of the file"""
    return importlib.metadata.PathDistribution(folder).metadata


def specifier(text, t):
    try:
        return SpecifierSet(text)
    except ValueError as e:
        t.fail(f"packaging refuses the range of interpreters: {e}", key="python")


@CHECK.test("round trip", record, quick=900, thorough=12000)
def check_round_trip(case, t):
    f = t.scratch() / "x-1.dist-info" / "METADATA"
    left = dict(case["single"])
    left.update(case["multi"])
    if case["license"]:
        left["License"] = case["license"]
    m = PackageMetadata(Version.parse("2.1"), case["name"], Version.parse(case["version"]), case["summary"], case["description"], [Dependency.parse(d) for d in case["deps"]],
                        **({"required_python_spec": VersionSpecifier.parse(case["python"])} if case["python"] else {}))
    m.leftovers = {k: list(v) if isinstance(v, list) else v for k, v in left.items()}
    t.nontrivial(nontrivial(case))
    want = expected(case)
    m.save(f)
    text = f.read_text("utf-8")
    same(reading(PackageMetadata.load(f)), want, t, "read back", "round trip")
    again = PackageMetadata.load(f)
    again.save()
    same(reading(PackageMetadata.load(f)), want, t, "read back after another save", "round trip")
    # other readers
    std = std_reading(text, f.parent)
    t.eq(std.get_all("Requires-Dist") and [dep_key(d) for d in std.get_all("Requires-Dist")] or [], want["deps"], "the requirements for importlib.metadata", key="other reader")
    t.eq((std["Name"], std["Version"], std["Summary"] or ""), (want["name"], want["version"], want["summary"]), "name, version and summary for importlib.metadata", key="other reader")
    for k, v in want["left"].items():
        t.eq(std.get_all(k), v if isinstance(v, list) else [v], f"{k} for importlib.metadata", key="other reader")
    t.eq((std["Description"] or "").rstrip("\n"), want["description"].rstrip("\n"), "the description for importlib.metadata", key="other reader")
    raw, rest = parse_email(text)
    t.check(not rest, f"packaging cannot read {rest}", key="other reader")
    t.eq((raw.get("summary") or "", [dep_key(d) for d in raw.get("requires_dist", [])]), (want["summary"], want["deps"]), "summary and requirements for packaging", key="other reader")
    if case["python"]:
        s = specifier(raw["requires_python"], t)
        t.eq([str(v) for v in PYTHONS if s.contains(v, prereleases=True)], want["python"], "the interpreters for packaging", key="python")
    else:
        t.check(specifier(raw.get("requires_python") or "", t) == SpecifierSet(""), f"all interpreters are written as {raw.get('requires_python')!r}", key="python")


style = st.fixed_dictionaries({"end": st.sampled_from(["\n", "\n", "\r\n"]), "case": st.sampled_from(["as is", "as is", "lower", "upper"]), "where": st.sampled_from(["payload", "header", "pipe"]), "delim": st.sampled_from([": ", ": ", ":", ":  "]),
                               "version": st.sampled_from(["1.2", "2.1", "2.3"]), "order": st.randoms(use_true_random=False).map(lambda r: r.random())})


@CHECK.test("files of other tools", st.tuples(record, style), quick=900, thorough=12000)
def check_foreign(case, t):
    c, s = case
    end, delim = s["end"], s["delim"]
    case_ = {"as is": str, "lower": str.lower, "upper": str.upper}[s["case"]]
    headers = [("Name", c["name"]), ("Version", c["version"])]
    if c["summary"]:
        headers.append(("Summary", c["summary"]))
    headers += [("Requires-Dist", d) for d in c["deps"]]
    headers += list(c["single"].items())
    if c["license"]:
        headers = [h for h in headers if h[0] != "License"] + [("License", c["license"])]
    headers += [(k, v) for k, vs in c["multi"].items() for v in vs]
    if c["python"]:
        headers.append(("Requires-Python", c["python"]))
    desc = c["description"] or ""
    if s["where"] != "payload" and desc:
        desc = "\n".join(x.strip() for x in desc.strip().split("\n"))
        headers.append(("Description", desc))
    if s["order"] > 0.5:
        headers.sort(key=lambda h: h[0][::-1])  # stable: fields with several values keep their order

    def fold(k, v):
        return v.replace("\n", end + (" " * 7 + "|" if s["where"] == "pipe" and k == "Description" else " " * 8))

    text = case_("Metadata-Version") + delim + s["version"] + end + "".join(case_(k) + delim + fold(k, v) + end for k, v in headers)
    if s["where"] == "payload" and desc:
        text += end + desc.replace("\n", end)
    f = t.scratch() / "x-1.dist-info" / "METADATA"
    f.parent.mkdir()
    f.write_bytes(text.encode("utf-8"))
    t.nontrivial(nontrivial(c) or s["case"] != "as is")
    want = expected({**c, "description": desc})
    m = PackageMetadata.load(f)
    t.eq(str(m.metadata_version), s["version"], "the version of the format", key="foreign")
    got = reading(m)
    got["description"] = got["description"].replace("\r\n", "\n")
    got["left"] = {k: v.replace("\r\n", "\n") if isinstance(v, str) else v for k, v in got["left"].items()}
    same(got, want, t, f"reading a file of another tool ({s})", "foreign")




person = st.fixed_dictionaries({}, optional={"name": st.sampled_from(["Ann", "J. Doe", "Müller, Jürgen", 'A "B" C', "日本", "O'Neil", "a@b"]), "email": st.sampled_from(["a@x.org", "b@x.org", "c.d@x.org"])}).filter(bool)


def people(header):
    import email.utils
    return email.utils.getaddresses([header], strict=False) if header else []


@CHECK.test("people", st.tuples(st.lists(person, max_size=3), st.lists(person, max_size=3), st.lists(st.sampled_from(["k1", "k2 x", "é"]), max_size=3), st.dictionaries(st.sampled_from(["home page", "Docs"]), st.sampled_from(["https://x.org/?a=1", "http://y"]), max_size=2),
                                st.one_of(st.none(), line), st.lists(st.sampled_from(["Topic :: X", "License :: OSI"]), max_size=2)), quick=500, thorough=6000)
def check_people(case, t):
    authors, maintainers, keywords, urls, summary, classifiers = case
    from pkm.api.projects.pyproject_configuration import PyProjectConfiguration
    from pkm.config import toml
    d = t.scratch()
    project = {"name": "p", "version": "1.0", "authors": authors, "maintainers": maintainers, "keywords": keywords, "urls": urls, "classifiers": classifiers}
    if summary:
        project["description"] = summary
    (d / "pyproject.toml").write_text(toml.dumps({"project": project}), "utf-8")
    config = PyProjectConfiguration.load(d / "pyproject.toml")
    f = d / "x-1.dist-info" / "METADATA"
    PackageMetadata.from_project_config(config.project).save(f)
    t.nontrivial(bool(authors or maintainers or urls or keywords))
    std = importlib.metadata.PathDistribution(f.parent).metadata
    for who, header in ((authors, "Author"), (maintainers, "Maintainer")):
        # PEP 621: only a name -> Author, only an e-mail -> Author-email, both -> Author-email as "name <email>"
        t.check(len(std.get_all(header) or []) <= 1 and len(std.get_all(header + "-email") or []) <= 1, f"{header} is given more than once", key="people")
        names = [p["name"] for p in who if "email" not in p]
        t.check((std[header] or "") == ", ".join(names), f"{header} is {std[header]!r}, expected the names {names}", key="people")
        want = [(p.get("name", ""), p["email"]) for p in who if "email" in p]
        t.eq(people(std[header + "-email"]), want, f"{header}-email, from {std[header + '-email']!r}", key="people")
    t.eq([k.strip() for k in (std["Keywords"] or "").split(",") if k], keywords, "the keywords", key="keywords")
    t.check(len(std.get_all("Keywords") or []) <= 1, "keywords are given more than once", key="keywords")
    t.eq(dict(tuple(x.strip() for x in u.split(",", 1)) for u in std.get_all("Project-URL") or []), urls, "the urls", key="urls")
    t.eq((std["Summary"] or "", std.get_all("Classifier") or []), (summary or "", classifiers), "summary and classifiers", key="summary")
