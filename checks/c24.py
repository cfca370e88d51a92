"""C24: built distributions. Oracle: the project's files and tables as generated; archives are read with zipfile, tarfile, csv, hashlib, importlib.metadata and packaging."""
import base64
import csv
import hashlib
import importlib
import importlib.metadata
import io
import os
import shutil
import subprocess
import sys
import tarfile
import tomllib
import zipfile
from pathlib import Path

from hypothesis import strategies as st
from packaging.specifiers import SpecifierSet
from packaging.utils import canonicalize_name, parse_sdist_filename, parse_wheel_filename
from packaging.version import Version as PVersion

import wheelkit
from vlib import Check
from pkm.api.projects.project import Project

c20 = importlib.import_module("checks.c20")

CHECK = Check("C24", "projects with nested packages, data files, foreign directories, listed packages, text files outside the packages and every project field, built to wheel, source archive, editable wheel and metadata, directly and from the unpacked source archive; "
                     "non-trivial = several packages or files that must be left out", workers=6)

data = st.one_of(st.sampled_from(["", "x = 1\n", "é\n", "a\r\nb\r\n"]), st.binary(max_size=40).map(lambda b: b.decode("latin-1")))
inner = st.sampled_from(["__init__.py", "mod.py", "sub/__init__.py", "sub/deep/x.py", "data.txt", "py.typed", "data/with space.bin", "é.txt", ".hidden", "sub/.keep", "tests/test_a.py", "RECORD", "METADATA", "etc/x.py", "dist/y.py", "a.egg-info.txt", "src/z.py"])
junk = st.sampled_from(["__pycache__/mod.cpython-312.pyc", "sub/__pycache__/x.pyc"])
package = st.tuples(st.dictionaries(inner, data, min_size=1, max_size=5), st.dictionaries(junk, data, max_size=1))
TOP_JUNK = [".git/config", "__pycache__/m.pyc", "x.egg-info/PKG-INFO", ".venv/lib/site.py", "x_1-1.0.dist-info/METADATA"]
names = st.sampled_from(["a", "pkg_b", "ns", "C", "tests_x"])
layout = st.one_of(
    st.fixed_dictionaries({"kind": st.just("src"), "packages": st.dictionaries(names, package, max_size=3), "junk": st.lists(st.sampled_from(TOP_JUNK), max_size=2, unique=True), "out": st.lists(st.sampled_from(["docs/x.md", "tests/test.py", "a/no.py", "etc/pkm/environments.toml"]), max_size=2, unique=True)}),
    st.fixed_dictionaries({"kind": st.just("flat"), "packages": st.dictionaries(names, package, min_size=1, max_size=3), "junk": st.lists(st.sampled_from(TOP_JUNK), max_size=2, unique=True), "out": st.lists(st.sampled_from(["etc/pkm/environments.toml", "dist/1.0/old.whl"]), max_size=2, unique=True)}),
    st.fixed_dictionaries({"kind": st.just("listed"), "packages": st.dictionaries(names, package, min_size=1, max_size=3), "where": st.lists(st.sampled_from(["", "src/", "lib/py/", "./"]), min_size=3, max_size=3), "junk": st.just([]), "out": st.lists(st.sampled_from(["src/other/no.py", "other/no.py", "lib/py/mod.py", "docs/x.md"]), max_size=3, unique=True)}))
fields = c20.project.map(lambda p: {k: v for k, v in p.items() if k not in ("dynamic", "license-files")})
spec = st.sampled_from([None, ">=3.8", "<4,>=3.7", ">=2.7", "<4", "!=3.0.*,>=2.7", "==3.*", ">=3", ">3.6.1", "~=3.8", ">=2.7,!=3.0.*,!=3.1.*", "==2.7.*", "!=3.5"])
scene = st.fixed_dictionaries({"layout": layout, "project": fields, "version": st.sampled_from(["1.0", "0.1.0rc1", "1!3.0.post1", "1.2.3.dev4", "1.0+loc.1"]), "python": spec, "old": st.booleans(), "cwd": st.booleans(), "hooks": st.booleans(), "target": st.booleans()})


def nontrivial(s):
    lay = s["layout"]
    return len(lay["packages"]) > 1 or bool(lay["junk"] or lay["out"]) or any(p[1] for p in lay["packages"].values())


def location(lay, i, name):
    return {"src": "src/", "flat": "", "listed": lay.get("where", [""] * 3)[i]}[lay["kind"]] + name


def lay_out(s, t):
    """writes the project; returns (its directory, the files its wheel should carry)"""
    root = t.scratch() / "the project"
    lay = s["layout"]
    files, want = {}, {}
    for i, (name, (content, garbage)) in enumerate(sorted(lay["packages"].items())):
        for p, c in content.items():
            files[f"{location(lay, i, name)}/{p}"] = want[f"{name}/{p}"] = c.encode("utf-8", "surrogateescape")
        for p, c in garbage.items():
            files[f"{location(lay, i, name)}/{p}"] = c.encode()
    for p in lay["junk"]:
        files[("src/" if lay["kind"] == "src" else "") + p] = b"junk"
    for p in lay["out"]:
        files.setdefault(p, b"[x]\n")
    if lay["kind"] == "src":
        files["src/single.txt"] = b"not a package"
    files.update({"README.md": "# é readme\n".encode(), "README.rst": b"Readme\n======\n", "docs/LONG.txt": b"long\n\ntext", "LICENSE": "licensed é".encode(), "setup.txt": b"y"})
    if lay["kind"] == "flat":  # every directory of a flat project is a package of it
        want["docs/LONG.txt"] = b"long\n\ntext"
    for p, c in files.items():
        f = root / p
        f.parent.mkdir(parents=True, exist_ok=True)
        f.write_bytes(c)
        if s["old"]:
            os.utime(f, (86400, 86400))
    doc = {"project": {**s["project"], "version": s["version"]}, "build-system": {"requires": ["pkm"], "build-backend": "pkm.api.buildsys"}, "tool": {"other": {"k": [1, "v"]}}}
    doc["project"].pop("requires-python", None)
    if s["python"]:
        doc["project"]["requires-python"] = s["python"]
    if lay["kind"] == "listed":
        doc["tool"]["pkm"] = {"project": {"packages": [location(lay, i, n) for i, n in enumerate(sorted(lay["packages"]))]}}
    c20.write(doc, [0, 1, 2], root / "pyproject.toml")
    return root, want, doc


def zip_members(path):
    with zipfile.ZipFile(path) as z:
        return {i.filename: z.read(i) for i in z.infolist() if not i.is_dir()}


def verify_wheel(path, s, doc, want, t, what):
    prj = doc["project"]
    name, version, build, tags = parse_wheel_filename(path.name)
    t.check(name == canonicalize_name(prj["name"]) and version == PVersion(s["version"]), f"{what} is named {path.name}", key="file name")
    have = zip_members(path)
    info = {m.split("/")[0] for m in have if m.split("/")[0].endswith(".dist-info")}
    t.check(len(info) == 1, f"{what} has the metadata directories {info}", key="metadata")
    info = info.pop()
    t.check(path.name.startswith(info[:-len("dist-info") - 1] + "-"), f"{what} {path.name} has the metadata directory {info}", key="file name")
    content = {k: v for k, v in have.items() if not k.startswith(info + "/")}
    if want is not None:
        extra, missing = sorted(set(content) - set(want)), sorted(set(want) - set(content))
        t.check(not extra and not missing, f"{what} carries {extra} and lacks {missing}", key="content")
        t.check(content == want, f"{what} has another content of {[k for k in want if content[k] != want[k]]}", key="content")
    # record
    rows = list(csv.reader(io.StringIO(have[f"{info}/RECORD"].decode("utf-8"))))
    recorded = {r[0]: (r[1], r[2]) for r in rows if r[0] != f"{info}/RECORD"}
    t.eq(sorted(recorded), sorted(m for m in have if m != f"{info}/RECORD"), f"the files in the record of {what}", key="record")
    for m, (h, n) in recorded.items():
        t.check(h == "sha256=" + base64.urlsafe_b64encode(hashlib.sha256(have[m]).digest()).decode().rstrip("=") and n == str(len(have[m])), f"the record of {m} in {what} is {h}, {n}", key="record")
    # tags: every interpreter of the range that this major version can run
    lines = have[f"{info}/WHEEL"].decode().splitlines()
    t.eq(sorted(x[5:] for x in lines if x.startswith("Tag: ")), sorted(str(x) for x in tags), f"the tags in {what}", key="tags")
    t.check("Wheel-Version: 1.0" in lines and "Root-Is-Purelib: true" in [x.replace("True", "true") for x in lines], f"the wheel file of {what} is {lines}", key="tags")
    admitted = SpecifierSet(s["python"] or "")
    for minor in range(5, 14):
        # what a CPython 3.minor accepts of pure wheels (PEP 425)
        accepts = {f"py3{m}-none-any" for m in range(minor + 1)} | {"py3-none-any"}
        if all(admitted.contains(f"3.{minor}.{micro}") for micro in (0, 5, 30)):
            t.check(any(str(x) in accepts for x in tags), f"{path.name} cannot be installed on python 3.{minor}, which {s['python']!r} admits", key="tags")
    verify_metadata(have[f"{info}/METADATA"], have.get(f"{info}/entry_points.txt", b""), s, doc, t, what)
    return content, {k.split("/", 1)[1]: v for k, v in have.items() if k.startswith(info + "/")}


def verify_metadata(metadata, entry_points, s, doc, t, what):
    prj = doc["project"]
    folder = t.scratch() / f"m{len(list(t.scratch().iterdir()))}" / "x-1.dist-info"
    folder.mkdir(parents=True)
    (folder / "METADATA").write_bytes(metadata)
    (folder / "entry_points.txt").write_bytes(entry_points)
    dist = importlib.metadata.PathDistribution(folder)
    m = dist.metadata
    t.check(canonicalize_name(m["Name"]) == canonicalize_name(prj["name"]) and PVersion(m["Version"]) == PVersion(s["version"]), f"the metadata of {what} is of {m['Name']} {m['Version']}", key="metadata")
    t.eq((m["Summary"] or "").split(), prj.get("description", "").split(), f"the words of the summary in {what}", key="metadata")
    got = [(c20.dep_meaning(d)[:4], c20.applicability(c20.Requirement(d).marker)) for d in m.get_all("Requires-Dist") or []]
    t.check(sorted(got, key=str) == sorted(c20.requirement_model(prj), key=str), f"the requirements in {what} are {m.get_all('Requires-Dist')}", key="metadata")
    spec_ = SpecifierSet(m["Requires-Python"] or "")
    want_spec = SpecifierSet(s["python"] or "")
    t.check(all(spec_.contains(v, prereleases=True) == want_spec.contains(v, prereleases=True) for v in c20.SAMPLES), f"the interpreters in {what} are {m['Requires-Python']!r} for {s['python']!r}", key="metadata")
    r = prj.get("readme")
    if r is not None and r != "missing.md":
        r = {"file": r} if isinstance(r, str) else r
        content = r["text"] if "text" in r else {"README.md": "# é readme\n", "README.rst": "Readme\n======\n", "docs/LONG.txt": "long\n\ntext"}[r["file"]]
        t.eq((m["Description"] or "").rstrip("\n"), content.rstrip("\n"), f"the description in {what}", key="metadata")
        t.check("content-type" not in r or m["Description-Content-Type"] == r["content-type"], f"the type of the description in {what} is {m['Description-Content-Type']}", key="metadata")
    eps = [(g, n, v) for g, listed in prj.get("entry-points", {}).items() for n, v in listed.items()]
    eps += [("console_scripts", n, v) for n, v in prj.get("scripts", {}).items()] + [("gui_scripts", n, v) for n, v in prj.get("gui-scripts", {}).items()]
    t.check(sorted((e.group, e.name, e.value) for e in dist.entry_points) == sorted(eps), f"the entry points in {what} are {list(dist.entry_points)}", key="entry points")


def tree(root, skip=()):
    out = {}
    for f in sorted(root.rglob("*")):
        rel = f.relative_to(root).as_posix()
        if not f.is_dir() and not any(rel.startswith(x) for x in skip):
            out[rel] = (f.read_bytes(), f.stat().st_mode)
    return out


class Hooks:
    """builds as a front end does, by the hooks of the build backend, from the project's directory"""

    def __init__(self, root):
        self.root = root

    def run(self, hook, target):
        from pkm.api import buildsys
        cwd = os.getcwd()
        os.chdir(self.root)
        try:
            return Path(target) / getattr(buildsys, hook)(str(target))
        finally:
            os.chdir(cwd)


@CHECK.test("build", scene, quick=500, thorough=6000)
def check_build(case, t):
    s = case
    root, want, doc = lay_out(s, t)
    t.label(s["layout"]["kind"])
    t.nontrivial(nontrivial(s))
    before = tree(root)
    if s["cwd"]:
        cwd = os.getcwd()
        os.chdir(root)
        t.cleanup(lambda: os.chdir(cwd))
        prj = Project.load(Path("."))
    else:
        prj = Project.load(root)
    out = t.scratch() / "out" if s["target"] or s["hooks"] else None
    if s["hooks"]:
        out.mkdir()
        h = Hooks(root)
        sdist, wheel = h.run("build_sdist", out), h.run("build_wheel", out)
        meta = h.run("prepare_metadata_for_build_wheel", out)
    else:
        sdist, wheel = prj.build(out)
        meta = prj.build_wheel(t.scratch() / "meta", only_meta=True)
    t.check(sdist.is_file() and wheel.is_file() and sdist.parent.resolve() == wheel.parent.resolve() == (out or root / "dist" / str(prj.version)).resolve(), f"the archives were built at {sdist} and {wheel}", key="location")
    after = tree(root)
    made = {k for k in after if k not in before}
    t.check(all(after.get(k) == v for k, v in before.items()) and all(k.startswith("dist/") for k in made), f"building changed the project's files: {made} appeared, {[k for k, v in before.items() if after.get(k) != v]} changed", key="own files")
    content, info = verify_wheel(wheel, s, doc, want, t, "the wheel")
    # metadata only
    t.check(meta.is_dir() and meta.name.endswith(".dist-info"), f"the metadata was built at {meta}", key="metadata only")
    t.eq((meta / "METADATA").read_bytes(), info["METADATA"], "the metadata built alone", key="metadata only")
    t.eq((meta / "entry_points.txt").read_bytes() if (meta / "entry_points.txt").exists() else b"", info.get("entry_points.txt", b""), "the entry points built alone", key="metadata only")
    t.check(any(k.startswith(meta.name + "/") for k in zip_members(wheel)), f"the metadata directory is {meta.name}, the one in the wheel is not", key="metadata only")
    # the source archive
    name, version = parse_sdist_filename(sdist.name)
    t.check(name == canonicalize_name(doc["project"]["name"]) and version == PVersion(s["version"]), f"the source archive is named {sdist.name}", key="file name")
    unpacked = t.scratch() / "unpacked"
    with tarfile.open(sdist) as tar:
        tops = {m.name.split("/")[0] for m in tar.getmembers()}
        t.eq(tops, {sdist.name[:-len(".tar.gz")]}, "the top directory of the source archive", key="sdist")
        tar.extractall(unpacked, filter="data")
    top = unpacked / tops.pop()
    t.check((top / "pyproject.toml").is_file() and (top / "PKG-INFO").is_file(), "the source archive lacks its project file or metadata", key="sdist")
    verify_metadata((top / "PKG-INFO").read_bytes(), info.get("entry_points.txt", b""), s, doc, t, "the source archive")
    t.check((d := c20.difference(c20.meaning(tomllib.loads((top / "pyproject.toml").read_text("utf-8"))), c20.meaning(doc))) is None, f"in the project file of the source archive, {d}", key="sdist")
    have = {k: v[0] for k, v in tree(top).items()}
    for p, c in want.items():
        t.check(any(k == p or k.endswith("/" + p) for k, v in have.items() if v == c), f"{p} is not in the source archive", key="sdist")
    junk_ = [k for k in have if "__pycache__" in k or ".git/" in k or ".venv" in k or k.startswith("dist/")]
    t.check(not junk_, f"the source archive carries {junk_}", key="sdist")
    # a wheel from it
    again = Project.load(top)
    wheel2 = again.build_wheel(t.scratch() / "out2")
    t.eq(wheel2.name, wheel.name, "the name of the wheel built from the source archive", key="from sdist")
    content2, info2 = verify_wheel(wheel2, s, doc, None, t, "the wheel from the source archive")
    t.check(content2 == content, f"the wheel built from the source archive differs in {sorted(k for k in {*content, *content2} if content.get(k) != content2.get(k))}", key="from sdist")
    t.check({k: v for k, v in info2.items() if k != "RECORD"} == {k: v for k, v in info.items() if k != "RECORD"}, f"the wheel built from the source archive differs in {[k for k in info if k != 'RECORD' and info2.get(k) != info[k]]}", key="from sdist")


@CHECK.test("editable", scene, quick=80, thorough=800)
def check_editable(case, t):
    s = case
    root, want, doc = lay_out(s, t)
    t.label(s["layout"]["kind"])
    t.nontrivial(nontrivial(s))
    before = tree(root)
    wheel = Hooks(root).run("build_editable", t.scratch()) if s["hooks"] else Project.load(root).build_wheel(t.scratch() / "out", editable=True)
    t.check({k: v for k, v in tree(root).items()} == before, "building an editable wheel changed the project's files", key="own files")
    content, info = verify_wheel(wheel, s, doc, None, t, "the editable wheel")
    t.check(all(k.endswith(".pth") for k in content), f"the editable wheel carries {sorted(content)}", key="editable content")
    site = t.scratch() / "site"
    with zipfile.ZipFile(wheel) as z:
        z.extractall(site)
    packages = sorted(s["layout"]["packages"])
    code = f"import site, sys; site.addsitedir({str(site)!r})\nimport importlib.machinery as m\nfor n in {packages!r}:\n    s = m.PathFinder.find_spec(n)\n    print(n, list(s.submodule_search_locations or [s.origin]) if s else None)"
    r = subprocess.run([sys.executable, "-I", "-S", "-c", code], capture_output=True, text=True, timeout=60)
    t.check(r.returncode == 0, f"the editable wheel breaks the interpreter: {r.stderr}", key="editable")
    for i, (n, line) in enumerate(zip(packages, r.stdout.splitlines())):
        t.check(str((root / location(s["layout"], i, n)).resolve()) in line, f"after the editable wheel, {line} is imported for the package of {location(s['layout'], i, n)}", key="editable")


@CHECK.test("distribution types", st.tuples(scene, st.sampled_from(["none", "lib", "cnt-app", "application"]), st.booleans()), quick=150, thorough=1500)
def check_types(case, t):
    """what is built follows the distribution type; building an application archive changes neither the project nor its file"""
    s, kind, ask = case
    s = {**s, "cwd": False}
    root, want, doc = lay_out(s, t)
    t.label(kind)
    t.nontrivial(kind != "lib")
    if kind == "application":
        doc["tool"].setdefault("pkm", {})["application"] = {"containerized": True, "dependencies": ["x>1"], "dependency-overwrites": {}, "exposed-packages": []}
    else:
        doc["tool"].setdefault("pkm", {})["distribution"] = {"type": kind}
    c20.write(doc, [0, 1, 2], root / "pyproject.toml")
    before = tree(root)
    prj = Project.load(root)
    out = t.scratch() / "out"
    built = prj.build(out) if not ask else ([prj.build_app_sdist(out)] if kind == "cnt-app" else [prj.build_sdist(out)])
    t.check(tree(root) == before, "building changed the project's files", key="own files")
    expected_ = {"none": [], "lib": ["gz", "whl"], "cnt-app": ["gz"], "application": ["gz"]}[kind] if not ask else ["gz"]
    t.eq(sorted(p.name.rpartition(".")[2] for p in built), expected_, f"the archives built for a project of type {kind}", key="types")
    t.eq(sorted(p.name for p in built), sorted(os.listdir(out)) if out.exists() else [], "the files in the target directory", key="types")
    unchanged = [str(d) for d in Project.load(root).config.project.dependencies or []]
    t.eq([str(d) for d in prj.config.project.dependencies or []], unchanged, "the dependencies of the project after building it", key="loaded project")
    for path in built:
        if path.name.endswith(".whl"):
            verify_wheel(path, s, doc, want, t, "the wheel")
            continue
        with tarfile.open(path) as tar:
            tar.extractall(unpacked := t.scratch(), filter="data")
        text = (unpacked / path.name[:-len(".tar.gz")] / "pyproject.toml").read_text("utf-8")
        got = tomllib.loads(text)
        if kind == "cnt-app":
            app = got.get("tool", {}).get("pkm", {}).get("application")
            t.check(app is not None and app["containerized"] is True, f"the archive is not of an application: {app}", key="application")
            listed = [c20.dep_meaning(d)[:4] for d in app["dependencies"]]
            t.eq(listed, [c20.dep_meaning(d)[:4] for d in doc["project"].get("dependencies", [])], "the dependencies of the application", key="application")
            t.check(not got["project"].get("dependencies"), f"the project in the application archive depends on {got['project'].get('dependencies')}", key="application")
        else:
            t.check((d := c20.difference(c20.meaning(got), c20.meaning(doc))) is None, f"in the project file of the source archive, {d}", key="sdist")
        have = {k: v[0] for k, v in tree(unpacked).items()}
        for p, c in want.items():
            t.check(any(k.endswith("/" + p) for k, v in have.items() if v == c), f"{p} is not in the source archive", key="sdist")


@CHECK.test("missing packages", scene.filter(lambda s: s["layout"]["kind"] == "listed" and s["layout"]["packages"]), quick=40, thorough=300)
def check_missing(case, t):
    """a listed package that does not exist is reported, not left out"""
    root, want, doc = lay_out(case, t)
    t.nontrivial(True)
    name = sorted(case["layout"]["packages"])[0]
    shutil.rmtree(root / location(case["layout"], 0, name))
    prj = Project.load(root)
    for build in (prj.build_wheel, prj.build_sdist):
        try:
            path = build(t.scratch() / "out")
        except FileNotFoundError:
            continue
        t.fail(f"{path.name} was built without the package {name}, which is listed but does not exist", key="missing package")
