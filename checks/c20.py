"""C20: pyproject files. Oracle: tomllib's reading of the file before and after a load/edit/save, and a reading of the project table per PEP 621 written here (packaging's markers and requirements)."""
import copy
import tomllib
from types import SimpleNamespace

from hypothesis import strategies as st
from packaging.markers import Marker
from packaging.requirements import Requirement
from packaging.specifiers import SpecifierSet
from packaging.utils import canonicalize_name
from packaging.version import Version as PVersion

from vlib import Check
from pkm.api.dependencies.dependency import Dependency
from pkm.api.packages.package_metadata import PackageMetadata
from pkm.api.projects.project import Project
from pkm.api.projects.pyproject_configuration import BuildSystemConfig, ContactInfo, PyProjectConfiguration
from pkm.api.versions.version import Version
from pkm.api.versions.version_specifiers import VersionSpecifier

CHECK = Check("C20", "pyproject documents with every PEP 621 field in its different spellings (tables, dotted keys, inline tables, comments, foreign tool tables), and sequences of edits through the typed configuration; "
                     "non-trivial = a document with at least four project fields of which one is written in a non-canonical way", workers=6)

text = st.sampled_from(["a", "Some text", "with \"quotes\"", "back\\slash", "é ü 日本", "tab\there", "a # b", "x = 1", "'", "[y]", "line one\nline two", " lead", ""])
label = st.sampled_from(["a", "b-c", "Bug Tracker", "dev", "with.dot", "é"])
VERSIONS = ["1.0", "1.0.0", "0.1.0-rc1", "v2.0", "1!3.0.0.post1", "1.2.3", "01.2", "1.0.0a1", "2022.10.1.dev3"]
MARKERS = ["python_version >= '3.8'", "sys_platform == 'win32'", "python_version < '3' or sys_platform == 'linux'", "extra == 'x'", "os_name == 'nt' and python_version > '2'", "extra == 'dev' or os_name == 'posix'", "(os_name == 'nt')"]
plain = st.sampled_from(["a", "B_c>=1.0", "a.b[x,y] >1,<2", "d ~= 1.4.2", "e==1.*", "f @ https://h/f-1.0.zip", "g!=1.5,>=1", "H-i ( >= 2 )"])
dep = st.one_of(plain, st.tuples(plain, st.sampled_from(MARKERS)).map(" ; ".join))
deps = st.lists(dep, max_size=4)
extra = st.sampled_from(["x", "dev", "Test_Extra", "a.b", "docs-2"])
contact = st.one_of(st.fixed_dictionaries({"name": st.sampled_from(["Ann", "O'Neil, B.", "É C", "\"D\""])}), st.fixed_dictionaries({"email": st.sampled_from(["a@b.c", "x+y@z"])}),
                    st.fixed_dictionaries({"name": st.sampled_from(["Ann", "O'Neil, B.", "É C"]), "email": st.sampled_from(["a@b.c", "x+y@z"])}))
spec = st.sampled_from([">=3.8", ">=3.8, <4.0", "~=3.8", "==3.*", "!=3.9.*,>=3.7", ">= 3.6.2", "<4", "!=3.8.0,!=3.8.1", ">2.7,!=3.0.*, !=3.1.*", "==3.9.1"])
ref = st.sampled_from(["m:f", "a.b.c:g.h", "m", "p.q:main"])
scripts = st.dictionaries(st.sampled_from(["run", "b-c", "with.dot", "A"]), ref, max_size=3)
readme = st.one_of(st.sampled_from(["README.md", "README.rst", "docs/LONG.txt", "missing.md"]), st.fixed_dictionaries({"file": st.sampled_from(["README.md", "README.rst", "docs/LONG.txt"])}), st.fixed_dictionaries({"text": text.filter(bool)}),
                   st.fixed_dictionaries({"file": st.sampled_from(["README.md", "docs/LONG.txt"]), "content-type": st.sampled_from(["text/x-rst", "text/markdown; charset=UTF-8"])}),
                   st.fixed_dictionaries({"text": text.filter(bool), "content-type": st.just("text/markdown")}))
license_ = st.one_of(st.fixed_dictionaries({"text": st.sampled_from(["MIT", "Some\nlicense", "é"])}), st.fixed_dictionaries({"file": st.sampled_from(["LICENSE", "docs/LONG.txt"])}), st.just("MIT OR Apache-2.0"))
dynamic = st.lists(st.sampled_from(["dependencies", "readme", "scripts", "classifiers"]), unique=True, max_size=2)
project = st.fixed_dictionaries({"name": st.sampled_from(["a", "My.Pkg", "x_y--z", "Django"]), "version": st.sampled_from(VERSIONS)}, optional={
    "description": text, "authors": st.lists(contact, max_size=3), "maintainers": st.lists(contact, max_size=2), "keywords": st.lists(text.filter(bool), max_size=3), "classifiers": st.lists(st.sampled_from(["Private :: A", "Topic :: B"]), max_size=2),
    "urls": st.dictionaries(label, st.sampled_from(["https://a.b/c?d=e#f", "https://x"]), max_size=3), "requires-python": spec, "dependencies": deps, "optional-dependencies": st.dictionaries(extra, deps, max_size=3),
    "readme": readme, "license": license_, "scripts": scripts, "gui-scripts": scripts, "entry-points": st.dictionaries(st.sampled_from(["pytest11", "a.b", "my-group"]), scripts, max_size=2), "dynamic": dynamic,
    "license-files": st.just(["LIC*"]), "x-unknown": st.just({"a": [1, 2], "b": {"c": True}})})
foreign = st.dictionaries(st.sampled_from(["black", "poetry"]), st.sampled_from([{"line": 3}, {"a": {"b": [1.5, {"c": "d"}]}, "e": False}, {}]), max_size=2)
document = st.fixed_dictionaries({"project": project}, optional={
    "build-system": st.sampled_from([{"requires": ["setuptools>=40", "wheel"], "build-backend": "setuptools.build_meta"}, {"requires": []}, {"requires": ["x ; python_version<'3'"], "build-backend": "b", "backend-path": ["src", "."]}, {"requires": ["a"], "zzz": 1}]),
    "tool": st.tuples(foreign, st.fixed_dictionaries({}, optional={"project": st.fixed_dictionaries({}, optional={"packages": st.sampled_from([["src/a"], []]), "group": st.just("../g")}), "distribution": st.sampled_from([{"type": "lib"}, {"type": "cnt-app"}]),
                                                                  "application": st.just({"containerized": True, "dependencies": ["a>1"], "dependency-overwrites": {"b": "b ==1.0"}, "exposed-packages": ["a"]})})).map(
        lambda p: {**p[0], **({"pkm": p[1]} if p[1] else {})})})
choices = st.lists(st.integers(0, 5), min_size=8, max_size=8)


class Writer:
    """writes a document as TOML, choosing between the spellings of the same value"""

    def __init__(self, choices_):
        self.choices, self.i, self.odd = choices_, 0, False

    def pick(self, n):
        self.i += 1
        r = self.choices[self.i % len(self.choices)] % n
        self.odd |= r != 0
        return r

    def key(self, k):
        return k if k.replace("-", "").replace("_", "").isalnum() and k.isascii() else self.string(k, simple=True)

    def string(self, s, simple=False):
        basic = '"' + s.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n").replace("\t", "\\t") + '"'
        if simple:
            return basic
        p = self.pick(4)
        if p == 1 and "'" not in s and "\n" not in s:
            return f"'{s}'"
        if p == 2:
            return '"""\n' + s.replace("\\", "\\\\").replace('"', '\\"') + '"""'
        return basic

    def value(self, v, inline=False):
        if isinstance(v, str):
            return self.string(v, simple=inline)
        if isinstance(v, bool):
            return str(v).lower()
        if isinstance(v, (int, float)):
            return str(v)
        if isinstance(v, list):
            if not inline and v and self.pick(3) == 1:
                return "[\n" + "".join(f"    {self.value(x, True)},{'  # note' if self.pick(2) else ''}\n" for x in v) + "]"
            return "[" + ", ".join(self.value(x, True) for x in v) + "]"
        return "{" + ", ".join(f"{self.key(k)} = {self.value(x, True)}" for k, x in v.items()) + "}"

    def table(self, path, d):
        out, subs = [], []
        header = ".".join(self.key(p) for p in path)
        for k, v in d.items():
            if isinstance(v, dict):
                p = self.pick(4)
                if p == 1:
                    out.append(f"{self.key(k)} = {self.value(v, True)}")
                    continue
                if p == 2 and v and not any(isinstance(x, dict) for x in v.values()):
                    out += [f"{self.key(k)}.{self.key(x)} = {self.value(y)}" for x, y in v.items()]
                    continue
                subs.append((path + [k], v))
            elif isinstance(v, list) and v and all(isinstance(x, dict) for x in v) and self.pick(3) == 1 and path == ["project"]:
                subs += [(path + [k], x, True) for x in v]
            else:
                out.append(f"{self.key(k)} = {self.value(v)}" + ("  # about " + k if self.pick(3) == 2 else ""))
        text_ = ""
        if path and (out or not subs or self.pick(2)):
            text_ = f"[{header}]\n"
        text_ += "".join(o + "\n" for o in out) + "\n"
        for s in subs:
            if len(s) == 3:
                text_ += f"[[{'.'.join(self.key(p) for p in s[0])}]]\n" + "".join(f"{self.key(k)} = {self.value(v)}\n" for k, v in s[1].items()) + "\n"
            else:
                text_ += self.table(*s)
        return text_


def write(doc, choices_, path):
    w = Writer(choices_)
    source = "# a project\n" + w.table([], doc)
    assert tomllib.loads(source) == doc, (source, doc)
    path.write_text(source, encoding="utf-8")
    return w.odd and len(doc["project"]) >= 5


def read(path, t, when):
    try:
        return tomllib.loads(path.read_text(encoding="utf-8"))
    except tomllib.TOMLDecodeError as e:
        t.fail(f"{when}, the file is no longer TOML: {e}", key="broken")


def lay(doc, choices_, t):
    p = t.scratch() / "prj" / "pyproject.toml"
    (p.parent / "docs").mkdir(parents=True)
    (p.parent / "README.md").write_text("# é readme\n", encoding="utf-8")
    (p.parent / "README.rst").write_text("Readme\n======\n")
    (p.parent / "docs" / "LONG.txt").write_text("long\n\ntext")
    (p.parent / "LICENSE").write_text("licensed é", encoding="utf-8")
    t.nontrivial(write(doc, choices_, p))
    return p


def difference(got, want, path=""):
    if isinstance(got, dict) and isinstance(want, dict):
        for k in [*want, *(k for k in got if k not in want)]:
            if k not in got:
                return f"{path}.{k} is lost"
            if k not in want:
                return f"{path}.{k} = {got[k]!r} appeared"
            if d := difference(got[k], want[k], f"{path}.{k}"):
                return d
        return None
    return None if got == want and type(got) is type(want) else f"{path} is {got!r} instead of {want!r}"


def order(doc):
    return [list(doc), list(doc["project"]), [list(v) for v in doc["project"].values() if isinstance(v, dict)]]


@CHECK.test("unchanged", st.tuples(document, choices, st.integers(1, 3), st.booleans()), quick=700, thorough=9000)
def check_unchanged(case, t):
    doc, ch, times, as_project = case
    p = lay(doc, ch, t)
    first = order(read(p, t, "as written"))
    for _ in range(times):
        cfg = Project.load(p.parent).config if as_project else PyProjectConfiguration.load(p)
        cfg.save()
        if d := difference(read(p, t, "after a save without a change"), doc):
            t.fail(f"after a save without a change, {d}", key="unchanged")
    t.check(order(read(p, t, "")) == first, f"a save without a change moved keys: {order(read(p, t, ''))} for {first}", key="order")
    cfg = PyProjectConfiguration.load(p)
    other = p.parent / "copy" / "pyproject.toml"
    cfg.save(other)
    if d := difference(read(other, t, "saved elsewhere"), doc):
        t.fail(f"saved to another file, {d}", key="unchanged")


edit = st.one_of(
    st.tuples(st.just("version"), st.sampled_from(["9.8.7", "1.0", "1.0.0", "2!1.0.0rc3"])), st.tuples(st.just("bump"), st.sampled_from(["name"])), st.tuples(st.just("dependencies"), deps), st.tuples(st.just("add dependency"), dep),
    st.tuples(st.just("drop dependency"), st.integers(0, 3)), st.tuples(st.just("optional"), extra, deps), st.tuples(st.just("drop optional"), extra), st.tuples(st.just("authors"), st.lists(contact, max_size=3)), st.tuples(st.just("author email"), st.just("new@mail")),
    st.tuples(st.just("urls"), st.dictionaries(label, st.just("https://new/"), max_size=2)), st.tuples(st.just("url"), label, st.just("https://changed")), st.tuples(st.just("scripts"), st.sampled_from(["scripts", "gui-scripts"]), scripts),
    st.tuples(st.just("entry points"), st.sampled_from(["pytest11", "new"]), scripts), st.tuples(st.just("description"), text), st.tuples(st.just("python"), spec), st.tuples(st.just("keywords"), st.lists(text.filter(bool), max_size=3)),
    st.tuples(st.just("build"), deps), st.tuples(st.just("packages"), st.lists(st.sampled_from(["src/x", "y"]), max_size=2)), st.tuples(st.just("reload")))


def apply(cfg, e, doc):
    """applies an edit to the configuration and to the document it should become; values that are compared by meaning are marked in the returned path"""
    prj, d = cfg.project, doc["project"]
    kind = e[0]
    if kind == "version":
        prj.version = Version.parse(e[1])
        d["version"] = e[1]
    elif kind == "dependencies":
        prj.dependencies = [Dependency.parse(x) for x in e[1]]
        d["dependencies"] = list(e[1])
    elif kind == "add dependency":
        prj.dependencies.append(Dependency.parse(e[1]))
        d["dependencies"] = d.get("dependencies", []) + [e[1]]
    elif kind == "drop dependency":
        if e[1] < len(prj.dependencies):
            del prj.dependencies[e[1]]
            d["dependencies"] = d["dependencies"][:e[1]] + d["dependencies"][e[1] + 1:]
    elif kind == "optional":
        prj.optional_dependencies[e[1]] = [Dependency.parse(x) for x in e[2]]
        d.setdefault("optional-dependencies", {})[e[1]] = list(e[2])
    elif kind == "drop optional":
        prj.optional_dependencies.pop(e[1], None)
        d.get("optional-dependencies", {}).pop(e[1], None)
    elif kind == "authors":
        prj.authors = [ContactInfo(**c) for c in e[1]]
        d["authors"] = copy.deepcopy(e[1])
    elif kind == "author email":
        if prj.authors:
            prj.authors[0].email = e[1]
            d["authors"][0]["email"] = e[1]
    elif kind == "urls":
        prj.urls = dict(e[1])
        d["urls"] = dict(e[1])
    elif kind == "url":
        if prj.urls is None:
            prj.urls = {}
        prj.urls[e[1]] = e[2]
        d.setdefault("urls", {})[e[1]] = e[2]
    elif kind == "scripts":
        setattr(prj, "_" + e[1].replace("-", "_"), dict(e[2]))
        d[e[1]] = dict(e[2])
    elif kind == "entry points":
        prj._entry_points[e[1]] = dict(e[2])
        d.setdefault("entry-points", {})[e[1]] = dict(e[2])
    elif kind == "description":
        prj.description = e[1]
        d["description"] = e[1]
    elif kind == "python":
        prj.requires_python = VersionSpecifier.parse(e[1])
        d["requires-python"] = e[1]
    elif kind == "keywords":
        prj.keywords = list(e[1])
        d["keywords"] = list(e[1])
    elif kind == "build":
        if "build-system" in doc:
            cfg.build_system.requirements = [Dependency.parse(x) for x in e[1]]
            doc["build-system"]["requires"] = list(e[1])
        else:
            cfg.build_system = BuildSystemConfig([Dependency.parse(x) for x in e[1]], "bk")
            doc["build-system"] = {"requires": list(e[1]), "build-backend": "bk"}
    elif kind == "packages":
        cfg.pkm_project.packages = list(e[1])
        doc.setdefault("tool", {}).setdefault("pkm", {}).setdefault("project", {})["packages"] = list(e[1])


SAMPLES = [PVersion(x) for x in ("2.7", "3.0", "3.0.5", "3.1.2", "3.6.1", "3.6.2", "3.7", "3.8.0", "3.8.1", "3.8.2", "3.9.0", "3.9.1", "3.9.2", "3.10", "4.0", "4.1")]


def dep_meaning(x):
    r = Requirement(x)
    m = None
    if r.marker:
        m = tuple(Marker(str(r.marker)).evaluate({"extra": ex, "python_version": py, "python_full_version": py + ".0", "sys_platform": plat, "os_name": os}) for ex in ("", "x", "dev") for py in ("2.7", "3.8", "3.12") for plat, os in (("win32", "nt"), ("linux", "posix")))
    return canonicalize_name(r.name), frozenset(canonicalize_name(e) for e in r.extras), r.url, None if r.url else tuple(r.specifier.contains(PVersion(v), prereleases=True) for v in ("0.9", "1", "1.0", "1.4.2", "1.4.9", "1.5", "1.9", "2", "2.1", "3")), m


def meaning(doc):
    """the document with the values pkm prints in its own spelling replaced by what they mean"""
    doc = copy.deepcopy(doc)
    prj = doc.get("project", {})
    if "version" in prj:
        v = PVersion(prj["version"])
        prj["version"] = (v, len(v.release))
    if "requires-python" in prj:
        s = SpecifierSet(prj["requires-python"])
        prj["requires-python"] = [str(v) for v in SAMPLES if s.contains(v, prereleases=True)]
    if "dependencies" in prj:
        prj["dependencies"] = [dep_meaning(x) for x in prj["dependencies"]]
    if "optional-dependencies" in prj:
        prj["optional-dependencies"] = {k: [dep_meaning(x) for x in v] for k, v in prj["optional-dependencies"].items()}
    if "requires" in doc.get("build-system", {}):
        doc["build-system"]["requires"] = [dep_meaning(x) for x in doc["build-system"]["requires"]]
    # an empty list or table for an absent one is the same setting
    for k in ("dependencies", "optional-dependencies", "scripts", "gui-scripts", "entry-points"):
        if not prj.get(k):
            prj.pop(k, None)
    return doc


@CHECK.test("edits", st.tuples(document, choices, st.lists(edit, min_size=1, max_size=4), st.booleans()), quick=700, thorough=9000)
def check_edits(case, t):
    doc, ch, edits, as_project = case
    doc = copy.deepcopy(doc)
    p = lay(doc, ch, t)
    before = p.read_text(encoding="utf-8")
    cfg = Project.load(p.parent).config if as_project else PyProjectConfiguration.load(p)
    touched = set()
    for e in edits:
        t.label(e[0])
    for e in edits:
        if e[0] == "reload":
            cfg.save()
            cfg.reload()
        elif e[0] == "bump":
            cfg.save()
            prj = Project.load(p.parent)
            prj.bump_version("name", "some-name")
            got = read(p, t, "after naming the version")
            t.eq(got["project"]["version"], "some-name", "the version", key="edit")
            got["project"]["version"] = doc["project"]["version"] = "7.7"
            if d := difference(meaning(got), meaning(doc)):
                t.fail(f"after setting the version of the project, {d}", key="edit")
            cfg = prj.config
            cfg.project.version = Version.parse("7.7")
        else:
            apply(cfg, e, doc)
    cfg.save()
    got = read(p, t, f"after {edits}")
    if d := difference(meaning(got), meaning(doc)):
        t.fail(f"after {edits}, {d}", key="edit")
    again = PyProjectConfiguration.load(p)
    again.save()
    if d := difference(read(p, t, "after another save"), got):
        t.fail(f"after {edits} and another save, {d}", key="edit")
    # what an edit did not concern is still written as it was
    keys = {e[0] for e in edits}
    for key, kinds in (("dependencies", ("dependencies", "add dependency", "drop dependency")), ("requires-python", ("python",)), ("version", ("version", "bump")), ("name", ()), ("readme", ()), ("license", ())):
        if not keys.intersection(kinds) and key in doc["project"] and tomllib.loads(before)["project"][key] != got["project"].get(key):
            t.fail(f"{key} is now written {got['project'].get(key)!r}, though {edits} did not concern it", key="untouched")


ENVS = [{"python_version": py, "python_full_version": py + ".0", "sys_platform": plat, "os_name": os} for py in ("2.7", "3.8") for plat, os in (("win32", "nt"), ("linux", "posix"))]


def requirement_model(prj):
    """(requirement without marker, for each environment and extra: does it apply)"""
    out = []
    for group, listed in [(None, prj.get("dependencies", [])), *prj.get("optional-dependencies", {}).items()]:
        for x in listed:
            out.append((dep_meaning(x)[:4], applicability(Requirement(x).marker, group)))
    return out


EXTRAS = ["", "x", "dev", "Test_Extra", "a.b", "docs-2"]


def applicability(marker, group=None):
    return tuple((group is None or canonicalize_name(ex) == canonicalize_name(group)) and (marker is None or marker.evaluate({**env, "extra": ex})) for env in ENVS for ex in EXTRAS)


def people(prj, key):
    listed = prj.get(key, [])
    return sorted(c["name"] for c in listed if "email" not in c), [(c.get("name"), c["email"]) for c in listed if "email" in c]


def addresses(value):
    from email.utils import getaddresses
    return sorted((((n or None), a) for n, a in getaddresses([value])), key=str) if value else []


@CHECK.test("meaning", st.tuples(document, choices, st.booleans()), quick=700, thorough=9000)
def check_meaning(case, t):
    """what the file says is what the metadata says"""
    doc, ch, as_project = case
    p = lay(doc, ch, t)
    prj = doc["project"]
    project_ = Project.load(p.parent)
    cfg = project_.config.project
    m = PackageMetadata.from_project_config(cfg) if as_project else project_.published_metadata
    left = m.leftovers or {}
    t.eq(canonicalize_name(m.package_name), canonicalize_name(prj["name"]), "the name", key="name")
    t.eq(PVersion(str(m.package_version)), PVersion(prj["version"]), "the version", key="version")
    t.eq(m.summary or "", prj.get("description", ""), "the summary", key="summary")
    for key, field in (("authors", "Author"), ("maintainers", "Maintainer")):
        names, mails = people(prj, key)
        t.eq(left.get(field) or "", ", ".join(c["name"] for c in prj.get(key, []) if "email" not in c), field, key="people")
        t.eq(addresses(left.get(field + "-email")), sorted(mails, key=str), field + "-email", key="people")
    t.eq(left.get("Keywords") or "", ",".join(prj.get("keywords", [])), "the keywords", key="fields")
    t.eq(left.get("Classifier") or [], prj.get("classifiers", []), "the classifiers", key="fields")
    t.eq(left.get("Project-URL") or [], [f"{k}, {v}" for k, v in prj.get("urls", {}).items()], "the urls", key="fields")
    t.eq(left.get("Provides-Extra") or [], list(prj.get("optional-dependencies", {})), "the extras", key="fields")
    s = SpecifierSet(prj.get("requires-python", ""))
    t.eq([str(v) for v in SAMPLES if m.required_python_spec.allows_version(Version.parse(str(v)))], [str(v) for v in SAMPLES if s.contains(v, prereleases=True)], "the interpreters", key="python")
    got = [(dep_meaning(str(d))[:4], applicability(Requirement(str(d)).marker)) for d in m.dependencies]
    want = requirement_model(prj)
    t.check(sorted(got, key=str) == sorted(want, key=str), f"the requirements are {[str(d) for d in m.dependencies]} for {prj.get('dependencies')} and {prj.get('optional-dependencies')}", key="requirements")
    # readme and license
    r = prj.get("readme")
    content, kind = "", None
    if r is not None:
        r = {"file": r} if isinstance(r, str) else r
        if "text" in r:
            content = r["text"]
        else:
            f = p.parent / r["file"]
            content = f.read_text(encoding="utf-8") if f.exists() else ""
            kind = {".md": "text/markdown", ".rst": "text/x-rst", ".txt": "text/plain"}[f.suffix]
        kind = r.get("content-type", kind)
    t.eq(m.description or "", content, "the description", key="readme")
    if kind:
        t.eq(left.get("Description-Content-Type"), kind, "the type of the description", key="readme")
    lic = prj.get("license", "")
    if isinstance(lic, dict):
        lic = lic["text"] if "text" in lic else (p.parent / lic["file"]).read_text(encoding="utf-8")
    t.eq(cfg.license_content(), lic, "the license", key="license")
    # entry points
    want_eps = [(g, n, r_) for g, eps in prj.get("entry-points", {}).items() for n, r_ in eps.items()]
    want_eps += [("console_scripts", n, r_) for n, r_ in prj.get("scripts", {}).items()] + [("gui_scripts", n, r_) for n, r_ in prj.get("gui-scripts", {}).items()]
    got_eps = [(e.group, e.name, str(e.ref)) for e in cfg.all_entrypoints()]
    t.check(sorted(got_eps) == sorted(want_eps), f"the entry points are {got_eps} instead of {want_eps}", key="entry points")
    t.eq({g: sorted((e.group, e.name, str(e.ref)) for e in eps) for g, eps in cfg.entry_points.items() if eps}, {g: sorted(x for x in want_eps if x[0] == g) for g in {x[0] for x in want_eps}}, "the groups of entry points", key="entry points")
    t.check(sorted((e.group, e.name) for e in cfg.script_entrypoints()) == sorted(x[:2] for x in want_eps if x[0] in ("console_scripts", "gui_scripts")), "the scripts are not those listed", key="entry points")
    bs = doc.get("build-system")
    if bs:
        t.eq([dep_meaning(str(d)) for d in project_.config.build_system.requirements], [dep_meaning(x) for x in bs["requires"]], "the build requirements", key="build system")
        t.eq(project_.config.build_system.build_backend, bs.get("build-backend", "setuptools.build_meta:__legacy__"), "the build backend", key="build system")


request = st.fixed_dictionaries({"deps": st.lists(st.tuples(dep, st.sampled_from([None, "1.4.2", "0.0.1", "0.3", "2!1.0", "3.0.0a2.dev1", "1.5.post1", "1.4.1+cpu.1"])), min_size=1, max_size=3, unique_by=lambda x: canonicalize_name(Requirement(x[0]).name)),
                                 "group": st.one_of(st.none(), st.none(), extra), "fails": st.sampled_from([None, None, None, "install", "lock"]), "update": st.booleans()})


class FakeProject:
    """a project whose environment only records what it was asked for"""

    def __init__(self, config, versions, fails):
        self.config, self.versions, self.fails, self.calls = config, versions, fails, []
        self.attached_environment = SimpleNamespace(site_packages=self, uninstall=self.uninstall, installation_target="the target")
        self.lock = SimpleNamespace(update_lock=self.update_lock)

    def install_project(self, *args):
        if self.fails == "install":
            raise OSError("no")
        self.seen = [str(d) for d in self.config.project.all_dependencies]
        self.calls.append(("install", *args))

    def installed_package(self, name):
        from pkm.api.packages.package import PackageDescriptor
        v = self.versions.get(canonicalize_name(name))
        return v and SimpleNamespace(descriptor=PackageDescriptor(name, Version.parse(v)))

    def update_lock(self, env):
        if self.fails == "lock":
            raise OSError("no")
        return SimpleNamespace(save=lambda: self.calls.append(("lock",)))

    def update_at(self, target):
        if self.fails == "install":
            raise OSError("no")
        self.calls.append(("update",))

    def uninstall(self, packages, force):
        self.calls.append(("uninstall", list(packages)))
        return list(packages)


@CHECK.test("requested dependencies", st.tuples(document, choices, request, st.sampled_from(["install", "install", "uninstall"])), quick=400, thorough=5000)
def check_requested(case, t):
    """installing and uninstalling dependencies of a project changes their listing only, and nothing if it fails"""
    from pkm_cli.controllers.prj_controller import PrjController
    doc, ch, req, action = case
    p = lay(doc, ch, t)
    before = p.read_text(encoding="utf-8")
    cfg = PyProjectConfiguration.load(p)
    names = {canonicalize_name(Requirement(d).name) for d, _ in req["deps"]}
    prj = FakeProject(cfg, {canonicalize_name(Requirement(d).name): v for d, v in req["deps"]}, req["fails"])
    was = [str(d) for d in cfg.project.all_dependencies]
    try:
        if action == "install":
            PrjController(prj).install_dependencies([Dependency.parse(d) for d, _ in req["deps"]], req["group"], req["update"])
        else:
            PrjController(prj).uninstall_dependencies([Requirement(d).name.upper() for d, _ in req["deps"]])
        failed = False
    except OSError as e:
        failed = str(e) == "no"
        if not failed:
            raise
    t.eq(failed, req["fails"] is not None, "the failure is reported", key="requested")
    if failed:
        t.eq([str(d) for d in cfg.project.all_dependencies], was, "the dependencies after the failure", key="requested rollback")
        if req["fails"] == "install":
            t.eq(p.read_text(encoding="utf-8"), before, "the file after the failure", key="requested rollback")
        return
    want = copy.deepcopy(doc)
    wp = want["project"]
    got = read(p, t, f"after the {action}")
    if action == "uninstall":
        for holder, key in [(wp, "dependencies"), *((wp.get("optional-dependencies", {}), k) for k in wp.get("optional-dependencies", {}))]:
            if key in holder:
                holder[key] = [d for d in holder[key] if canonicalize_name(Requirement(d).name) not in names]
    else:
        holder, key = (wp, "dependencies") if req["group"] is None else (wp.setdefault("optional-dependencies", {}), req["group"])
        old = [d for d in holder.get(key, []) if canonicalize_name(Requirement(d).name) not in names]
        gp = got["project"]
        listed = (gp if req["group"] is None else gp.get("optional-dependencies", {})).get(key, [])
        t.eq([dep_meaning(d) for d in listed[:len(old)]], [dep_meaning(d) for d in old], "the other dependencies", key="requested")
        t.eq(len(listed), len(old) + len(req["deps"]), f"the number of dependencies ({listed})", key="requested")
        for (d, v), written in zip(req["deps"], listed[len(old):]):
            r, w = Requirement(d), Requirement(written)
            if str(r.specifier) or r.url or v is None:
                t.eq(dep_meaning(written), dep_meaning(d), f"the requirement {d}", key="requested")
            else:  # the installed version is filled in
                t.check(canonicalize_name(w.name) == canonicalize_name(r.name) and w.specifier.contains(PVersion(v), prereleases=True), f"{d} with {v} installed is written as {written}", key="requested version")
                t.check({canonicalize_name(e) for e in w.extras} == {canonicalize_name(e) for e in r.extras} and applicability(w.marker) == applicability(r.marker), f"{d} is written as {written}, with other extras or another marker", key="requested version")
        holder[key] = listed
        t.check(all(any(canonicalize_name(Requirement(s).name) == n for s in prj.seen) for n in names), f"the project was installed with {prj.seen}, before its new dependencies were known to it", key="requested")
    if d := difference(meaning(got), meaning(want)):
        t.fail(f"after the {action} of {req['deps']}, {d}", key="requested")
