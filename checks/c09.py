"""C09: what repositories answer to a requirement. Oracle: filters of the generated listing, written with packaging's versions and specifiers."""
import hashlib
import html
import io
import itertools
import json
from pathlib import Path
import zipfile
from types import SimpleNamespace

from hypothesis import strategies as st
from packaging.specifiers import SpecifierSet
from packaging.utils import canonicalize_version
from packaging.version import Version as Ref

import httpd
from vlib import Check
from pkm.api.dependencies.dependency import Dependency
from pkm.api.versions.version import Version
from pkm.repositories.file_repository import FileRepository
from pkm.repositories.file_system_repository import FileSystemRepositoryBuilder
from pkm.repositories.pypi_repository import PypiRepositoryBuilder
from pkm.repositories.simple_repository import SimpleRepositoryBuilder
from pkm.repositories.url_repository import UrlRepository

CHECK = Check("C09", "listings of 1-7 releases with 0-4 files each, served as warehouse JSON, simple index pages and directories, and asked for a requirement; "
                     "non-trivial = some release is left out and some is offered, or a pre-release is offered", workers=6)

NAMES = {"foo": ["foo", "Foo", "FOO"], "my-pkg": ["my-pkg", "My_Pkg", "my.pkg", "MY-PKG"], "a-b-c": ["a-b-c", "A_b.C", "a.b-c"]}
VERS = ["0.9", "1.0", "1.0.1", "1.1", "1.1rc1", "1.3", "1.5b2", "2.0", "2.0a1", "2.0.dev3", "2.1.dev0", "3", "1!0.1", "0.8+local.1"]
# no bound excludes a version that has pre-releases in VERS: those count as below the bound here (see C03)
SPECS = ["", "", "", ">=1.0", "<1.2", "<=1.3", ">1.0", "==1.1", "==1.1rc1", ">=2.0a1", "!=1.0", "==1.3.*", "==3.*", "~=0.9", "~=2.0", ">=0.9, <1.2", ">=1.0.dev0", "!=2.0, >=1.1", ">3", "==2.0", "<0.9"]
TAGS = {"py3-none-any": 1, "py2.py3-none-any": 2, "cp310-cp310-linux_x86_64": 9, "cp310-abi3-manylinux2014_x86_64": 7,
        "cp39-cp39-linux_x86_64": None, "cp310-cp310-win_amd64": None, "py2-none-any": None}
PYTHONS = [None, None, None, ">=3.6", ">=3.8,<4", "<3.10", ">3.9", "!=3.10.4", ">=3.10.5", "==3.10.4", "garbage!!", ">=", ">=3.6, <"]
BAD = PYTHONS[-3:]
ENV = SimpleNamespace(interpreter_version=Version.parse("3.10.4"), markers={"python_version": "3.10", "sys_platform": "linux", "os_name": "posix"},
                      markers_hash="h", compatibility_tag_score=lambda tag: TAGS[tag])
TARGET = SimpleNamespace(env=ENV)
counter = itertools.count()

file = st.fixed_dictionaries({
    "kind": st.sampled_from(["sdist", "bdist_wheel", "bdist_wheel", "bdist_wheel", "bdist_egg", "bdist_wininst"]), "tag": st.sampled_from(list(TAGS)),
    "python": st.sampled_from(PYTHONS), "yanked": st.integers(0, 5).map(lambda i: i == 0), "build": st.sampled_from(["", "", "-1", "-2x"])})
listing = st.lists(st.tuples(st.sampled_from(VERS), st.lists(file, max_size=4)), min_size=1, max_size=7, unique_by=lambda r: Ref(r[0]))
query = st.tuples(st.sampled_from(sorted(NAMES)), st.integers(0, 3), st.sampled_from(SPECS))


def canon(v):
    return canonicalize_version(Ref(v))


def usable(f):
    if f["yanked"] or f["kind"] not in ("sdist", "bdist_wheel") or f["python"] in BAD:
        return False
    if f["python"] and "3.10.4" not in SpecifierSet(f["python"]):
        return False
    return f["kind"] == "sdist" or TAGS[f["tag"]] is not None


def expected(versions, spec):
    ss = SpecifierSet(spec)
    ok = [v for v in versions if ss.contains(v, prereleases=True)]
    if not any(Ref(x.lstrip("=<>!~ ")).is_prerelease for x in spec.replace(".*", "").split(",") if x):
        ok = [v for v in ok if not Ref(v).is_prerelease] or ok
    return sorted(ok, key=Ref, reverse=True)


def file_name(name, v, f):
    if f["kind"] == "bdist_wheel":
        return f"{name.replace('-', '_').replace('.', '_')}-{v}{f['build']}-{f['tag']}.whl"
    return f"{name}-{v}" + {"sdist": ".tar.gz", "bdist_egg": "-py3.10.egg", "bdist_wininst": ".exe"}[f["kind"]]


def ask(repo, name, i, spec):
    return repo.match(f"{NAMES[name][i % len(NAMES[name])]} {spec}", ENV)


def compare(t, got, want, what, versions):
    gv = [canon(str(p.version)) for p in got]
    t.nontrivial(0 < len(want) < len(versions) or any(Ref(v).is_prerelease for v in want))
    t.eq(gv, [canon(v) for v in want], what)


def chosen_is_usable(t, p, files):
    a = p.best_artifact_for(ENV)
    t.check(a.file_name in files, lambda: f"{p}: {a.file_name} is to be installed, usable are {sorted(files)}")


@CHECK.test("warehouse json", st.tuples(query, listing, st.sampled_from([None, "2004d", "1.0-rubbish-x"])), quick=2500, thorough=30000)
def warehouse(case, t):
    (name, i, spec), releases, legacy = case
    srv = httpd.server()
    base = f"/w{next(counter)}"
    asked = NAMES[name][i % len(NAMES[name])]
    data = {"info": {"name": name, "version": "1.0", "requires_dist": ["x>1"], "summary": None}, "releases": {}}
    for v, files in releases:
        data["releases"][v] = [{"filename": file_name(name, v, f), "packagetype": f["kind"], "yanked": f["yanked"], "requires_python": f["python"],
                                "url": "http://x/y", "digests": {}} for f in files]
    if legacy and spec not in ("", "!=1.0"):  # those allow any other version, of whatever form
        data["releases"][legacy] = [{"filename": f"{name}-{legacy}.tar.gz", "packagetype": "sdist", "url": "http://x/y"}]
    for n in NAMES[name]:
        srv.routes[f"{base}/{n}/json"] = {"body": json.dumps(data).encode(), "etag": '"1"'}
    repo = PypiRepositoryBuilder().build("r", srv.base + base)
    good = [v for v, files in releases if any(usable(f) for f in files)]
    got = ask(repo, name, i, spec)
    compare(t, got, expected(good, spec), f"{name} {spec!r}", data["releases"])
    for p in got:
        files = dict((str(Ref(v)), f) for v, f in releases)[str(Ref(str(p.version)))]
        chosen_is_usable(t, p, {file_name(name, p.version, f) for f in files if usable(f)} | {file_name(name, v, f) for v, fs in releases for f in fs if usable(f) and Ref(v) == Ref(str(p.version))})
        t.eq(p.name_key, name.replace("-", "_"), f"name of what {asked} matched")
    if spec == "":
        t.eq([str(p) for p in repo.list(asked, ENV)], [str(p) for p in got], "list and match without constraint")
    # the listing changed meanwhile
    gone = releases[0][0]
    del data["releases"][gone]
    for n in NAMES[name]:
        srv.routes[f"{base}/{n}/json"] = {"body": json.dumps(data).encode(), "etag": '"2"'}
    t.eq([str(Ref(str(p.version))) for p in ask(repo, name, i, spec)],
         [str(Ref(v)) for v in expected([v for v in good if v != gone], spec)], f"after {gone} was removed from the index")


@CHECK.test("simple index", st.tuples(query, listing, st.lists(st.integers(0, 4), min_size=30, max_size=30), st.booleans()), quick=2500, thorough=30000)
def simple(case, t):
    (name, i, spec), releases, style, slash = case
    srv = httpd.server()
    base = f"/s{next(counter)}"
    style = itertools.cycle(style)
    lines, good, by_version = [], set(), {}
    hrefs = {}
    for v, files in releases:
        for f in files:
            k = next(style)
            fname = file_name(name, v + (".0" if k == 4 and "." in v and Ref(v).release[-1:] == (0,) and not Ref(v).is_prerelease and "+" not in v else ""), f)
            if fname in hrefs:
                continue
            href, full = {0: (f"{srv.base}/files/{fname}", f"/files/{fname}"), 1: (f"/files/{fname}", f"/files/{fname}"), 2: (fname, f"{base}/{name}/{fname}"),
                          3: (f"../../files/{fname}", f"/files/{fname}"), 4: (f"../packages/{fname}", f"{base}/packages/{fname}")}[k]
            hrefs[fname] = srv.base + full
            attrs = f' href="{html.escape(href)}#sha256=00"' if k % 2 else f" href='{html.escape(href)}'"
            if f["yanked"]:
                attrs += [' data-yanked', ' data-yanked=""', ' data-yanked="broken"'][k % 3]
            if f["python"]:
                attrs += f' data-requires-python="{html.escape(f["python"])}"'
            text = [fname, f" {fname} ", f"\n{fname}\n"][next(style) % 3]
            lines.append(f"<a{attrs}>{text}</a><br/>")
            if usable(f):
                good.add(v)
                by_version.setdefault(canon(v), set()).add(fname)
    junk = ['<a href="/readme.txt">readme.txt</a>', '<a href="..">up</a>', "<p>text</p>", "<!-- x.whl -->", '<a href="/x.whl">x.whl</a>', "<a>nothing-1.0.tar.gz</a>"]
    lines.insert(next(style), junk[next(style)])
    srv.routes[f"{base}/{name}/"] = {"body": ("<!DOCTYPE html><html><head><title>Links</title></head><body><h1>Links</h1>" + "\n".join(lines) + "</body></html>").encode(), "etag": '"1"'}
    repo = SimpleRepositoryBuilder().build("r", srv.base + base + ("/" if slash else ""))
    got = ask(repo, name, i, spec)
    compare(t, got, expected(sorted(good), spec), f"{name} {spec!r}", releases)
    for p in got:
        chosen_is_usable(t, p, by_version[canon(str(p.version))])
        a = p.best_artifact_for(ENV)
        t.eq(a.other_info["url"].partition("#")[0], hrefs[a.file_name], f"address of {a.file_name}")
    t.eq([str(p) for p in ask(repo, name, i + 1, spec)], [str(p) for p in got], "same query with another spelling of the name") if len(got) == 0 else \
        t.eq([p.version for p in ask(repo, name, i + 1, spec)], [p.version for p in got], "same query with another spelling of the name")


def wheel_bytes(name, v, tag, deps=(), python=None):
    buf = io.BytesIO()
    with zipfile.ZipFile(buf, "w") as z:
        d = f"{name.replace('-', '_')}-{v}.dist-info"
        z.writestr(f"{d}/METADATA", f"Metadata-Version: 2.1\nName: {name}\nVersion: {v}\n" + "".join(f"Requires-Dist: {x}\n" for x in deps)
                   + (f"Requires-Python: {python}\n" if python else "") + "\nThe text\nRequires-Dist: not-this\n")
        z.writestr(f"{d}/WHEEL", f"Wheel-Version: 1.0\nGenerator: x\nRoot-Is-Purelib: true\nTag: {tag}\n")
        z.writestr(f"{d}/RECORD", "")
    return buf.getvalue()


fs_file = st.tuples(st.sampled_from(sorted(NAMES)), st.sampled_from(VERS), st.sampled_from(["sdist", "wheel", "wheel"]), st.sampled_from(list(TAGS)),
                    st.sampled_from(PYTHONS[:-3]), st.integers(0, 2))


@CHECK.test("directories of distributions", st.tuples(query, st.lists(fs_file, min_size=1, max_size=7, unique_by=lambda f: (f[0], Ref(f[1])))), quick=1200, thorough=12000)
def directory(case, t):
    (name, i, spec), files = case
    d = t.scratch() / "dists"
    d.mkdir()
    good, mine = [], []
    for n, v, kind, tag, python, spelled in files:
        if kind == "wheel":
            p = d / f"{NAMES[n][spelled % len(NAMES[n])].replace('-', '_').replace('.', '_')}-{v}-{tag}.whl"
            p.write_bytes(wheel_bytes(n, v, tag, python=python))
            ok = TAGS[tag] is not None and (not python or "3.10.4" in SpecifierSet(python))
        else:
            (d / f"{NAMES[n][spelled % len(NAMES[n])]}-{v}.tar.gz").write_bytes(b"")
            ok = True
        if n == name:
            mine.append(v)
            if ok:
                good.append(v)
    (d / "notes.txt").write_text("x")
    (d / "sub").mkdir()
    repo = FileSystemRepositoryBuilder().build("r", str(d))
    compare(t, ask(repo, name, i, spec), expected(good, spec), f"{name} {spec!r} from {sorted(x.name for x in d.iterdir())}", mine)


DEPS = [("a>=1", ""), ("b[x]<2", ""), ("c", 'sys_platform == "win32"'), ("d!=1", 'python_version >= "3"'), ("e", 'extra == "full"'), ("f", "extra == 'full' and os_name == 'nt'")]


@CHECK.test("contents of artifacts", st.tuples(st.sampled_from(["pypi", "pypi-info", "simple", "url", "dir", "file"]), st.lists(st.sampled_from(DEPS), max_size=4, unique=True),
                                               st.booleans(), st.sampled_from(["right", "right", "wrong", "none", "md5", "md5-wrong", "late", "late"])), quick=900, thorough=6000)
def contents(case, t):
    source, deps, extra, hashed = case
    srv = httpd.server()
    base = f"/c{next(counter)}"
    dep_texts = [d + (f"; {m}" if m else "") for d, m in deps]
    data = wheel_bytes("my-pkg", "1.0", "py3-none-any", () if source == "pypi-info" else dep_texts)
    fname = "my_pkg-1.0-py3-none-any.whl"
    srv.routes[f"{base}/files/{fname}"] = {"body": data}
    algo = "md5" if "md5" in hashed else "sha256"
    digest = hashlib.new(algo, data + (b"!" if "wrong" in hashed else b"")).hexdigest()
    frag = "" if hashed == "none" else f"#{algo}={digest}"
    late = hashed == "late" and source in ("pypi", "simple", "url")
    if late:  # the first answer is damaged
        srv.routes[f"{base}/files/{fname}"] = {"body": data[:-1] + b"!"}
    ask_for = "my.pkg"
    if source.startswith("pypi"):
        release = {"filename": fname, "packagetype": "bdist_wheel", "url": f"{srv.base}{base}/files/{fname}", "digests": {} if hashed == "none" else {algo: digest}}
        srv.routes[f"{base}/my.pkg/json"] = {"body": json.dumps({"info": {"requires_dist": None}, "releases": {"1.0": [release]}}).encode()}
        for n in ("my.pkg", "my-pkg"):
            srv.routes[f"{base}/{n}/1.0/json"] = {"body": json.dumps({"info": {"requires_dist": dep_texts if source == "pypi-info" else None}}).encode()}
        repo = PypiRepositoryBuilder().build("r", srv.base + base)
    elif source == "simple":
        srv.routes[f"{base}/my-pkg/"] = {"body": f'<a href="../files/{fname}{frag}">{fname}</a>'.encode()}
        repo = SimpleRepositoryBuilder().build("r", srv.base + base)
    elif source == "url":
        repo = UrlRepository()
        ask_for = f"my.pkg @ {srv.base}{base}/files/{fname}{frag}"
    else:
        d = t.scratch() / "d"
        d.mkdir()
        (d / fname).write_bytes(data)
        repo = FileSystemRepositoryBuilder().build("r", str(d)) if source == "dir" else FileRepository()
        if source == "file":
            ask_for = f"my.pkg @ file://{d / fname}"
    got = repo.match(ask_for, ENV)
    t.eq(len(got), 1, f"matches for {ask_for} in {source}")
    want = sorted(d.split(">")[0].split("[")[0].split("!")[0] for d, m in deps if "win32" not in m and "'nt'" not in m and (extra or "extra" not in m))
    t.nontrivial(len(want) != len(deps) or "wrong" in hashed)
    bad = "wrong" in hashed and source in ("pypi", "simple", "url")
    for again in range(2):
        try:
            res = sorted(d.package_name for d in got[0].dependencies(TARGET, ["full"] if extra else None))
        except Exception as e:
            if not bad and not (late and not again):
                raise
            srv.routes[f"{base}/files/{fname}"] = {"body": data}
            t.check("hash" in str(e), lambda: f"unexpected {e!r}")
            continue
        t.check(not bad and not (late and not again), f"{source}: {hashed} hash accepted")
        t.eq(res, want, f"dependencies of {source} package")


project = st.tuples(st.sampled_from(sorted(NAMES)), st.sampled_from(VERS), st.integers(0, 3))
group = st.recursive(project, lambda child: st.lists(child, max_size=4), max_leaves=8)


@CHECK.test("directories of projects", st.tuples(query, group, st.lists(st.tuples(st.sampled_from(sorted(NAMES)), st.sampled_from(VERS)), max_size=2)), quick=500, thorough=6000)
def projects(case, t):
    """a file-system repository may be a project, or a group of projects and groups, with distributions beside them"""
    (name, i, spec), tree, wheels = case
    seen, mine = set(), {}

    def write(node, d):
        d.mkdir(parents=True)
        if isinstance(node, tuple):
            n, v, spelled = node
            text = NAMES[n][spelled % len(NAMES[n])]
            (d / "pyproject.toml").write_text(f'[project]\nname = "{text}"\nversion = "{v}"\n')
            if n == name:
                mine[Ref(v)] = (v, d)
            return
        children = []
        for k, child in enumerate(node):
            key = (child[0], Ref(child[1])) if isinstance(child, tuple) else None
            if key in seen:
                continue
            seen.add(key) if key else None
            children.append(f"c{k}" if k % 2 else f"sub/c{k}")
            write(child, d / children[-1])
        (d / "pyproject-group.toml").write_text(f'name = "g"\nchildren = {json.dumps(children)}\n')

    root = t.scratch() / "repo"
    if isinstance(tree, tuple):
        seen.add((tree[0], Ref(tree[1])))
    write(tree, root)
    for n, v in wheels:
        if (n, Ref(v)) not in seen:
            seen.add((n, Ref(v)))
            (root / f"{n.replace('-', '_')}-{v}-py3-none-any.whl").write_bytes(wheel_bytes(n, v, "py3-none-any"))
            if n == name:
                mine[Ref(v)] = (v, None)
    repo = FileSystemRepositoryBuilder().build("r", str(root))
    got = ask(repo, name, i, spec)
    want = expected([v for v, _ in mine.values()], spec)
    compare(t, got, want, f"{name} {spec!r} from {tree} and {wheels}", list(mine))
    for p in got:
        v, d = mine[Ref(str(p.version))]
        t.eq(Path(p.path).resolve() if d else None, d and d.resolve(), f"where {p} is") if hasattr(p, "path") or d else None
    t.label("project" if isinstance(tree, tuple) else "nested" if any(isinstance(c, list) for c in tree) else "group")
