"""C39: conda channels. Oracles: conda specifications are generated with their meaning (a predicate over release tuples), channel indexes with the
properties of every build, packages with their files; the channel is replaced by generated files (there is no network)."""
import bz2
import csv
import hashlib
import io
import json
import os
import re
import sys
import tarfile
from pathlib import Path
from unittest import mock

from hypothesis import strategies as st

from vlib import Check, REPO
import wheelkit as wk

sys.path.insert(0, str(REPO / "repositories/conda-pkm-repo/src"))
from conda_pkm_repo.conda_repo import CondaRepository
from conda_pkm_repo.pkm_extension import CondaRepositoryBuilder
from pkm.api.dependencies.dependency import Dependency
from pkm.api.pkm import pkm
from pkm.api.versions.version import Version
from pkm.utils.http.http_client import FetchedResource, HttpException

CHECK = Check("C39", "generated conda specifications, channel indexes and packages (valid, with wrong digests, tampered files); non-trivial = a specification with a bound, prefix or "
                     "alternatives that accepts some versions and refuses others; a release of which some builds fit the environment and others do not; a package with relocated files or a refused one")
CHANNEL = "https://conda.example/Pkgs/main"



def key(name):
    return re.sub("[-_.]+", "-", name).lower()


# ------------------------------------------------------------------ a channel


class _Web:
    def __init__(self, d):
        self.d, self.pages, self.n = d, {}, 0

    def __call__(self, url, *_, **__):
        if url not in self.pages:
            raise HttpException(f"no such page {url}", mock.Mock(status=404))
        self.n += 1
        data = self.d / f"fetched-{self.n}" / url.rsplit("/", 1)[1]
        data.parent.mkdir()
        data.write_bytes(self.pages[url])
        info = data.parent / "info"
        info.write_text("[hash]\n")
        return FetchedResource(info, data, self.d)

    def installed(self):
        return mock.patch.object(type(pkm.httpclient), "fetch_resource", lambda client, *a, **k: self(*a, **k))


def channel(web, builds, subdir="linux-64"):
    """builds: dicts as in repodata.json, plus a file name"""
    web.pages[f"{CHANNEL}/{subdir}/repodata.json.bz2"] = bz2.compress(json.dumps({"info": {"subdir": subdir}, "packages": {b["fn"]: {k: v for k, v in b.items() if k != "fn"} for b in builds}, "packages.conda": {}}).encode())


def a_build(name, version, build="0", number=0, depends=(), **kw):
    return dict(fn=f"{name}-{version}-{build}.tar.bz2", name=name, version=version, build=build, build_number=number, depends=list(depends), **kw)


# ------------------------------------------------------------------ specifications

release = st.lists(st.sampled_from([0, 1, 2, 3, 9, 10, 11]), min_size=1, max_size=3).map(tuple)


def txt(r):
    return ".".join(map(str, r))


def pad(r, n=6):
    return tuple(r) + (0,) * (n - len(r))


def term_meaning(term):
    """a generated term: (operator, release, star) -> predicate"""
    op, r, star = term
    p, n = pad(r), len(r)
    if op in ("", "=", "==", "!=") and (star or op == "="):
        hit = lambda v: pad(v)[:n] == p[:n]
        return (lambda v: not hit(v)) if op == "!=" else hit
    return {"": lambda v: pad(v) == p, "==": lambda v: pad(v) == p, "!=": lambda v: pad(v) != p, ">=": lambda v: pad(v) >= p, "<=": lambda v: pad(v) <= p, ">": lambda v: pad(v) > p,
            "<": lambda v: pad(v) < p, "~=": lambda v: pad(v) >= p and pad(v)[:n - 1] == p[:n - 1]}[op]


@st.composite
def term(draw):
    op = draw(st.sampled_from(["", "", "=", "==", "!=", ">=", ">=", "<=", ">", "<", "<", "~="]))
    r = draw(release)
    if op == "~=" and len(r) == 1:
        r += (0,)
    star = draw(st.sampled_from(["", "", ".*", "*"])) if op in ("", "==", "!=") else draw(st.sampled_from(["", "", ".*"])) if op == ">=" else ""
    if star == "*" and op:
        star = ".*"
    return op, r, star


def term_text(t, space):
    return t[0] + (space if t[0] else "") + txt(t[1]) + t[2]


spec = st.tuples(st.lists(st.lists(term(), min_size=1, max_size=3), min_size=1, max_size=3), st.sampled_from(["", "", "", " "]), st.sampled_from(["", "", "", " "]), st.sampled_from([" ", " ", "  ", None]))
specs_case = st.tuples(st.lists(spec, min_size=1, max_size=4), st.lists(release, min_size=3, max_size=10))


def spec_text(s):
    options, space, around, _ = s
    return "|".join(f",{around}".join(term_text(x, space) for x in terms) for terms in options)


def spec_allows(s, v):
    return any(all(term_meaning(x)(v) for x in terms) for terms in s[0])


@CHECK.test("specifications", specs_case, quick=1500, thorough=50000)
def specifications(case, t):
    specs, versions = case
    specs = [([*options, [("==", (999,), "")]], *rest) for options, *rest in specs]  # (what cannot be satisfied at all makes a build unusable)
    versions = versions + [x[1] for s in specs for o in s[0] for x in o] + [x[1][:-1] + (x[1][-1] + 1,) for s in specs for o in s[0] for x in o]
    depends = []
    for i, s in enumerate(specs):
        text = spec_text(s)
        sep = s[3] if s[3] is not None and s[3] else (" " if text[0].isdigit() else "")
        depends.append(f"dep_{i}{sep}{text}")
    d = t.scratch()
    web = _Web(d)
    channel(web, [a_build("p", "1.0", depends=[*depends, "any", "star *", "named 2021.1k", "named-range >=1.1.1k,<1.1.2a|*"])])
    with web.installed():
        repo = CondaRepository("c", CHANNEL)
        target = wk.target(d / "env")
        found = repo.match(Dependency.parse("p"), target.env)
        t.eq([str(p.version) for p in found], ["1.0"], f"the packages of a channel whose only package depends on {depends}")
        got = {x.package_name: x.version_spec for x in found[0].dependencies(target)}
    t.eq(set(got), {f"dep_{i}" for i in range(len(specs))} | {"any", "star", "named", "named-range"}, f"the dependencies read from {depends}")
    for i, s in enumerate(specs):
        answers = set()
        for v in versions:
            want = spec_allows(s, v)
            answers.add(want)
            t.eq(bool(got[f"dep_{i}"].allows_version(Version.parse(txt(v)))), want, f"{depends[i]!r} (read as {got[f'dep_{i}']}) allows {txt(v)}")
        t.nontrivial(len(answers) == 2 and any(x[0] or x[2] for o in s[0] for x in o))
    t.check(all(got[n].allows_version(Version.parse(txt(versions[0]))) for n in ("any", "star")), "a dependency without a version does not allow every version")


# ------------------------------------------------------------------ queries

PY = sys.version_info[:2]
PYTHONS = {None: True, "python": True, "python >=3": True, "python >=3.6": True, f"python >={PY[0]}.{PY[1]},<{PY[0]}.{PY[1] + 1}.0a0": True, f"python {PY[0]}.{PY[1]}.*": True, "python >=3.8,<3.9.0a0": False, "python <3.9": False,
           f"python {PY[0]}.{PY[1] - 1}.*": False, "python >=2.7": True, "python >=2.7,<2.8.0a0": False, f"python !={PY[0]}.{PY[1]}.*": False, "python 2.7.*|>=3.5": True, "python 2.7.*|3.8.*": False, f"python >={PY[0]}.{PY[1] + 1}": False,
           f"python {PY[0]}.{PY[1]}.* *_cpython": True, "python >=3.8": True, "python": True, "python >=3.6|python >=3": None}
PYTHONS = {k: v for k, v in PYTHONS.items() if v is not None}
BUILDS = {None: True, "dep 1.0 mkl_0": True, "dep * mkl*": True, "dep 1.0 mkl": False, "dep 1.0 py3": False, "dep >=1,<2 py3*": True, "dep 9.9 mkl_0": False, "dep 1.0 *_0": True, "missing 1.0 x": False, "dep 1.* py38_0": True, "dep 1.0 *": True}
VERSIONS = ["0.9", "1.0", "1.0.1", "1.9", "1.10", "2.0", "2.0.1", "2021.1.2", "3.0rc1", "2.0.post1"]
build_case = st.tuples(st.sampled_from(["a", "a", "a", "A-b", "c.d"]), st.sampled_from(VERSIONS), st.sampled_from(list(PYTHONS)), st.sampled_from([None] * 6 + list(BUILDS)), st.integers(0, 4))
requests = st.tuples(st.sampled_from(["a", "a", "A", "a-b", "A_B", "c-d", "nothing"]), st.sampled_from(["", "", ">=1.0", "<2", "==1.0", "~=1.9", "==1.*", ">=3.0rc1", "!=2.0", ">99"]))


@CHECK.test("queries", st.tuples(st.lists(build_case, min_size=1, max_size=12), st.lists(requests, min_size=1, max_size=4), st.booleans()), quick=1500, thorough=40000)
def queries(case, t):
    from packaging.specifiers import SpecifierSet
    from packaging.version import Version as Ref
    rows, asked, mixed_case = case
    d = t.scratch()
    builds, seen = [], set()
    for name, version, python, dep, number in rows:
        build = f"b{len(builds)}"
        if (name, version, number) in seen:
            continue  # of builds with one number any may be chosen
        seen.add((name, version, number))
        builds.append((a_build(name, version, build, number, [f"id-{build}", *filter(None, [python, dep])]), PYTHONS[python] and BUILDS[dep], python))
    web = _Web(d)
    channel(web, [b for b, _, _ in builds] + [a_build("dep", "1.0", "mkl_0"), a_build("dep", "1.0", "py38_0"), a_build("dep", "1.5", "py38_1"), a_build("dep", "0.1", "mkl_3")])
    target = wk.target(d / "env")
    with web.installed():
        repo = CondaRepositoryBuilder().build("one", CHANNEL.replace("https://conda", "HTTPS://Conda") + "/" if mixed_case else CHANNEL)
        t.eq(repo.name, "one", "the name of the repository")
        for name, s in asked:
            got = repo.match(Dependency.parse(name + s), target.env)
            mine = [(b, ok, py) for b, ok, py in builds if key(b["name"]) == key(name)]
            fits = {b["version"] for b, ok, _ in mine if ok and SpecifierSet(s, prereleases=True).contains(b["version"])}
            if any(Ref(v).post is not None for v in fits) and s:
                continue  # see C03 on post releases
            if "rc" not in s and any(not Ref(v).is_prerelease for v in fits):
                fits = {v for v in fits if not Ref(v).is_prerelease}
            t.eq([str(p.version) for p in got], sorted(fits, key=Ref, reverse=True), f"the packages for {name}{s}")
            t.check(all(p.is_compatible_with(target.env) for p in got), "a package that is incompatible with the environment was offered")
            for p in got:
                deps = {x.package_name for x in p.dependencies(target)}
                chosen = [(b, py) for b, ok, py in mine if b["version"] == str(p.version) and f"id-{b['build']}" in deps]
                t.eq(len(chosen), 1, f"builds chosen for {p.version} (dependencies: {deps})")
                candidates = [(b, py) for b, ok, py in mine if ok and b["version"] == str(p.version)]
                t.check(chosen[0] in candidates, f"a build was chosen that does not fit the environment: {chosen[0]}")
                same = [b["build_number"] for b, py in candidates if py == chosen[0][1]]
                t.eq(chosen[0][0]["build_number"], max(same), "the build number of the chosen build")
                t.check("python" not in deps, "the interpreter is a dependency")
                t.nontrivial(len(candidates) < sum(b["version"] == str(p.version) for b, _, _ in mine))
                # the very build can be requested by its url
                b = chosen[0][0]
                single = repo.match(Dependency.parse(f"{b['name']} @ conda+{CHANNEL}/linux-64/{b['fn']}"), target.env)
                t.eq([f"id-{b['build']}" in {x.package_name for x in q.dependencies(target)} for q in single], [True], "the package of the url of a build")
        other = repo.match(Dependency.parse(f"a @ conda+https://conda.example/Pkgs/main-2/linux-64/a-1.0-b0.tar.bz2"), target.env)
        t.eq(other, [], "a url of another channel")
        t.eq([CondaRepositoryBuilder().build(n, CHANNEL).name for n in ("one", "two", "one")], ["one", "two", "one"], "names of repositories over one channel")
        # builds that are required by their build text
        target_dep = repo.match(Dependency.parse("dep ==1.0"), target.env)
        t.eq(len(target_dep), 1, "packages of dep 1.0")


# ------------------------------------------------------------------ installation

PLACEHOLDER = "/opt/anaconda1anaconda2anaconda3/placehold_placehold_placehold_placehold_placehold_placehold_placehold"
FEATURES = ["module", "module", "sub", "binary", "script", "text-prefix", "binary-prefix", "dist-info", "other-dist-info", "data", "etc", "empty-dir", "lib"]
FAULTS = ["", "", "", "", "digest", "md5", "no digests", "changed", "unsigned", "missing", "no info", "no paths", "outside", "upper"]
install_case = st.tuples(st.lists(st.sampled_from(FEATURES), min_size=1, max_size=6, unique=True), st.sampled_from(FAULTS), st.sampled_from(["3.8", "3.12", "3"]), st.sampled_from(["venv", "venv", "split"]), st.booleans(),
                         st.sampled_from(["p", "My.Pkg", "a-b"]), st.integers(0, 3), st.booleans())


def package_files(features, name, version, python):
    site = f"lib/python{python}/site-packages"
    module = wk.norm(name).replace("-", "_")
    files = {}
    if "module" in features:
        files[f"{site}/{module}/__init__.py"] = b"V = 1\n"
    if "sub" in features:
        files[f"{site}/{module}/sub dir/mod.py"] = b"# sub\n"
    if "binary" in features:
        files[f"{site}/{module}/x.so"] = bytes(range(256)) * 3
    if "script" in features:
        files[f"bin/run-{module}"] = b"#!/bin/sh\necho hi\n"
    if "text-prefix" in features:
        files[f"bin/p-{module}"] = f"#!{PLACEHOLDER}/bin/python\nROOT = '{PLACEHOLDER}'\n".encode()
    if "binary-prefix" in features:
        files[f"lib/lib{module}.so"] = b"\x7fELF\0" + f"{PLACEHOLDER}/share/x".encode() + b"\0rest\0" + PLACEHOLDER.encode() + b":" + PLACEHOLDER.encode() + b"/b\0\0\xffend"
    if "dist-info" in features:
        files[f"{site}/{name.replace('-', '_')}-{version}.dist-info/METADATA"] = f"Metadata-Version: 2.1\nName: {name}\nVersion: {version}\nSummary: own\n".encode()
        files[f"{site}/{name.replace('-', '_')}-{version}.dist-info/WHEEL"] = b"Wheel-Version: 1.0\nGenerator: x\nRoot-Is-Purelib: true\nTag: py3-none-any\n"
        files[f"{site}/{name.replace('-', '_')}-{version}.dist-info/RECORD"] = b"wrong,sha256=aaa,1\n"
        files[f"{site}/{name.replace('-', '_')}-{version}.dist-info/INSTALLER"] = b"conda\n"
        files[f"{site}/{name.replace('-', '_')}-{version}.dist-info/REQUESTED"] = b""
    if "other-dist-info" in features:
        files[f"{site}/vendored-9.dist-info/METADATA"] = b"Metadata-Version: 2.1\nName: vendored\nVersion: 9\n"
    if "data" in features:
        files[f"share/{module}/data, x.txt"] = b"data\r\n"
    if "etc" in features:
        files[f"etc/{module}.cfg"] = b""
    if "lib" in features:
        files[f"lib/plain-{module}.txt"] = b"plain"
    return files


def prefixed(p):
    return "text" if p.startswith("bin/p-") else "binary" if p.startswith("lib/lib") else None


def package_archive(files, fault, name, victim):
    content = {**files}
    paths = {"paths_version": 1, "paths": [{"_path": p, "path_type": "hardlink", "sha256": hashlib.sha256(c).hexdigest(), "size_in_bytes": len(c),
                                            **({"prefix_placeholder": PLACEHOLDER, "file_mode": prefixed(p)} if prefixed(p) else {})} for p, c in files.items()]}
    listing = list(files)
    if fault == "changed":
        content[victim] = content[victim] + b"!"
    elif fault == "unsigned":
        content["lib/extra.txt"] = b"extra"
        listing.append("lib/extra.txt")
    elif fault == "missing":
        del content[victim]
    elif fault == "outside":
        paths["paths"].append({"_path": "../outside.txt", "path_type": "hardlink", "sha256": hashlib.sha256(b"x").hexdigest()})
        listing.append("../outside.txt")
    info = {"info/index.json": json.dumps({"name": name, "build_number": 0}).encode(), "info/paths.json": json.dumps(paths).encode(), "info/files": "\n".join(listing).encode() + b"\n", "info/about.json": b"{}"}
    if fault == "no paths":
        del info["info/paths.json"]
    if fault == "no info":
        info = {}
    out = io.BytesIO()
    with tarfile.open(fileobj=out, mode="w:bz2") as tar:
        for p, c in {**info, **content}.items():
            m = tarfile.TarInfo(p)
            m.size, m.mode = len(c), 0o755 if p.startswith("bin/") else 0o644
            tar.addfile(m, io.BytesIO(c))
    return out.getvalue()


@CHECK.test("installations", install_case, quick=500, thorough=12000)
def installations(case, t):
    features, fault, python, layout, requested, name, pick, existing = case
    d = t.scratch()
    root = d / "env"
    target = wk.target(root, layout)
    version = "1.2"
    files = package_files(features, name, version, python)
    if not files:
        return
    if existing:
        (root / "share").mkdir(exist_ok=True)
        (root / "share/mine.txt").write_text("mine")
    victim = sorted(files)[pick % len(files)]
    data = package_archive(files, fault, name, victim)
    digests = {"sha256": hashlib.sha256(data).hexdigest(), "md5": hashlib.md5(data).hexdigest()}
    if fault == "digest":
        digests["sha256"] = "0" * 63 + "1"
    elif fault == "md5":
        digests = {"md5": "1" * 32}
    elif fault == "no digests":
        digests = {}
    elif fault == "upper":
        digests = {k: v.upper() for k, v in digests.items()}
    web = _Web(d)
    build = a_build(name, version, "py_0", 3, ["python >=3", "needed >=1.0,<2", "other"], **digests)
    channel(web, [build])
    web.pages[f"{CHANNEL}/linux-64/{build['fn']}"] = data
    before = wk.snapshot(root)
    ask = Dependency.parse(f"{name} ==1.*") if requested else None
    refused = fault in ("digest", "md5", "changed", "unsigned", "missing", "no info", "no paths", "outside")
    with web.installed():
        repo = CondaRepository("c", CHANNEL)
        (package,) = repo.match(Dependency.parse(name), target.env)
        try:
            package.install_to(target, ask)
            t.check(not refused, f"a package was installed although: {fault} ({victim})", key=fault)
        except OSError as e:
            t.check(refused, f"an intact package was refused: {e!r}")
    t.label(f"fault {fault or 'none'}")
    if refused:
        t.nontrivial()
        after = wk.snapshot(root)
        t.check(before == after, lambda: "a refused package left something: " + wk.difference(before, after))
        t.check(not (d / "outside.txt").exists(), "a file was written outside")
        return
    # every file is where the environment expects it, as it was packaged
    purelib = Path(target.purelib)
    site = str(purelib.relative_to(root))
    book = {"RECORD", "INSTALLER", "REQUESTED", "INSTALLATION_MODE"}
    placed = {p.replace(f"lib/python{python}/site-packages", site, 1) if p.startswith(f"lib/python{python}/site-packages") else p: c for p, c in files.items()}
    for p, c in placed.items():
        if Path(p).name in book:
            continue
        if prefixed(p) == "text":
            c = c.replace(PLACEHOLDER.encode(), str(root).encode())
        elif prefixed(p) == "binary":
            head, tail = f"{PLACEHOLDER}/share/x".encode(), PLACEHOLDER.encode() + b":" + PLACEHOLDER.encode() + b"/b"
            for s in (head, tail):
                new = s.replace(PLACEHOLDER.encode(), str(root).encode())
                c = c.replace(s, new.ljust(len(s), b"\0"))
        at = root / p
        t.check(at.is_file(), f"missing after installation: {p}", key="missing file")
        t.eq(at.read_bytes(), c, f"the content of {p}", key="content")
        t.eq(os.access(at, os.X_OK), p.startswith("bin/"), f"{p} is executable")
    t.nontrivial(any(prefixed(p) for p in files) or any("site-packages" in p for p in files))
    dist_infos = [p for p in purelib.glob("*.dist-info") if not p.name.startswith("vendored")]
    t.eq(len(dist_infos), 1, f"dist-info folders {[p.name for p in dist_infos]}")
    target.site_packages.reload()
    installed = target.site_packages.installed_package(name)
    t.check(installed is not None, "the package is not listed as installed")
    t.eq((key(installed.name), str(installed.version), installed.user_request), (key(name), version, ask), "the installed package")
    if "dist-info" not in features:
        t.eq(sorted(str(x) for x in installed.published_metadata.dependencies), ["needed >=1.0, <2", "other"], "the dependencies of the installed package")
    listed = {}
    for row in csv.reader((dist_infos[0] / "RECORD").read_text().splitlines()):
        listed[os.path.normpath(purelib / row[0])] = row[1]
    now = {str(root / k): v for k, v in wk.snapshot(root).items() if v[0] == "file" and k not in before}
    t.eq(sorted(k for k in now if Path(k).name not in book and k not in listed), [], "new files that are not in RECORD")
    for k, h in listed.items():
        if h:
            import base64
            alg, _, digest = h.partition("=")
            t.eq(digest, base64.urlsafe_b64encode(hashlib.new(alg, Path(k).read_bytes()).digest()).rstrip(b"=").decode(), f"the hash in RECORD of {k}")
    if "other-dist-info" not in features:
        installed.uninstall()
        after = wk.snapshot(root)
        gone = {k: v for k, v in after.items() if v[0] == "file"}
        t.eq(sorted(gone), sorted(k for k, v in before.items() if v[0] == "file"), "files after removing the package again")
