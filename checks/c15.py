"""C15: histories of installing, replacing and uninstalling packages. Oracle: a model that knows, from the descriptions the wheels were generated from, which
files each installed package owns; the tree and the listing must be those of the currently installed packages after every step."""
import contextlib
import importlib
import io
import os
import re
import warnings
from pathlib import Path

from hypothesis import strategies as st

import wheelkit as wk
from vlib import Check
from pkm.api.dependencies.dependency import Dependency
from pkm.api.distributions.wheel_distribution import WheelDistribution
from pkm.api.packages.package import Package

c12 = importlib.import_module("checks.c12")

CHECK = Check("C15", "histories of up to 14 operations (install, update, failing update, uninstall, user edits) over up to four generated packages that share directories and "
                     "namespaces; non-trivial = a package was removed while another one was installed", workers=6)

NAMES = ["pkg", "My.Other", "third-pkg", "a"]


def spellings(name):
    return [name, name.upper(), name.lower(), name.replace("-", "_").replace(".", "-"), name.replace("-", "."), name.replace("-", "_")]


def own(s, i, version):
    """the description `s` as package number `i`, with file names no other package has"""
    def f(p):
        d, _, n = p.rpartition("/")
        stem, dot, ext = n.rpartition(".") if n[:-3].strip(".") else (n, "", "")
        n = f"m_{stem}{'_Z' * i}{dot}{ext}"  # the stems of the modules of some packages are prefixes of those of others
        return f"{d}/{n}" if d else n

    s = dict(s, name=NAMES[i], version=version)
    s["files"] = {f(p): c for p, c in s["files"].items()}
    s["data"] = {(k, f(p)): c for (k, p), c in s["data"].items()}
    s["entry_points"] = {g: {n + str(i): r for n, r in e.items()} for g, e in s["entry_points"].items()}
    return s


packages = st.lists(st.tuples(c12.specs(), c12.specs()), min_size=2, max_size=4).map(
    lambda l: [[own(a, i, "1.0"), own(b, i, "2.0")] for i, (a, b) in enumerate(l)])
op = st.tuples(st.sampled_from(["install", "install", "install", "update", "update", "bad update", "bad install", "uninstall", "uninstall", "force", "user file", "user pyc", "user deletes", "user edits"]), st.integers(0, 3), st.integers(0, 5))


class Wheel(Package):
    def __init__(self, s, wheel):
        self.s, self.wheel = s, wheel

    descriptor = property(lambda self: wk.descriptor(self.s))

    def dependencies(self, target, extras=None):
        return []

    def is_compatible_with(self, env):
        return True

    def install_to(self, target, user_request=None, store_mode=None):
        WheelDistribution(self.descriptor, self.wheel).install_to(target, user_request)


@CHECK.test("histories", st.tuples(packages, st.lists(op, min_size=4, max_size=14), st.sampled_from(sorted(wk.LAYOUTS))).filter(lambda c: all(c12.valid(s, c[2]) for p in c[0] for s in p)), quick=700, thorough=12000)
def check_histories(case, t):
    pool, ops, layout = case
    scratch = t.scratch()
    root = scratch / "outer" / "root"
    target = wk.target(root, layout)
    (scratch / "outer" / "keep").write_text("outside")
    lay = wk.LAYOUTS[layout]
    base_dirs = {p for p, e in wk.snapshot(root).items() if e[0] == "dir"}
    mine, installed = {}, {}  # the files of the user; package number -> (version number, owned files, request, precompiled)

    def prepare(i, j, bad=False):
        s = pool[i][j]
        content = wk.members(s)
        record = None
        if bad:
            record = wk.record_text({p: c + b"x" if p.endswith("METADATA") else c for p, c in content.items()}, f"{wk.dist_info_name(s)}/RECORD", s["alg"]) if False else ""
        return Wheel(s, wk.write_wheel(scratch / f"dist{i}{j}{bad}", s, content, record))

    def call(f):
        with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return f()

    def owned(i, j):
        s = pool[i][j]
        site = lay["purelib" if s["purelib"].lower() == "true" else "platlib"]
        info = f"{site}/{wk.dist_info_name(s)}"
        files = {p: c for p, c in c12.expected(s, layout).items()}
        files.update({f"{info}/{n}": None for n in ("RECORD", "INSTALLER", "INSTALLATION_MODE")})
        return files, info

    def remember(i, j, request):
        files, info = owned(i, j)
        if request:
            files[f"{info}/REQUESTED"] = None
        compiled = {os.path.normpath(f"{os.path.dirname(info)}/{r[0]}") for r in wk.read_record(root / info / "RECORD") if r[0].endswith(".pyc")}
        installed[i] = (j, files, request, compiled)

    for kind, i, j in ops:
        i %= len(pool)
        j %= 2
        name = spellings(NAMES[i])[(i + j) % 6]
        removed = False
        if kind in ("install", "bad install"):
            if i in installed:
                continue
            package = prepare(i, j, kind == "bad install")
            request = Dependency.parse(NAMES[i]) if j or (i % 2) else None
            try:
                call(lambda: package.install_to(target, request))
            except OSError:
                if kind == "install":
                    raise
            else:
                t.check(kind == "install", "a wheel with an empty record was installed", key="accepted")
                remember(i, j, request)
            target.site_packages.reload()
        elif kind in ("update", "bad update"):
            package = prepare(i, j, kind == "bad update")
            request = Dependency.parse(NAMES[i] + " >=0.5") if j else None
            old = installed.get(i)
            removed = old is not None
            try:
                call(lambda: package.update_at(target, request))
            except OSError:
                if kind == "update":
                    raise
                t.label("failed update")
            else:
                t.check(kind == "update", "a wheel with an empty record was installed", key="accepted")
                remember(i, j, request or (old and old[2]))
                target.site_packages.reload()
        elif kind in ("uninstall", "force"):
            if kind == "force":
                done = target.force_remove(name)
                t.eq(done, i in installed, f"force_remove({name!r}) of an installed package")
            else:
                p = target.site_packages.installed_package(name)
                t.eq(p is not None, i in installed, f"{name!r} is found")
                if p:
                    p.uninstall()
            removed = i in installed
            installed.pop(i, None)
        elif i in installed:
            files = sorted(p for p in installed[i][1] if "/INST" not in p and "/RECORD" not in p and "/REQ" not in p and "/METADATA" not in p)
            p = files[j * 7 % len(files)]
            if kind == "user file":
                q = f"{os.path.dirname(p)}/mine{i}{j}".lstrip("/")
                if ".dist-info" not in q:
                    (root / q).parent.mkdir(parents=True, exist_ok=True)
                    (root / q).write_text("mine")
                    mine[q] = b"mine"
            elif kind == "user pyc":
                for p in [p for p in files if p.endswith(".py")][j::2]:
                    q = root / os.path.dirname(p) / "__pycache__" / (Path(p).stem + ".cpython-39.pyc")
                    q.parent.mkdir(parents=True, exist_ok=True)
                    q.write_bytes(b"")
                    q.with_suffix(".opt-1.pyc").write_bytes(b"")
            elif kind == "user deletes":
                if (root / p).is_file():
                    (root / p).unlink()
                installed[i][1].pop(p)
                t.label("deleted")
            elif kind == "user edits" and (root / p).is_file():
                (root / p).write_bytes(b"edited")
                installed[i][1][p] = b"edited"
        if removed and len(installed) > (kind != "uninstall" and kind != "force"):
            t.nontrivial(True)

        # the tree and the listing are those of the model
        after = wk.snapshot(root)
        where = f"after {kind} of {NAMES[i]} {j + 1}.0"
        want = dict(mine)
        for _, files, _, _ in installed.values():
            want.update(files)
        got = {p: e for p, e in after.items() if e[0] != "dir" and "/__pycache__/" not in "/" + p}
        for p in sorted(set(got) ^ set(want)):
            t.fail(f"{where}, {p} is {'missing' if p in want else 'left behind'}", key="missing" if p in want else "left behind")
        for p, c in want.items():
            t.check(c is None or got[p][1] == c, f"{where}, the content of {p} changed", key="content")
        compiled = set().union(*(c for *_, c in installed.values()))
        for p in compiled:
            t.check(p in after or _source(p) not in got, f"{where}, the compiled file {p} of an installed package is missing", key="pyc")
        for p in after:
            if p.endswith(".pyc"):
                t.check(_source(p) in got or p in compiled or any(_source(p) in owned(k, v)[0] for k, (v, *_) in installed.items()), f"{where}, the compiled file {p} is left behind", key="pyc left")
        dirs = {p for p, e in after.items() if e[0] == "dir"} - base_dirs
        for d in sorted(dirs):
            if d.endswith("__pycache__") and any(os.path.dirname(p) == os.path.dirname(d) and p.endswith(".py") for k, (v, *_) in installed.items() for p in owned(k, v)[0]):
                continue  # of a module that cannot be compiled
            if any((d + "/") in p + "/" and p.startswith(d) for k, (v, *_) in installed.items() for p in owned(k, v)[0]):
                continue  # the user deleted what was in it
            t.check(any(p.startswith(d + "/") for p, e in after.items() if e[0] != "dir"), f"{where}, the empty directory {d} is left behind", key="empty directory")
        t.eq(base_dirs - set(p for p, e in after.items() if e[0] == "dir"), set(), f"{where}, directories of the environment that were removed", key="base")
        fresh = wk.target(root, layout, make=False).site_packages
        for site in (target.site_packages, fresh):
            t.eq({p.name_key: (str(p.version), p.user_request and str(p.user_request)) for p in site.installed_packages()},
                 {wk.descriptor(pool[k][0]).name_key: (pool[k][v]["version"], r and str(r)) for k, (v, _, r, _) in installed.items()}, f"{where}, the listing", key="listing")
        for k in range(len(pool)):
            for sp in spellings(NAMES[k]):
                t.eq(fresh.installed_package(sp) is not None, k in installed, f"{where}, looking up {sp!r}", key="lookup")
        t.check((scratch / "outer" / "keep").read_text() == "outside" and set(os.listdir(scratch / "outer")) == {"keep", "root"}, f"{where}, the outside changed", key="outside")


def _source(pyc):
    d, n = os.path.split(pyc)
    return os.path.join(os.path.dirname(d), re.sub(r"\.cpython-\d+(\.opt-\d)?\.pyc$", ".py", n))


foreign = st.lists(st.sampled_from(["../../../../outside/file", "{outer}/outside/file", "../../../outside/file", "../../../../root2/file", "", ".", "..", "../..", "missing.py", "other", "other/", "link", "linkdir/file", "../../../bin/theirs", "a,b", "../site-packages/mod.py", "m0_x/../mod.py"]), min_size=1, max_size=5)


@CHECK.test("records", st.tuples(foreign, st.booleans()), quick=300, thorough=4000)
def check_records(case, t):
    """packages that were installed by others: whatever their record says, only files inside the environment are removed"""
    lines, absolute = case
    scratch = t.scratch()
    outer = scratch / "outer"
    root = outer / "root"
    target = wk.target(root, "venv")
    site = root / wk.LAYOUTS["venv"]["purelib"]
    for d in ("outside", "root2", "root-2"):
        (outer / d).mkdir()
        (outer / d / "file").write_text("outside")
    (site / "other").mkdir()
    (site / "other" / "inner").write_text("inner")
    (site / "mod.py").write_text("")
    (site / "a,b").write_text("")
    (site / "link").symlink_to(outer / "outside" / "file")
    (site / "linkdir").symlink_to(outer / "outside")
    (root / "bin" / "theirs").write_text("")
    info = site / "pkg-1.0.dist-info"
    info.mkdir()
    (info / "METADATA").write_text("Metadata-Version: 2.1\nName: pkg\nVersion: 1.0\n")
    lines = [l.format(outer=outer) for l in lines]
    (info / "RECORD").write_text("".join(('"' + l + '"' if "," in l or not l else l) + ",,\n" for l in lines + ["pkg-1.0.dist-info/METADATA", "pkg-1.0.dist-info/RECORD"]))
    before = wk.snapshot(outer)
    t.nontrivial(any("outside" in l or "root2" in l or "link" in l for l in lines))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        target.site_packages.installed_package("pkg").uninstall()
    gone = {p for p in before if not os.path.lexists(outer / p)}
    site_r = str(site.relative_to(outer))
    allowed = {f"{site_r}/pkg-1.0.dist-info", f"{site_r}/pkg-1.0.dist-info/METADATA", f"{site_r}/pkg-1.0.dist-info/RECORD"}
    for l in lines:
        p = os.path.normpath(os.path.join(site_r, l))
        if before.get(p, ("dir",))[0] != "dir" and p.startswith("root/"):
            allowed.add(p)
    t.eq(gone, allowed, f"removed by uninstalling a package with the record {lines}", key="removed")
    after = wk.snapshot(outer)
    t.eq({p: e for p, e in before.items() if p not in gone}, after, "the rest of the files", key="changed")
