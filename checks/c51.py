"""C51: what is built, kept, cleaned and published. Oracle: a model of the directory of distributions (version -> files and the source state they were built from), kept over histories of builds (also failing ones), edits, bumps,
cleanings and publications; the content of the archives is read with zipfile and tarfile."""
import os
import shutil
import tarfile
import zipfile
from pathlib import Path
from unittest import mock

from hypothesis import strategies as st

import faults
import wheelkit as wk
from vlib import Check
from pkm.api.pkm import Pkm
from pkm.api.projects.project import Project
from pkm.api.repositories.repository import AuthParam, AuthParamType, RepositoryPublisher
from pkm.api.repositories.repository_management import RepositoryManagement
from pkm.api.versions.version import Version
from pkm.utils.http.http_client import HttpClient
from pkm_cli.controllers.prj_controller import PrjController
import httpd
from wheelkit import snapshot

CHECK = Check("C51", "projects x histories of builds (also into given directories, with the n-th file operation failing, with missing packages and interrupted), edits, version bumps, cleanings with kept versions, foreign files and links in the "
                     "directory of distributions, and publications whose n-th upload fails; caches that are filled and cleaned; non-trivial = a build or upload failed, or something was kept by a cleaning", workers=8)

VERSIONS = ["1.0.0", "1.0.1", "0.9", "1.0.0rc1", "2.0"]
FOREIGN = [("file", "notes.txt"), ("file", ".hidden"), ("dir", "0.1"), ("dir", "tmp/deep"), ("link", "latest"), ("link", "0.9"), ("filelink", "current.whl"), ("dangling", "gone"), ("linked file", "0.1/inner"), ("linked dir", "0.1/elsewhere")]
op = st.one_of(
    st.just(("build",)), st.just(("build",)),
    st.tuples(st.just("build into"), st.sampled_from(["out", "new/deep", "dist"])),
    st.tuples(st.just("fail"), st.integers(1, 12), st.sampled_from(["fault", "interrupt"])),
    st.just(("fail sdist",)), st.just(("fail wheel",)), st.just(("missing",)), st.just(("partial",)),
    st.tuples(st.just("edit"), st.integers(0, 9)),
    st.tuples(st.just("version"), st.sampled_from(VERSIONS)),
    st.tuples(st.just("clean"), st.one_of(st.none(), st.just("current"), st.lists(st.sampled_from(VERSIONS), max_size=3, unique=True))),
    st.tuples(st.just("foreign"), st.integers(0, len(FOREIGN) - 1)),
    st.tuples(st.just("publish"), st.one_of(st.none(), st.none(), st.integers(1, 2))),
    st.tuples(st.just("lookalikes"), st.integers(0, 8)),
    st.tuples(st.just("publish"), st.none()))


class Recorder(RepositoryPublisher):
    def __init__(self, fail):
        super().__init__("there")
        self.fail, self.sent = fail, []

    def authentication_params(self):
        return [AuthParam("user", AuthParamType.STRING), AuthParam("password", AuthParamType.PASSWORD)]

    def publish(self, auth_args, package_meta, distribution):
        if self.fail == len(self.sent) + 1:
            raise ConnectionError("the upload failed")
        self.sent.append((dict(auth_args), package_meta.package_name, str(package_meta.package_version), distribution.name, distribution.read_bytes()))


def marks(name, data, tmp):
    """the version and the state of the source in a distribution, None if it is not complete"""
    f = tmp / name
    f.write_bytes(data)
    try:
        if name.endswith(".whl"):
            with zipfile.ZipFile(f) as z:
                assert z.testzip() is None
                texts = [z.read("pack/__init__.py").decode(), z.read(next(n for n in z.namelist() if n.endswith(".dist-info/METADATA"))).decode()]
                assert any(n.endswith(".dist-info/RECORD") for n in z.namelist())
        else:
            with tarfile.open(f) as z:
                texts = [next(z.extractfile(m).read().decode() for m in z.getmembers() if m.name.endswith(e)) for e in ("pack/__init__.py", "PKG-INFO")]
    except Exception as e:
        return f"broken: {e!r}"
    finally:
        f.unlink()
    return texts[0], next(line.split(": ")[1] for line in texts[1].splitlines() if line.startswith("Version: "))


@CHECK.test("distributions", st.tuples(st.lists(op, min_size=2, max_size=9), st.sampled_from(["lib", "lib", "none", "cnt-app"]), st.booleans()), quick=400, thorough=5000)
def check_distributions(case, t):
    """the directory of distributions holds what was built last for each version, complete, until it is cleaned; publishing sends exactly that of the current version"""
    ops, kind, spelled = case
    top = t.scratch().resolve()
    root, tmp = top / "prj", t.scratch()
    outside = top / "outside"
    (root / "src/pack").mkdir(parents=True)
    (outside / "sub").mkdir(parents=True)
    (outside / "sub/file").write_text("keep me")
    (outside / "file").write_text("keep me")
    (root / "README.md").write_text("hello")
    version, state = "1.0.0", "state = 0\n"
    name = "The_prj" if spelled else "the-prj"

    def write():
        (root / "pyproject.toml").write_text(f'[project]\nname = "{name}"\nversion = "{version}"\ndescription = "d"\nreadme = "README.md"\n[build-system]\nrequires = ["pkm"]\nbuild-backend = "pkm.api.buildsys"\n'
                                             + (f'[tool.pkm.distribution]\ntype = "{kind}"\n' if kind != "lib" else ""))
        (root / "src/pack/__init__.py").write_text(state)
    write()
    dist = root / "dist"
    model = {}  # path below dist -> (state, version) of a distribution, or None for what something else put there
    elsewhere = snapshot(outside)
    kinds = {"lib": ["sdist", "wheel"], "none": [], "cnt-app": ["sdist"]}[kind]

    def distributions():
        # (the names of the archives are C24's matter)
        return {"sdist": lambda n: n.endswith(".tar.gz"), "wheel": lambda n: n.endswith(".whl")}

    def files(where):
        return {str(p.relative_to(where)): p for p in sorted(where.rglob("*")) if not p.is_dir() or p.is_symlink()} if where.exists() else {}

    def complete(where, after, want, got):
        """want: (state, version); got: the returned paths"""
        t.eq(sorted(p.parent.resolve() for p in got), [where.resolve()] * len(kinds), f"{after}: where the built distributions are", key="built")
        for k in kinds:
            found = [p for p in got if distributions()[k](p.name)]
            t.eq(len(found), 1, f"{after}: number of {k}s in {got}", key="built")
            t.eq(marks(found[0].name, found[0].read_bytes(), tmp), want, f"{after}: the source and version in {found[0].name}", key="content")

    def verify(after):
        t.eq(snapshot(outside), elsewhere, f"{after}: what is outside of the project", key="outside")
        t.eq((root / "src/pack/__init__.py").read_text(), state, f"{after}: the source", key="source")
        have = files(dist)
        t.eq(sorted(have), sorted(model), f"{after}: the files in the directory of distributions", key="files")
        for p, want in model.items():
            if want:
                t.eq(marks(have[p].name, have[p].read_bytes(), tmp), want, f"{after}: {p}", key="content")

    def built(where, got):
        if where == dist or dist in where.parents:
            for p in got:
                model[str(p.relative_to(dist))] = (state, version)

    for i, o in enumerate(ops):
        after = f"op {i} {o}"
        prj = Project.load(root)
        if o[0] == "edit":
            state = f"state = {o[1]}\n" * (1 + o[1])
            write()
        elif o[0] == "version":
            version = o[1]
            write()
        elif o[0] in ("build", "build into"):
            where = dist / version if o[0] == "build" else root / o[1]
            before = files(where)
            got = prj.build() if o[0] == "build" else prj.build(where)
            if got or kinds:
                complete(where, after, (state, version), got)
                built(where, got)
            t.eq(set(before) - set(files(where)), set(), f"{after}: lost files", key="lost")
        elif o[0] in ("fail", "fail sdist", "fail wheel", "missing"):
            snap = (os.path.lexists(dist), snapshot(dist) if dist.exists() else {})
            failed = True
            try:
                if o[0] == "fail":
                    with faults.fault_at(dist, o[1], KeyboardInterrupt if o[2] == "interrupt" else None):
                        got = prj.build()
                elif o[0] == "missing":
                    # (a package that is listed but is not there)
                    text = (root / "pyproject.toml").read_text()
                    (root / "pyproject.toml").write_text(text + '[tool.pkm.project]\npackages = ["src/pack", "src/missing"]\n')
                    try:
                        got = Project.load(root).build()
                    finally:
                        (root / "pyproject.toml").write_text(text)
                else:
                    opener = (tarfile, "open") if o[0] == "fail sdist" else (zipfile.ZipFile, "write")
                    with mock.patch.object(*opener, side_effect=OSError("disk full")):
                        got = prj.build()
                failed = False
            except (OSError, KeyboardInterrupt):
                t.label("a build failed")
                t.nontrivial()
            if failed:
                t.eq((os.path.lexists(dist), snapshot(dist) if dist.exists() else {}), snap, f"{after}: the directory of distributions after a build that failed", key="failed build")
            else:
                complete(dist / version, after, (state, version), got)
                built(dist / version, got)
        elif o[0] == "partial":
            # a single distribution is built into a directory of its own
            if kind == "lib":
                got = prj.build_wheel(top / "single")
                t.eq(marks(got.name, got.read_bytes(), tmp), (state, version), f"{after}: the wheel", key="content")
        elif o[0] == "clean":
            keep = o[1] and ([version] if o[1] == "current" else o[1])
            kept = {p: v for p, v in model.items() if keep and p.split(os.sep)[0] in keep and (dist / p.split(os.sep)[0]).is_dir()}
            if kept:
                t.nontrivial()
                t.label("kept")
            prj.directories.clean_dist(keep and [Version.parse(v) for v in keep])
            model = kept
            if dist.exists():
                t.eq({p.name for p in dist.iterdir()} - set(keep or []), set(), f"{after}: what is left", key="files")
        elif o[0] == "lookalikes":
            # directories whose names resemble the version that is kept
            looks = [f"{version}rc1", f"{version}.post1", f"{version}0", f"1{version}", f"v{version}", f"{version}+local", version[:-1], version.replace(".", "_"), f"{version} "]
            for look in {looks[o[1]], looks[0], looks[4]} - set(VERSIONS):
                if not os.path.lexists(dist / look):
                    (dist / look).mkdir(parents=True)
                    (dist / look / "x.whl").write_text("x")
                    model[f"{look}/x.whl"] = None
            keep = [version] if o[1] % 2 else ["1.0.0", version]
            kept = {p: v for p, v in model.items() if p.split(os.sep)[0] in keep and (dist / p.split(os.sep)[0]).is_dir()}
            prj.directories.clean_dist([Version.parse(v) for v in keep])
            model = kept
            t.nontrivial()
            t.eq({p.name for p in dist.iterdir()} - set(keep), set(), f"{after}: what is left", key="files")
        elif o[0] == "foreign":
            how, path = FOREIGN[o[1]]
            p = dist / path
            if not os.path.lexists(p) and not any(x.is_symlink() for x in p.parents):
                p.parent.mkdir(parents=True, exist_ok=True)
                if how == "dir":
                    p.mkdir()
                    p = p / "x"
                    p.write_text("x")
                elif how == "file":
                    p.write_text("x")
                else:
                    p.symlink_to({"link": outside, "filelink": outside / "file", "dangling": outside / "nothing", "linked file": outside / "file", "linked dir": outside / "sub"}[how])
                model[str(p.relative_to(dist))] = None
        elif o[0] == "publish":
            if (dist / version).is_symlink() or not kinds:
                continue
            ready = (dist / version).is_dir()
            known = {p: v for p, v in model.items() if p.split(os.sep)[0] == version}
            publisher = Recorder(o[1])
            auth = {"user": "é", "password": "p=w"}
            try:
                with mock.patch.object(RepositoryManagement, "publisher_for", lambda self, n: publisher if n == "there" else None):
                    used = PrjController(prj).publish("there", {**auth, "other": "x"})
                t.check(o[1] is None or o[1] > len(kinds), f"{after}: succeeded although an upload failed", key="publish")
                t.eq(used, auth, f"{after}: the returned credentials", key="publish")
            except ConnectionError:
                t.nontrivial()
                t.label("an upload failed")
                t.check(o[1] is not None, f"{after}: failed", key="publish")
            if not ready:
                for f in files(dist / version):
                    model[f"{version}/{f}"] = known[f"{version}/{f}"] = (state, version)
                t.eq(len(known), len(kinds), f"{after}: what was built to be published", key="publish")
            names = sorted(p.split(os.sep)[1] for p in known if p.count(os.sep) == 1)
            sent = sorted(x[3] for x in publisher.sent)
            if o[1] is None or o[1] > len(kinds):
                t.eq(sent, names, f"{after}: the uploaded files", key="publish")
            t.check(len(set(sent)) == len(sent), f"{after}: uploaded twice: {sent}", key="publish")
            for a, n, v, f, data in publisher.sent:
                t.eq((a, n, v), (auth, name, version), f"{after}: credentials, name and version given with {f}", key="publish")
                t.eq(data, (dist / version / f).read_bytes(), f"{after}: the upload of {f}", key="publish")
                if known.get(f"{version}/{f}"):
                    t.eq(marks(f, data, tmp), known[f"{version}/{f}"], f"{after}: the uploaded {f}", key="publish")
        verify(after)


@CHECK.test("caches", st.tuples(st.lists(st.sampled_from(["fetch", "fetch other", "change", "clean", "configure", "keep", "repository"]), min_size=3, max_size=8), st.booleans()), quick=120, thorough=1500)
def check_caches(case, t):
    """cleaning the caches removes what was cached, and nothing else; what was cached is obtained again, as it is now"""
    ops, held = case
    home = t.scratch() / "home"
    p = Pkm(home)
    t.cleanup(lambda: (p.threads.shutdown(wait=False)))
    server = httpd.server()
    content = {"/one": 0, "/two": 0}
    cached, mine, configured = {}, {}, None
    first = p.httpclient
    for i, o in enumerate(ops):
        after = f"op {i} {o} of {ops}"
        for path, n in content.items():
            server.routes[path] = {"status": 200, "body": f"{path} {n}".encode(), "headers": {"Cache-Control": "max-age=100000"}}
        if o.startswith("fetch"):
            path = "/two" if "other" in o else "/one"
            client = first if held else p.httpclient
            got = client.fetch_resource(server.base + path).data.read_bytes().decode()
            t.check(got in {f"{path} {n}" for n in (cached.get(path, content[path]), content[path])}, f"{after}: got {got!r}", key="stale")
            cached[path] = int(got.split()[1])
        elif o == "change":
            content = {k: v + 1 for k, v in content.items()}
        elif o == "configure":
            p.config, p.repository_loader  # (writes the defaults)
            configured = (home / "etc/pkm/general.toml").read_text() + "# mine\n"
            (home / "etc/pkm/general.toml").write_text(configured)
        elif o == "keep":
            for f in ("mine.txt", "envs/x/y", "resources/other", "etc/pkm-cli/secrets"):
                (home / f).parent.mkdir(parents=True, exist_ok=True)
                (home / f).write_text(f)
                mine[f] = f
        elif o == "repository":
            w = Path(p.repository_loader.workspace)
            (w / "some").mkdir(parents=True, exist_ok=True)
            (w / "some/state").write_text("x")
            b = Path(p.source_build_cache.workspace)
            b.mkdir(parents=True, exist_ok=True)
            (b / "state").write_text("x")
        elif o == "clean":
            t.nontrivial(bool(cached))
            p.clean_cache()
            cached = {}
            left = [str(x.relative_to(home)) for x in home.rglob("*") if x.is_file() and not str(x.relative_to(home)).startswith("etc")]
            t.eq(sorted(left), sorted(f for f in mine if not f.startswith("etc")), f"{after}: the files that are left", key="left")
        if configured:
            t.eq((home / "etc/pkm/general.toml").read_text(), configured, f"{after}: the configuration", key="configuration")
        for f in mine:
            t.check((home / f).read_text() == f, f"{after}: {f} is gone", key="lost")
