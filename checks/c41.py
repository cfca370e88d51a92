"""C41: environment zoos with shared packages. Oracle: for every environment of the zoo, an ordinary environment on which the same operations were performed; both must look the same from the inside."""
import json
import os
import shutil
import subprocess
from pathlib import Path

from hypothesis import strategies as st

import buildkit as bk
import wheelkit as wk
from checks.c42 import quiet
from vlib import Check
from pkm.api.dependencies.dependency import Dependency
from pkm.api.environments.environment import Environment
from pkm.api.packages.package import PackageDescriptor
from pkm.api.environments.environment_builder import EnvironmentBuilder
from pkm.api.environments.environments_zoo import EnvironmentsZoo
from pkm.api.versions.version_specifiers import AllowAllVersions
from pkm.resolution.pubgrub import UnsolvableProblemException

CHECK = Check("C41", "histories of installing, upgrading and removing packages of many kinds (commands, scripts, data files, import hooks, extras, source distributions, containers) in several environments of a zoo, with deleted "
                     "environments and clean-ups; non-trivial = two environments used the same shared package, or a clean-up found both used and unused ones", workers=8)

NAMES = ["aa", "B.b", "c-c", "dd", "2e"]
MODULES = ["aa", "b_b", "c_c", "dd", "m2e"]
ENVS = ["one", "two", "three"]
LOOK = '''
import json, sys, importlib, importlib.metadata as im
out = {}
for m in %r:
    try:
        mod = importlib.import_module(m)
    except ImportError:
        continue
    seen = [getattr(mod, "V", None), getattr(mod, "HOOKED", None)]
    for sub in ("sub", "sub.deep", "_native"):
        try:
            seen.append(importlib.import_module(m + "." + sub).V)
        except ImportError:
            seen.append(None)
    out[m] = seen
dists = sorted([d.metadata["Name"], d.version, sorted(d.requires or []), sorted((e.group, e.name, e.value) for e in d.entry_points), d.read_text("REQUESTED"), d.read_text("notes.txt")] for d in im.distributions())
print(json.dumps([out, dists]))
''' % (MODULES + [m + "_top" for m in MODULES],)
FEATURES = ["sub", "deep", "command", "command", "script", "sh-script", "same-stem", "nested-script", "data", "pth", "platlib", "notes", "empty-dir", "sdist", "top"]

package = st.tuples(st.lists(st.sampled_from(FEATURES), max_size=3, unique=True), st.lists(st.tuples(st.integers(0, 4), st.sampled_from(["", "<2", ">=2", "extra", "extra"])), max_size=2))
op = st.one_of(
    st.tuples(st.just("install"), st.integers(0, 2), st.sampled_from([0, 0, 1, 2, 2, 3, 4]), st.sampled_from(["", "", "==1.0", "==2.0", "[x]"]), st.booleans()),
    st.tuples(st.just("install"), st.integers(0, 2), st.sampled_from([0, 0, 1, 2, 2, 3, 4]), st.sampled_from(["", "", "==1.0", "==2.0", "[x]"]), st.booleans()),
    st.tuples(st.just("uninstall"), st.integers(0, 2), st.integers(0, 4)),
    st.tuples(st.just("app"), st.integers(0, 2), st.integers(0, 4)),
    st.tuples(st.sampled_from(["clean", "clean", "reload", "foreign"])),
    st.tuples(st.just("delete"), st.integers(0, 2)))
start = st.one_of(st.just([]), st.tuples(st.integers(0, 2), st.sampled_from([("", ""), ("", "[x]"), ("[x]", ""), ("==1.0", "==1.0"), ("==1.0", "[x]==1.0"), ("==2.0", "==2.0")])).map(
    lambda x: [("install", 0, x[0], x[1][0], False), ("install", 1, x[0], x[1][1], False)]))
case_strategy = st.tuples(st.lists(st.tuples(package, package), min_size=5, max_size=5), st.tuples(st.sampled_from([[], [], [("foreign",)]]), start, st.lists(op, min_size=4, max_size=8)).map(lambda x: x[0] + x[1] + x[2]), st.sampled_from([0, 0, 0, 0, 4, 1, 2, 3]), st.sampled_from([2, 2, 3, 1])).map(lambda x: with_extras(x))


def with_extras(case):
    """where the first requests differ in an extra, there is something in that extra"""
    packages, ops, *rest = case
    packages = list(packages)
    for o in ops[:3]:
        if o[0] == "install" and o[3].startswith("[x]") and o[2] < 3:
            packages[o[2]] = tuple((f, [*deps, (4, "extra")]) for f, deps in packages[o[2]])
    return (packages, ops, *rest)


def write_package(d, i, v, features, deps):
    name, module, version = NAMES[i], MODULES[i], f"{v + 1}.0"
    code = f"V = {version!r}\nimport sys, json\ndef main():\n    print(json.dumps([{name!r}, V, sys.argv[1:], sys.prefix]))\n    return 0\n"
    requires = [f"{NAMES[j]}{s}" if s != "extra" else f"{NAMES[j]}; extra == 'x'" for j, s in deps if j > i]
    if "sdist" in features:
        bk.write_sdist(d, dict(name=name, version=version, token=f"built {version}", requires_dist=requires))
        return
    files = {f"{module}/__init__.py": code}
    if "sub" in features:
        files[f"{module}/sub/__init__.py"] = f"V = 'sub {version}'\n"
    if "deep" in features:
        files[f"{module}/sub/__init__.py"] = f"from .deep import V\n"
        files[f"{module}/sub/deep.py"] = f"V = 'deep {version}'\n"
    if "top" in features:
        files[f"{module}_top.py"] = f"V = 'top {version}'\n"
    if "empty-dir" in features:
        files[f"{module}/data.txt"] = ""
    data = f"{wk.norm(name)}-{version}.data"
    if "script" in features:
        files[f"{data}/scripts/s-{module}"] = f"#!python\nimport {module}\n{module}.main()\n"
    if "sh-script" in features:
        files[f"{data}/scripts/sh-{module}"] = f"#!/bin/sh\necho '[\"sh {version}\"]'\n"
    if "same-stem" in features:
        files[f"{data}/scripts/run-{module}.other"] = f"#!python\nimport {module}\n{module}.main()\n"
    if "nested-script" in features:
        files[f"{data}/scripts/nested/n-{module}"] = f"#!python\nimport {module}\n{module}.main()\n"
    if "data" in features:
        files[f"{data}/data/share/{module}.txt"] = f"data {version}"
    if "pth" in features:
        files[f"{module}-hook.pth"] = f"import {module}; {module}.HOOKED = {version!r}\n"
    eps = {f"run-{module}": f"{module}:main", **({f"only{v}-{module}": f"{module}:main"} if v else {})} if "command" in features else {}
    spec = dict(name=name, version=version, requires=requires, files=files, purelib="platlib" not in features)
    if "notes" in features:
        files[f"{wk.dist_info_name(spec)}/notes.txt"] = f"notes {version}"
    spec["extras"] = ["x"]
    if eps:
        spec["entry_points"] = {"console_scripts": eps}
    wk.write_wheel(d, spec)


def configure(root, repo, **repos):
    (root / "etc/pkm").mkdir(parents=True, exist_ok=True)
    (root / "etc/pkm/repositories.toml").write_text(f'inheritance = "none"\n[repos.local]\ntype = "file-system"\npath = "{repo}"\n')


class _World:
    def __init__(self, case, t):
        packages, self.ops, sharing, size = case
        self.t, self.d = t, t.scratch().resolve()
        self.repo, self.zoo_path = self.d / "repo", self.d / "zoo"
        for i, versions in enumerate(packages):
            for v, (features, deps) in enumerate(versions):
                write_package(self.repo, i, v, features, deps)
        if sharing == 4:  # the zoo is reached through a link
            (self.d / "real").mkdir()
            self.zoo_path.symlink_to(self.d / "real")
            sharing = 0
        else:
            self.zoo_path.mkdir()
        self.excluded = {}
        if sharing:
            self.excluded = {1: NAMES, 2: ["AA", "b-B"], 3: ["b_b", "C.c", "nothing"]}[sharing]
            (self.zoo_path / "env-zoo.toml").write_text("[package-sharing]\n" + ("enabled = false\n" if sharing == 1 else f"enabled = true\nexclude = {json.dumps(self.excluded)}\n"))
        configure(self.zoo_path, self.repo)
        self.zoo = EnvironmentsZoo.load(self.zoo_path)
        self.names = ENVS[:size]
        self.vars = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}
        for n in self.names:
            self.create(n)
        self.zoo = EnvironmentsZoo.load(self.zoo_path)
        self.shared_by_two = self.partly_cleaned = False
        self.plain_looks = {}

    def create(self, n):
        getattr(self, "plain_looks", {}).pop(n, None)
        env = self.zoo.create_environment(n, AllowAllVersions)
        self.t.check(env.zoo is not None and env.zoo.path == self.zoo_path, "the created environment does not know its zoo")
        EnvironmentBuilder.create(self.d / "plain" / n)
        configure(self.d / "plain" / n, self.repo)

    def envs(self, n):
        return self.zoo.load_environment(n), Environment(self.d / "plain" / n)

    def look(self, root):
        r = subprocess.run([str(root / "bin/python"), "-c", LOOK], capture_output=True, env=self.vars, cwd=self.d)
        self.t.eq((r.returncode, r.stderr), (0, b""), "running the interpreter of an environment")
        return json.loads(r.stdout)

    def scripts(self, root, run):
        out = {}
        for p in sorted((root / "bin").rglob("*")):
            if p.is_dir() or p.name.startswith("python"):
                continue
            k = str(p.relative_to(root / "bin"))
            out[k] = os.access(p, os.X_OK)
            if run:
                r = subprocess.run([str(p), "x"], capture_output=True, env=self.vars, cwd=self.d)
                out[k] = (out[k], r.returncode, r.stdout.decode().replace(str(root), "ROOT"), bool(r.stderr))
        return out

    def others(self, root):
        """files that are neither in the site packages nor in bin"""
        return {k: v for k, v in wk.snapshot(root, pyc=False).items() if not k.startswith(("lib", "bin", "etc")) and k != "pyvenv.cfg"}

    def verify(self, touched=None, run=False):
        t = self.t
        t.eq(sorted(e.path.name for e in EnvironmentsZoo.load(self.zoo_path).list()), sorted(self.names), "the environments of the zoo")
        for n in self.names:
            zoo_root, plain_root = self.zoo_path / n, self.d / "plain" / n
            if n == touched or n not in self.plain_looks:  # an ordinary environment only changes when something is done with it
                self.plain_looks[n] = self.look(plain_root)
            got, want = self.look(zoo_root), self.plain_looks[n]
            t.eq(got[0], want[0], f"what can be imported in {n} (after {touched})")
            t.eq(got[1], want[1], f"the packages that {n} shows (after {touched})")
            runs = run or n == touched
            t.eq(self.scripts(zoo_root, runs), self.scripts(plain_root, runs), f"the commands of {n} (after {touched})")
            t.eq(self.others(zoo_root), self.others(plain_root), f"other files of {n} (after {touched})")
            sees = lambda env: sorted((p.name, str(p.version), str(p.user_request), sorted(map(str, p.published_metadata.dependencies))) for p in env.site_packages.installed_packages())
            t.eq(sees(Environment(zoo_root)), sees(Environment(plain_root)), f"the packages pkm finds in {n}")
        t.eq([str(p) for p in self.shared() if p.name != "cp27-cp27m-win32" and p.parts[0] in {x.lower().replace("-", "_").replace(".", "_") for x in self.excluded}], [], "packages that are excluded from sharing were shared")
        used = [u for n in self.names for u in {*self.used(n)}]
        if len(used) != len(set(used)):
            self.shared_by_two = True
        self.ever_shared = getattr(self, "ever_shared", False) or bool(used)
        for u in used:
            t.check(u.is_dir(), f"a shared package that is in use is missing: {u}")

    def shared(self):
        root = self.zoo_path / ".zoo/shared"
        return sorted(p.relative_to(root) for p in root.glob("*/*/*")) if root.exists() else []

    def used(self, n):
        return [Path(m.read_text()).resolve() for m in (self.zoo_path / n).glob("lib/**/SHARED")]

    def both(self, n, f):
        """performs an operation on both environments, they have to agree on whether it is possible"""
        outcome = []
        for env in self.envs(n):
            try:
                quiet(lambda: f(env))
                outcome.append("done")
            except UnsolvableProblemException:
                outcome.append("impossible")
        self.t.eq(outcome[0], outcome[1], "performing an operation with and without sharing")
        self.t.label(outcome[0])

    def step(self, op):
        t, kind = self.t, op[0]
        n = self.names[op[1] % len(self.names)] if len(op) > 1 and self.names else None
        if kind == "clean":
            before = self.shared()
            quiet(self.zoo.clean_unused_shared)
            used = {u for e in self.names for u in self.used(e)}
            t.eq([str(self.zoo_path.resolve() / ".zoo/shared" / p) for p in self.shared()], sorted(str(u) for u in used), "shared packages after a clean-up, against those in use")
            t.eq([str(p) for p in (self.zoo_path / ".zoo").rglob("*") if p.is_dir() and not any(p.iterdir()) and p.parent.name not in (".zoo",) and not any(u in p.resolve().parents for u in used)], [], "empty directories after a clean-up")
            if used and len(before) > len(self.shared()):
                self.partly_cleaned = True
            t.label("clean")
        elif kind == "foreign":  # what environments of an interpreter of another kind would have shared
            for name in NAMES:
                for version in ("1.0", "2.0"):
                    d = self.zoo_path / ".zoo/shared" / PackageDescriptor.package_name_key(name) / version / "cp27-cp27m-win32"
                    for part in ("dist-info", "purelib", "platlib"):
                        (d / part).mkdir(parents=True, exist_ok=True)
                    (d / "dist-info/METADATA").write_text(f"Metadata-Version: 2.1\nName: {name}\nVersion: {version}\nRequires-Dist: missing-package\n\n")
        elif kind == "reload":
            self.zoo = EnvironmentsZoo.load(self.zoo_path)
        elif n is None:
            return
        elif kind == "delete":
            self.zoo.delete_environment(n)
            shutil.rmtree(self.d / "plain" / n)
            self.names.remove(n)
            if len(self.names) == 0:
                self.names.append(n)
                self.create(n)
        elif kind == "install":
            dep = NAMES[op[2]] + op[3]
            self.both(n, lambda env: env.install([Dependency.parse(dep)], updates=[NAMES[op[2]]] if op[4] else None))
        elif kind == "uninstall":
            self.both(n, lambda env: env.uninstall([NAMES[op[2]]]))
        elif kind == "app":
            def install_app(env):
                c = env.package_containers.container_of(NAMES[op[2]])
                if c:
                    c.uninstall()
                else:
                    env.package_containers.install(Dependency.parse(NAMES[op[2]]))
            self.both(n, install_app)
        self.verify(n)


@CHECK.test("histories", case_strategy, quick=90, thorough=1500)
def histories(case, t):
    w = _World(case, t)
    for op in w.ops:
        w.step(op)
        t.nontrivial(w.shared_by_two or w.partly_cleaned)
    w.step(("clean",))
    w.verify(run=True)
    t.label("something shared" if w.ever_shared else "nothing shared")
    t.label("shared by two" if w.shared_by_two else "-")


NAME = st.sampled_from(["one", "two", "three", "my-env", "nothing", "plain-dir", "file", "."])


@CHECK.test("commands of a zoo", st.tuples(
    st.lists(st.tuples(st.sampled_from(FEATURES), st.sampled_from(FEATURES)), min_size=2, max_size=2), st.booleans(),
    st.lists(st.one_of(st.tuples(st.just("export"), st.integers(0, 1), st.integers(0, 1), st.sampled_from(["run-{}", "s-{}", "sh-{}", "nothing", "run-{}.other"])), st.tuples(st.just("export-all"), st.integers(0, 1), st.integers(0, 1)),
                       st.tuples(st.just("activate"), st.sampled_from([None, "", "/bin", "/x:/y"]), st.booleans(), st.booleans()), st.tuples(st.just("delete"), NAME)), min_size=3, max_size=8)), quick=120, thorough=2000)
def commands(case, t):
    features, sharing, ops = case
    d = t.scratch().resolve()
    for i, f in enumerate(features):
        write_package(d / "repo", i, i, {"command", *f} - {"sdist", "nested-script"}, [])
    (d / "zoo").mkdir()
    if not sharing:
        (d / "zoo/env-zoo.toml").write_text("[package-sharing]\nenabled = false\n")
    configure(d / "zoo", d / "repo")
    zoo = EnvironmentsZoo.load(d / "zoo")
    names = ["one", "two"]
    for n in names:
        quiet(lambda: zoo.create_environment(n, AllowAllVersions).install([Dependency.parse(NAMES[0]), Dependency.parse(NAMES[1])]))
    (d / "zoo/plain-dir").mkdir()
    (d / "zoo/plain-dir/keep").write_text("kept")
    (d / "zoo/file").write_text("kept")
    vars = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}
    runs = lambda p: (lambda r: (r.returncode, r.stdout, r.stderr))(subprocess.run([str(p), "arg"], capture_output=True, env=vars, cwd=d))
    bin, want, interesting = d / "zoo/.zoo/bin", {}, False
    for op in ops:
        before = wk.snapshot(d / "zoo", pyc=False)
        if op[0] == "activate":
            _, path, own, fails = op
            env = dict(vars) if own else os.environ
            saved = dict(env)
            try:
                env.pop("PATH", None)
                if path is not None:
                    env["PATH"] = path
                try:
                    with (zoo.activate(env) if own else zoo.activate()):
                        t.eq(env.get("PATH"), str(bin) + (":" + path if path else ""), "PATH while the zoo is active")
                        if fails:
                            raise KeyError("stop")
                except KeyError as e:
                    t.check(fails and e.args == ("stop",), lambda: f"activation ended with {e!r}")
                t.check(env.get("PATH") == path, lambda: f"PATH was {path!r} before the activation and is {env.get('PATH')!r} after it")
            finally:
                env.clear()
                env.update(saved)
            t.eq(wk.snapshot(d / "zoo", pyc=False), before, "the zoo after an activation")
            continue
        n = op[1] if op[0] == "delete" else ["one", "two"][op[1]]
        try:
            if op[0] == "export":
                script = op[3].format(MODULES[op[2]])
                zoo.export_script(n, script)
                exported = [script]
            elif op[0] == "export-all":
                package = NAMES[op[2]]
                zoo.export_all_scripts(n, package)
                _, fs = op[2], {"command", *features[op[2]]}
                m = MODULES[op[2]]
                exported = [f"run-{m}", *([f"only1-{m}"] if op[2] else []), *([f"s-{m}"] if "script" in fs else []), *([f"sh-{m}"] if "sh-script" in fs else []), *([f"run-{m}.other"] if "same-stem" in fs else [])]
            else:
                zoo.delete_environment(n)
                t.check(n in names, lambda: f"{n} was deleted though it is no environment of the zoo")
                names.remove(n)
                gone = {k: v for k, v in before.items() if k.split("/")[0] != n}
                t.eq(wk.snapshot(d / "zoo", pyc=False), gone, f"the zoo after {n} was deleted")
                t.label("deleted")
                continue
        except Exception as e:
            if n in names and (op[0] != "export" or (d / "zoo" / n / "bin" / script).exists()):
                raise
            t.eq({k: v for k, v in wk.snapshot(d / "zoo", pyc=False).items() if k != ".zoo/bin"}, {k: v for k, v in before.items() if k != ".zoo/bin"}, f"the zoo after {op} failed ({e!r})")
            t.label("refused")
            interesting = True
            continue
        t.check(n in names, lambda: f"{op} was possible though {n} does not exist")
        for s in exported:
            source = d / "zoo" / n / "bin" / s
            t.check((bin / s).is_file() and os.access(bin / s, os.X_OK), lambda: f"{op}: {s} was not exported")
            want[s] = runs(source)
            t.eq((want[s][0], want[s][2]), (0, b""), f"running {s} of {n}")
            t.eq(runs(bin / s), want[s], f"the output of the exported command {s}")
        t.eq(sorted(p.name for p in bin.iterdir()), sorted(want), "the exported commands")
        t.label(op[0])
        interesting = interesting or len(want) > 1
    t.nontrivial(interesting)
