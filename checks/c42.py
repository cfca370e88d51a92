"""C42: application containers. Real environments, real commands; oracle: a model of what is in each container and constraints on what its commands can import."""
import contextlib
import hashlib
import base64
import io
import json
import os
import shutil
import subprocess
import sys
from pathlib import Path

from hypothesis import strategies as st

import wheelkit as wk
from vlib import Check
from pkm.api.dependencies.dependency import Dependency
from pkm.api.environments.environment import Environment
from pkm.api.environments.environment_builder import EnvironmentBuilder
from pkm.api.packages.package import PackageDescriptor
from pkm.api.packages.package_installation_info import StoreMode
from pkm.api.projects.project import Project
from pkm.resolution.pubgrub import UnsolvableProblemException

CHECK = Check("C42", "histories of installing, updating and removing application containers and their plugins next to ordinary packages, from packages and from projects, with all exposed commands executed after every step; "
                     "non-trivial = two containers existed together, or one with plugins was updated or removed", workers=8)

MAIN = '''
import json, os, subprocess, sys

def look():
    out = {}
    for m in ["toola", "toolb", "toolc", "appd", "appe", "lib", "extra", "plug1", "plug2", "helper"]:
        try:
            v = getattr(__import__(m), "V", None)
        except ImportError:
            continue
        if v:
            out[m] = v
    return out

def run(what):
    out = dict(seen=look(), args=sys.argv[1:], what=what)
    if "child" in sys.argv:
        out["child"] = json.loads(subprocess.run([sys.executable, "-c", "import json, MOD\\nprint(json.dumps(MOD.look()))"], capture_output=True, check=True).stdout)
    print(json.dumps(out))
    return int(os.environ.get("STATUS", "0"))

class Cls:
    @staticmethod
    def main():
        return run("Cls")

def main():
    return run("main")

def other():
    return run("other")
'''
LOOK = "import json\nexec(%r)\nprint(json.dumps(look()))" % MAIN
APPS = [("toola", "toola"), ("Tool.B", "toolb"), ("2tool-c", "toolc"), ("app_d", "appd"), ("App-E", "appe")]
PROJECTS = (3, 4)
COMMANDS = [["a", "a-2", "2a", "class"], ["b.1", "b-1", "b_1"], ["c", "4c"], ["d", "import", "d-1"], ["e", "e.1"]]
FUNCS = ["main", "Cls.main", "other"]
LIBS = {"": ("1.0", "2.0"), "<2": ("1.0",), ">=2": ("2.0",)}
PLUGINS = [("plug1", "<2"), ("plug2", ">=2"), ("extra", None)]

command = st.tuples(st.integers(0, 3), st.sampled_from(FUNCS))
version = st.tuples(st.lists(command, max_size=3), st.sampled_from([None, "", "", "<2", ">=2"]), st.booleans())
op = st.one_of(
    st.tuples(st.sampled_from(["install"] * 3 + ["update"] * 2), st.integers(0, 4), st.integers(0, 1), st.sampled_from(["AUTO", "COPY"])),
    st.tuples(st.sampled_from(["remove", "remove", "fail"]), st.integers(0, 4)),
    st.tuples(st.sampled_from(["plugin", "plugin", "unplug"]), st.integers(0, 4), st.integers(0, 2)),
    st.tuples(st.sampled_from(["env", "unenv"]), st.integers(0, 4)))
case_strategy = st.tuples(st.lists(st.tuples(version, version), min_size=5, max_size=5), st.lists(op, min_size=5, max_size=9), st.booleans(), st.permutations(range(5)), st.sampled_from([2, 2, 3]))
ORDINARY = [("lib", "2.0"), ("extra", "1.0"), ("toola", "1.0"), ("2tool-c", "2.0"), ("Tool.B", "1.0")]


def commands_of(apps, i, v):
    out = {}
    for c, f in apps[i][v][0]:
        out[COMMANDS[i][c % len(COMMANDS[i])]] = f
    return out


def quiet(f):
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        return f()


def write_repository(d, apps):
    source = lambda m, v: {m + ".py": f"V = {v!r}\n" + MAIN.replace("MOD", m)}
    for v in ("1.0", "2.0"):
        wk.write_wheel(d / "repo", dict(name="lib", version=v, files=source("lib", v), entry_points={"console_scripts": {"not-exposed": "lib:main"}}))
    for n, need in PLUGINS:
        wk.write_wheel(d / "repo", dict(name=n, version="1.0", requires=[] if need is None else [f"lib{need}"], files=source(n, "1.0"), entry_points={"console_scripts": {"plugged": n + ":main"}}))
    wk.write_wheel(d / "repo", dict(name="helper", version="1.0", files=source("helper", "1.0"), entry_points={"console_scripts": {"helps": "helper:main"}}))
    for i, (name, module) in enumerate(APPS):
        for v in (0, 1):
            _, need, _ = apps[i][v]
            requires = [] if need is None else [f"lib{need}"]
            eps = {k: f"{module}:{f}" for k, f in commands_of(apps, i, v).items()}
            if i not in PROJECTS:
                wk.write_wheel(d / "repo", dict(name=name, version=f"{v + 1}.0", requires=requires, files=source(module, f"{v + 1}.0"), entry_points={"console_scripts": eps} if eps else {}))
                continue
            p = d / f"project{i}-{v}"
            (p / "src" / module).mkdir(parents=True)
            (p / "src" / module / "__init__.py").write_text(source(module, f"{v + 1}.0")[module + ".py"])
            text = f'[project]\nname = "{name}"\nversion = "{v + 1}.0"\ndescription = "an application"\n[build-system]\nrequires = ["pkm"]\nbuild-backend = "pkm.api.buildsys"\n'
            if exposes(apps, i, v):
                requires = [*requires, "helper"]
            if i == 3:
                text += f'[tool.pkm.application]\ncontainerized = true\ndependencies = {json.dumps(requires)}\nexposed-packages = {json.dumps(["helper"] if exposes(apps, i, v) else [])}\n[tool.pkm.application.dependency-overwrites]\n'
            else:
                text = text.replace("description", f"dependencies = {json.dumps(requires)}\ndescription")
            text += "[project.scripts]\n" + "".join(f"{json.dumps(k)} = {json.dumps(e)}\n" for k, e in eps.items())
            (p / "pyproject.toml").write_text(text)


def exposes(apps, i, v):
    return i == 3 and apps[i][v][2]


def exposed(apps, i, v):
    out = {k: (f.split(".")[0], APPS[i][1]) for k, f in commands_of(apps, i, v).items()}
    if exposes(apps, i, v):
        out["helps"] = ("main", "helper")
    return out


def libs_of(apps, state):
    """the versions of lib that a container in this state may hold; None = it needs no lib"""
    needs = [apps[state["app"]][state["version"]][1], *(dict(PLUGINS)[p] for p in state["plugins"])]
    needs = [n for n in needs if n is not None]
    if not needs:
        return None
    return set.intersection(*(set(LIBS[n]) for n in needs))


def record_problems(dist_info):
    site = dist_info.parent
    out = []
    for line in (dist_info / "RECORD").read_text().splitlines():
        path, sig, size = line.rsplit(",", 2)
        f = site / path
        if not f.exists():
            out.append(f"{path} does not exist")
        elif sig:
            data = f.read_bytes()
            alg, _, want = sig.partition("=")
            if base64.urlsafe_b64encode(hashlib.new(alg, data).digest()).rstrip(b"=").decode() != want:
                out.append(f"{path} has another hash")
            if size and int(size) != len(data):
                out.append(f"{path} has another size")
    return out


class _World:
    def __init__(self, case, t):
        self.apps, self.ops, self.bytecode, pool, size = case
        self.pool = pool[:size]
        self.t = t
        self.d = t.scratch().resolve()
        write_repository(self.d, self.apps)
        self.root = self.d / "env"
        EnvironmentBuilder.create(self.root)
        (self.root / "etc/pkm").mkdir(parents=True, exist_ok=True)
        (self.root / "etc/pkm/repositories.toml").write_text(f'inheritance = "none"\n[repos.local]\ntype = "file-system"\npath = "{self.d / "repo"}"\n')
        self.env = Environment(self.root)
        self.containers = {}
        self.ordinary = set()
        self.vars = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON") and k != "PKM_PACKAGE_CONTAINER"}
        if not self.bytecode:
            self.vars["PYTHONDONTWRITEBYTECODE"] = "1"
        self.env.installation_target
        self.initial_bin = {p.name for p in (self.root / "bin").iterdir()}
        self.initial = self.snapshot()

    def snapshot(self):
        s = wk.snapshot(self.root, pyc=False)
        return {k: v for k, v in s.items() if not k.startswith("etc")}

    def app_request(self, i, v):
        if i in PROJECTS:
            p = Project.load(self.d / f"project{i}-{v}")
            p.attached_environment = self.env
            return p
        return Dependency.parse(f"{APPS[i][0]} =={v + 1}.0")

    def container(self, i):
        return self.env.package_containers.container_of(APPS[i][0])

    def files_of(self, i):
        c = Environment(self.root).package_containers.container_of(APPS[i][0])
        if c is None:
            return set()
        mine = {str(f.relative_to(self.root)) for f in c.package.dist_info.installed_files()}
        data = str(Path(c.installation_target.data).relative_to(self.root))
        return {k for k in self.snapshot() if k in mine or k.startswith(data + "/")}

    def run(self, command, *args, status=0):
        r = subprocess.run([str(self.root / "bin" / command), *args], capture_output=True, env={**self.vars, "STATUS": str(status)}, cwd=self.d)
        t = self.t
        t.eq(r.returncode, status, f"exit status of command {command!r}: {r.stderr.decode()[-500:]}")
        t.eq(r.stderr, b"", f"stderr of command {command!r}")
        return json.loads(r.stdout)

    def seen_in(self, state, seen, what):
        t, apps = self.t, self.apps
        own = {APPS[state["app"]][1]: f"{state['version'] + 1}.0", **{p: "1.0" for p in state["plugins"]}}
        if exposes(apps, state["app"], state["version"]):
            own["helper"] = "1.0"
        for k, v in own.items():
            t.eq(seen.get(k), v, f"{what}: version of {k}")
        libs = libs_of(apps, state)
        if libs:
            t.check(seen.get("lib") in libs, f"{what}: sees lib {seen.get('lib')}, its container needs one of {sorted(libs)}")
        inherited = {m: v for n, m, v in self.ordinary_modules()}
        for k, v in seen.items():
            if k not in own and not (k == "lib" and libs):
                leftover = k in ("lib", "helper") and k in state["once"]  # what an earlier version or plugin needed may stay
                t.check(leftover or inherited.get(k) == v, f"{what}: can import {k} {v}, which is neither in its container nor in the environment")

    def ordinary_modules(self):
        for n, v in self.ordinary:
            i = next((i for i, (a, m) in enumerate(APPS) if a == n), None)
            yield n, (n if i is None else APPS[i][1]), v
            if i is not None and (need := self.apps[i][int(v[0]) - 1][1]) is not None:
                yield None, "lib", self.env_lib

    def verify(self, final=False):
        t, apps = self.t, self.apps
        for env in (self.env, Environment(self.root)):
            listed = {}
            for c in env.package_containers.containers():
                listed[c.containerized_package.name_key] = (str(c.containerized_package.version), sorted(p.name_key for p in c.list_installed_plugins()))
            key = PackageDescriptor.package_name_key
            t.eq(listed, {key(APPS[i][0]): (f"{s['version'] + 1}.0", sorted(s["plugins"])) for i, s in self.containers.items()}, "the containers that are listed, with their versions and plugins")
            for i, (n, _) in enumerate(APPS):
                for spelling in (n, n.lower().replace("-", "_")):
                    t.eq(env.package_containers.container_of(spelling) is not None, i in self.containers, f"container of {spelling!r} exists")
        scripts = {p.name for p in (self.root / "bin").iterdir()} - self.initial_bin
        want = {c: i for i, s in self.containers.items() for c in exposed(apps, i, s["version"])}
        ordinary = set()
        self.env_lib = None
        plain = subprocess.run([str(self.root / "bin/python"), "-c", LOOK], capture_output=True, env=self.vars, cwd=self.d)
        t.eq((plain.returncode, plain.stderr), (0, b""), "running the environment's interpreter")
        plain = json.loads(plain.stdout)
        self.env_lib = plain.get("lib")
        for n, v in self.ordinary:
            i = next((i for i, (a, m) in enumerate(APPS) if a == n), None)
            if i is not None:
                ordinary |= {*commands_of(apps, i, int(v[0]) - 1)}
                if apps[i][int(v[0]) - 1][1] is not None:
                    ordinary.add("not-exposed")
            else:
                ordinary |= {"not-exposed"} if n == "lib" else {"plugged"}
        t.eq(scripts, {*want} | ordinary, "the commands of the environment")
        t.eq(plain, {m: v for n, m, v in self.ordinary_modules()}, "what the environment's interpreter can import")
        for c, i in sorted(want.items()):
            if c in ordinary:
                continue  # the same command of an ordinary package
            state = self.containers[i]
            what, module = exposed(apps, i, state["version"])[c]
            out = self.run(c, "x", "y z", *(["child"] if final else []), status=3 if final else 0)
            t.eq(out["args"][:2], ["x", "y z"], f"arguments of {c}")
            t.eq(out["what"], what, f"the function that {c} calls")
            self.seen_in(state, out["seen"], f"command {c} of {APPS[i][0]}")
            if final:
                t.eq(out["child"], out["seen"], f"what the interpreter that {c} starts can import")

    def step(self, op):
        t, apps = self.t, self.apps
        kind, i = op[0], op[1]
        if kind in ("plugin", "unplug", "remove"):
            if not self.containers:
                return
            i = sorted(self.containers)[i % len(self.containers)]
        elif kind not in ("env", "unenv"):
            i = self.pool[i % len(self.pool)]
        before = self.snapshot()
        others = {j: self.files_of(j) for j in self.containers if j != i or kind in ("env", "unenv")}
        if kind in ("install", "update"):
            self.op_install(kind, i, op[2], op[3], before)
        elif kind == "remove":
            if c := self.container(i):
                quiet(c.uninstall)
            t.eq(self.containers.pop(i, None) is not None, c is not None, "a container to remove was found")
            c and t.label("removed")
        elif kind == "fail":
            try:
                quiet(lambda: self.env.package_containers.install(Dependency.parse(f"{APPS[i if i not in PROJECTS else 0][0]} ==9"), update=True))
            except UnsolvableProblemException:
                pass
            else:
                t.fail("a version that does not exist was installed")
            t.eq(wk.difference(before, self.snapshot()), "", "a failed installation changed the environment")
        elif kind in ("plugin", "unplug"):
            if i in self.containers:
                self.op_plugin(kind, i, PLUGINS[op[2]][0])
        else:
            n, v = ORDINARY[i]
            if kind == "env" and not any(a == n and {*commands_of(apps, j, int(v[0]) - 1)} for j, (a, _) in enumerate(APPS)):
                try:
                    quiet(lambda: self.env.install([Dependency.parse(f"{n} =={v}")]))
                    self.ordinary.add((n, v))
                except UnsolvableProblemException:
                    pass
            elif kind == "unenv" and (n, v) in self.ordinary:
                quiet(lambda: self.env.uninstall([n]))
                installed = {p.name for p in Environment(self.root).site_packages.installed_packages()}
                if n not in installed:
                    self.ordinary.discard((n, v))
        after = self.snapshot()
        for j, files in others.items():
            t.eq(wk.difference({k: before.get(k) for k in files}, {k: after.get(k) for k in files}), "", f"{op} changed files of the container of {APPS[j][0]}")

    def op_install(self, kind, i, v, mode, before):
        t, apps = self.t, self.apps
        state = self.containers.get(i)
        new = dict(app=i, version=v, plugins=set(state["plugins"]) if state else set(), once={"lib", "helper"} if state else set())
        libs = libs_of(apps, new)
        possible = libs is None or bool(libs)
        again = state is not None and state["version"] == v
        if again and kind == "install":
            possible = True  # nothing to do
        try:
            c = quiet(lambda: self.env.package_containers.install(self.app_request(i, v), StoreMode[mode], kind == "update"))
        except UnsolvableProblemException:
            t.check(not possible, f"installing {APPS[i][0]} {v + 1}.0 was found to be impossible")
            t.label("impossible")
            t.eq(wk.difference(before, self.snapshot()), "", "an impossible installation changed the environment")
            return
        t.check(possible, f"{APPS[i][0]} {v + 1}.0 was installed next to plugins it cannot be used with")
        t.check(c is not None and c.containerized_package.name_key == PackageDescriptor.package_name_key(APPS[i][0]), f"installing returned {c and c.containerized_package}")
        self.containers[i] = new
        if again and kind == "install":
            t.eq(wk.difference(before, self.snapshot()), "", "installing what is already installed changed the environment")
        else:
            t.eq(record_problems(c.package.dist_info.path), [], "the record of the container")
        if state and new["plugins"]:
            t.label("updated with plugins")

    def op_plugin(self, kind, i, name):
        t, apps = self.t, self.apps
        state = self.containers[i]
        target = self.container(i).installation_target
        if kind == "unplug":
            quiet(lambda: target.uninstall([name]))
            state["plugins"].discard(name)
            state["once"] |= {"lib"}
            return
        new = {**state, "plugins": state["plugins"] | {name}}
        libs = libs_of(apps, new)
        possible = libs is None or bool(libs)
        try:
            quiet(lambda: target.install([Dependency.parse(name)]))
        except UnsolvableProblemException:
            t.check(not possible, f"plugin {name} was found to be impossible")
            t.label("impossible")
            return
        t.check(possible, f"plugin {name} was installed although the container cannot hold it")
        state["plugins"].add(name)


@CHECK.test("histories", case_strategy, quick=100, thorough=1500)
def histories(case, t):
    w = _World(case, t)
    for op in w.ops:
        w.step(op)
        w.verify()
        t.nontrivial(len(w.containers) > 1 or any(s["plugins"] for s in w.containers.values()))
    w.verify(final=True)
    if len(w.ops) % 2:
        w.env = Environment(w.root)
    for n, v in sorted(w.ordinary):
        quiet(lambda: w.env.uninstall([n]))
    for i in [*w.containers]:
        w.step(("remove", sorted(w.containers).index(i)))
        w.ordinary = set()
        w.verify()
    t.eq(wk.difference(w.initial, wk_without(w)), "", "left after removing everything")


@CHECK.test("built applications", st.tuples(st.lists(st.tuples(version, version), min_size=5, max_size=5), st.booleans(), st.booleans()), quick=24, thorough=300)
def built(case, t):
    """an application project that is built into a wheel, and installed from it, is as the one that is installed directly"""
    apps, twice, other = case
    w = _World((apps, [], False, [0, 1, 2, 3, 4], 2), t)
    if other:
        w.step(("install", 0, 0, "AUTO"))
    for v in (0, 1) if twice else (0,):
        wheel = quiet(lambda: w.app_request(3, v).build_wheel(w.d / "built", target_env=w.env))
        t.check(wheel.is_file(), f"no wheel was built at {wheel}")
    with (w.root / "etc/pkm/repositories.toml").open("a") as f:
        f.write(f'[repos.built]\ntype = "file-system"\npath = "{w.d / "built"}"\n')
    for v in (0, 1) if twice else (0,):
        quiet(lambda: Environment(w.root).install([Dependency.parse(f"{APPS[3][0]} =={v + 1}.0")]))
        w.env = Environment(w.root)
        w.containers[3] = dict(app=3, version=v, plugins=set(), once=set())
        t.nontrivial(exposed(apps, 3, v))
        t.eq(record_problems(w.container(3).package.dist_info.path), [], "the record of the container")
        w.verify(final=True)
    for i in sorted(w.containers):
        quiet(lambda: w.env.uninstall([APPS[i][0]]) if i == 3 else w.container(i).uninstall())
        del w.containers[i]
        w.verify()
    t.eq(wk.difference(w.initial, w.snapshot()), "", "left after removing everything")


@CHECK.test("application sdists", st.tuples(st.lists(st.tuples(version, version), min_size=5, max_size=5), st.booleans()), quick=16, thorough=200)
def sdists(case, t):
    """the source of a containerized application that is built from an ordinary project installs into a container, with the project's dependencies inside it"""
    apps, update = case
    w = _World((apps, [], False, [0, 1, 2, 3, 4], 2), t)
    for v in (0, 1) if update else (0,):
        files = lambda: {k: c for k, c in wk.snapshot(w.d / f"project4-{v}", pyc=False).items() if c[0] == "file"}
        before = files()
        sdist = quiet(lambda: w.app_request(4, v).build_app_sdist(w.d / "built"))
        t.eq(wk.difference(before, files()), "", "building changed the project")
        shutil.unpack_archive(sdist, w.d / f"unpacked{v}", filter="data")
        (unpacked,) = (w.d / f"unpacked{v}").iterdir()
        project = Project.load(unpacked)
        project.attached_environment = w.env
        t.check(project.is_containerized_application(), "the built source is not a containerized application")
        t.eq((project.name, str(project.version)), (APPS[4][0], f"{v + 1}.0"), "built source")
        quiet(lambda: w.env.package_containers.install(project, update=True))
        w.containers[4] = dict(app=4, version=v, plugins=set(), once={"lib"})
        t.nontrivial(apps[4][v][1] is not None)
        w.verify(final=True)
    w.step(("remove", 0))
    t.eq(wk.difference(w.initial, w.snapshot()), "", "left after removing everything")


def wk_without(w):
    # directories that the interpreter filled with its caches are compared too
    return {k: v for k, v in wk.snapshot(w.root).items() if not k.startswith("etc")} if w.bytecode else w.snapshot()


overwrite = st.one_of(st.none(), st.just("lib ==2.0"), st.just("lib ==1.0"), st.sampled_from(["lib ==1.0", "lib ==2.0", "lib <2", "lib >=2"]))


@CHECK.test("overwritten dependencies", st.tuples(st.sets(st.sampled_from(["plug1", "plug2", "extra", "lib <2", "lib >=2", "lib"]), max_size=3).map(sorted), overwrite, st.booleans(), st.sampled_from(["AUTO", "COPY"])), quick=80, thorough=400)
def overwritten(case, t):
    """an application sees the versions that its dependency-overwrites give, whatever it and its dependencies need; what is not needed is not installed"""
    needs, over, unrelated, mode = case
    w = _World(([[([(0, "main")], None, False)] * 2] * 5, [], False, [0, 1, 2, 3, 4], 2), t)
    p = w.d / "project3-0/pyproject.toml"
    overs = ({} if over is None else {"lib": over}) | ({"helper": "helper ==1.0"} if unrelated else {})
    text = p.read_text().replace("dependencies = []", f"dependencies = {json.dumps(needs)}")
    text = text.replace("dependency-overwrites]\n", "dependency-overwrites]\n" + "".join(f"{k} = {json.dumps(d)}\n" for k, d in overs.items()))
    p.write_text(text)
    wanted = [n.partition(" ")[2] for n in needs if n.startswith("lib")] + [n for k, n in PLUGINS if k in needs and n is not None]
    libs = set.intersection(*(set(LIBS[n]) for n in wanted)) if wanted else None
    if over is not None and wanted:
        libs = {"1.0"} if over in ("lib ==1.0", "lib <2") else {"2.0"}
    before = w.snapshot()
    try:
        quiet(lambda: w.env.package_containers.install(w.app_request(3, 0), StoreMode[mode]))
    except UnsolvableProblemException:
        t.eq(libs, set(), "the installation was found to be impossible; the versions of lib that are possible")
        t.eq(wk.difference(before, w.snapshot()), "", "an impossible installation changed the environment")
        return
    t.check(libs != set(), f"an application that needs {needs} with overwrites {overs} was installed")
    t.nontrivial(over is not None and wanted)
    seen = w.run("d")["seen"]
    t.eq(sorted(seen), sorted({"appd", *(n for n in needs if not n.startswith("lib")), *(["lib"] if libs else [])}), "what the application can import")
    t.check(not libs or seen["lib"] in libs, f"the application sees lib {seen.get('lib')}, it has to be one of {sorted(libs or [])}")
