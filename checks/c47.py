"""C47: the dependencies of a project, its environment and its lock. Real projects, real environments, the real command line; oracle: the generated package universe and a model of what the
project asks for; the state is read from the dist-info folders, from pyproject.toml and from the lock file, and a refused request must have no solution (exhaustive search)."""
import contextlib
import io
import os
import re
import shutil
import tomllib
import warnings

from hypothesis import strategies as st
from packaging.requirements import Requirement
from packaging.utils import canonicalize_name
from packaging.version import Version

import wheelkit as wk
from checks.c16 import NAMES, VERSIONS, EXTRAS, active, allows, closure, marker_text, releases, req_text, reqs, solvable, specs
from vlib import Check
from pkm.api.projects.project import Project
from pkm.resolution.pubgrub import UnsolvableProblemException

CHECK = Check("C47", "histories of up to 9 commands on a project (add dependencies to the project or to an optional group, update, remove, install, lose the environment, edit by hand, bump the version, publish "
                     "or withdraw releases, broken wheels) over universes of 3-5 packages; non-trivial = an operation changed a package that was already installed, was refused, failed, or rebuilt the environment", workers=8)

KEYS = [canonicalize_name(n) for n in NAMES]
GROUPS = [None, None, None, "dev", "t.x"]
dependency = st.tuples(reqs, st.sampled_from([None, None, None, None, None, True, False]))
dependencies = st.lists(dependency, min_size=1, max_size=2)
op = st.one_of(
    st.tuples(st.just("add"), dependencies, st.sampled_from(GROUPS), st.booleans()),
    st.tuples(st.just("add"), dependencies, st.sampled_from(GROUPS), st.booleans()),
    st.tuples(st.just("add"), dependencies, st.sampled_from(GROUPS), st.booleans()),
    st.tuples(st.just("remove"), st.lists(st.integers(0, 4), min_size=1, max_size=2)),
    st.tuples(st.just("install"), st.sampled_from(GROUPS)),
    st.tuples(st.just("rebuild"), st.sampled_from(GROUPS)),
    st.tuples(st.just("edit"), st.lists(dependency, max_size=3), st.sampled_from(GROUPS)),
    st.tuples(st.just("bump"), st.sampled_from(["major", "minor", "patch"])),
    st.tuples(st.just("publish"), st.integers(0, 4), st.sampled_from(VERSIONS), st.booleans()),
    st.tuples(st.just("update"), st.integers(0, 4), st.sampled_from(["", ">={a}", "<={b}", ">={a},<={b}"]), st.sampled_from(GROUPS)),
    st.tuples(st.just("withdraw"), st.integers(0, 4), st.sampled_from(VERSIONS)))
case_strategy = st.tuples(st.lists(releases, min_size=3, max_size=5), st.tuples(st.sampled_from([None, "empty", "some"]), st.sampled_from([None, "some"]), st.lists(dependency, min_size=2, max_size=3)),
                          st.lists(op, min_size=4, max_size=9), st.sampled_from([None, None, None, (0, 0), (1, 1), (2, 0), (2, 1)]))


def quote(s):
    return "'" + s + "'" if "'" not in s else '"' + s.replace('"', '\\"') + '"'


class _World:
    def __init__(self, case, t):
        self.t = t
        self.uni, (has_deps, has_groups, first), self.ops, broken = case
        self.n = len(self.uni)
        self.d = t.scratch().resolve()
        self.root = self.d / "prj"
        self.broken, self.withdrawn, self.dists = set(), set(), 0
        if broken:
            p = broken[0] % self.n
            self.broken.add((p, sorted(self.uni[p])[broken[1] % len(self.uni[p])]))
        (self.root / "src/the_project").mkdir(parents=True)
        (self.root / "src/the_project/__init__.py").write_text("")
        (self.root / "etc/pkm").mkdir(parents=True)
        self.version, self.script = "1.2.3", 0
        self.deps = {None: first[:1] if has_deps == "some" else []}
        if has_groups:
            self.deps["dev"] = first[1:]
        self.deps = {g: self.unique(ds) for g, ds in self.deps.items()}
        self.write_project(has_deps is not None)
        self.publish()
        self.state = None  # of the environment: package number -> version
        self.group = None  # the optional group that was asked for last
        self.locked = None
        self.synced = False  # the environment was installed after the last edit

    def unique(self, ds):
        return list({d[0][0] % self.n: d for d in ds}.values())

    def text(self, d):
        return req_text(d[0], self.n) + marker_text(d[1])

    def write_project(self, listed=True):
        lines = ["# the project", "[project]", 'name = "The.Project"', f'version = "{self.version}"  # version']
        if listed or self.deps[None]:
            lines.append("dependencies = [" + ", ".join(quote(self.text(d)) for d in self.deps[None]) + "]")
        if len(self.deps) > 1:
            lines += ["[project.optional-dependencies]"] + [f"{quote(g)} = [{', '.join(quote(self.text(d)) for d in ds)}]" for g, ds in self.deps.items() if g]
        lines += ["[project.scripts]", f'cmd{self.script} = "the_project:main"'] if self.script else []
        lines += ["[build-system]", "requires = []", 'build-backend = "pkm.api.buildsys"']
        (self.root / "pyproject.toml").write_text("\n".join(lines) + "\n")

    def publish(self):
        """the repository with all the releases (what a repository held is remembered by its path)"""
        self.dists += 1
        dist = self.d / f"dist{self.dists}"
        dist.mkdir()
        for p, rel in enumerate(self.uni):
            for v, ds in rel.items():
                if (p, v) in self.withdrawn:
                    continue
                spec = dict(name=NAMES[p], version=v, files={f"m{p}.py": f"# {p} {v}"}, extras=EXTRAS, requires=[req_text(r, self.n) + marker_text(m) for r, m in ds])
                if (p, v) in self.broken:
                    content = wk.members(spec)
                    record = wk.record_text(content, f"{wk.dist_info_name(spec)}/RECORD")
                    content[f"m{p}.py"] = b"# other"
                    wk.write_wheel(dist, spec, content=content, record=record)
                else:
                    wk.write_wheel(dist, spec)
        (self.root / "etc/pkm/repositories.toml").write_text(f'inheritance = "none"\n[repos.local]\ntype = "file-system"\npath = "{dist}"\n')

    def call(self, f):
        with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return f()

    def pkm(self, *args):
        from pkm_cli import main
        self.call(lambda: main.main(["pkm", "-c", str(self.root), *args]))

    def installed(self, after):
        """what the dist-info folders say: (the version of the project, package number -> version)"""
        site = next(iter((self.root / ".venv/lib").glob("python*/site-packages")), None)
        out, project = {}, None
        for d in sorted(os.listdir(site)) if site else ():
            if not d.endswith(".dist-info"):
                continue
            meta = (site / d / "METADATA").read_text()
            name, version = re.search("^Name: (.*)$", meta, re.M)[1], re.search("^Version: (.*)$", meta, re.M)[1]
            if canonicalize_name(name) == "the-project":
                self.t.check(project is None, f"{after}: the project is installed twice", key="twice")
                project = version
                continue
            p = KEYS.index(canonicalize_name(name))
            self.t.check(p not in out, f"{after}: two versions of {name} are installed", key="twice")
            module = site / f"m{p}.py"
            self.t.check(module.exists() and module.read_text() == f"# {p} {version}", f"{after}: {name} {version}: its module is not the installed one", key="files")
            out[p] = version
        return project, out

    def files(self):
        return {f: (self.root / f).read_bytes() if (self.root / f).exists() else None for f in ("pyproject.toml", "etc/pkm/packages-lock.toml")}

    def roots(self, deps, group):
        return [(d[0][0] % self.n, d[0][2], tuple(d[0][3])) for g in {None, group} for d in deps.get(g, []) if d[1] is not False]

    def available(self):
        # a release that is not in the repository any more may stay installed
        out = {p: [v for v in rel if (p, v) not in self.withdrawn] for p, rel in enumerate(self.uni)}
        for p, v in (self.state or {}).items():
            out[p] = list(dict.fromkeys(out[p] + [v]))
        return out

    def read_back(self, after, deps, added, state=None):
        """the listing in pyproject.toml is the model's; the dependencies that named no version may have been given one"""
        t = self.t
        doc = tomllib.loads((self.root / "pyproject.toml").read_text())["project"]
        t.eq(doc["version"], self.version, f"{after}: the version in pyproject.toml", key="version changed")
        listed = {None: doc.get("dependencies", []), **doc.get("optional-dependencies", {})}
        t.eq({g: [canonicalize_name(Requirement(x).name) for x in xs] for g, xs in listed.items() if xs}, {g: [KEYS[d[0][0] % self.n] for d in ds] for g, ds in deps.items() if ds}, f"{after}: the listed dependencies", key="listing")
        t.eq({g for g in listed if g}, {g for g in deps if g}, f"{after}: the optional groups", key="listing")
        out = {g: [] for g in deps}
        for g, ds in deps.items():
            for d, x in zip(ds, listed.get(g, [])):
                r, want = Requirement(x), Requirement(self.text(d))
                t.eq(sorted(r.extras), sorted(want.extras), f"{after}: extras of {x}", key="listing")
                t.eq(str(r.marker), str(want.marker), f"{after}: marker of {x}", key="listing")
                spec = d[0][2]
                if any(d is a for a in added) and not spec:
                    spec = ",".join(sorted(str(r.specifier).split(",")))
                    has = (state or {}).get(d[0][0] % self.n)
                    t.check(bool(spec) == (has is not None) and (not spec or allows(spec, has)), f"{after}: {x} was listed for an addition without a version, installed is {has}", key="listing")
                else:
                    for v in VERSIONS:
                        t.eq(allows(",".join(str(r.specifier).split(",")), v), allows(spec, v), f"{after}: does {x} allow {v}", key="listing")
                out[g].append(((d[0][0], d[0][1], spec, d[0][3]), d[1]))
        return out

    def consistent(self, after, before, deps, group, locks, kept=True):
        t = self.t
        project, state = self.installed(after)
        t.eq(project, self.version, f"{after}: the installed version of the project", key="project")
        roots = self.roots(deps, group)
        for p, s, _ in roots:
            t.check(p in state and allows(s, state[p]), f"{after}: the project needs {NAMES[p]}{s} but {state.get(p)} is installed", key="unsatisfied")
        needed = closure(self.uni, state, [(p, {e for q, _, x in roots if q == p for e in x}) for p, _, _ in roots])
        for p, e in needed.items():
            for q, s, _ in active(self.uni, p, state[p], e):
                t.check(q in state and allows(s, state[q]), f"{after}: {NAMES[p]} {state[p]} needs {NAMES[q]}{s} but {state.get(q)} is installed", key="unsatisfied")
        t.eq(set(state), set(needed), f"{after}: installed packages and packages that the project needs", key="needed")
        commands = sorted(f for f in os.listdir(self.root / ".venv/bin") if f.startswith("cmd"))
        t.eq(commands, [f"cmd{self.script}"] if self.script else [], f"{after}: the commands of the project", key="project")
        if locks:
            lock = tomllib.loads((self.root / "etc/pkm/packages-lock.toml").read_text())
            entries = sorted((canonicalize_name(x["package"].split("==")[0].strip()) if isinstance(x["package"], str) else canonicalize_name(x["package"]["name"]),
                              x["package"].split("==")[1].strip() if isinstance(x["package"], str) else x["package"]["version"]) for x in lock["lock"])
            t.eq(entries, sorted([(KEYS[p], v) for p, v in state.items()] + [("the-project", self.version)]), f"{after}: the locked packages", key="lock")
            self.locked = state
        return state

    def still_fine(self, state, roots):
        """what a state that satisfies the roots keeps, None if it does not satisfy them"""
        if any(p not in state or not allows(s, state[p]) for p, s, _ in roots):
            return None
        needed = closure(self.uni, state, [(p, {e for q, _, x in roots if q == p for e in x}) for p, _, _ in roots])
        if any(q not in state or not allows(s, state[q]) for p, e in needed.items() for q, s, _ in active(self.uni, p, state[p], e)):
            return None
        return {p: state[p] for p in needed}

    def step(self, k, op):
        t, kind = self.t, op[0]
        name = f"op {k} ({kind})"
        if kind == "publish":
            p = op[1] % self.n
            if op[2] not in self.uni[p]:
                self.uni = [dict(r) for r in self.uni]
                self.uni[p][op[2]] = next(iter(self.uni[p].values()))[:1]
                if op[3]:
                    self.broken.add((p, op[2]))
            self.withdrawn.discard((p, op[2]))
            return self.publish()
        if kind == "withdraw":
            self.withdrawn.add((op[1] % self.n, op[2]))
            return self.publish()
        if kind == "update":
            # an old release is required, and then updated within a range
            p, fresh = op[1] % self.n, [v for v in VERSIONS if v not in self.uni[op[1] % self.n]]
            if len(fresh) < 2:
                return
            self.uni = [dict(r) for r in self.uni]
            self.uni[p].update({v: [] for v in fresh})
            self.publish()
            a, b = fresh[0], fresh[1]
            return self.step(f"{k}a", ("add", [((p, 0, f"=={a}", []), None)], op[3], False)) or self.step(f"{k}b", ("add", [((p, 0, op[2].format(a=a, b=b), []), None)], op[3], True))
        if kind == "bump":
            a, b, c = map(int, self.version.split("."))
            self.version = {"major": f"{a + 1}.0.0", "minor": f"{a}.{b + 1}.0", "patch": f"{a}.{b}.{c + 1}"}[op[1]]
            return t.eq(str(Project.load(self.root).bump_version(op[1])), self.version, f"{name}: the version", key="version")
        if kind == "edit":
            self.deps, self.synced = {**self.deps, op[2]: self.unique(op[1])}, False
            self.script += len(op[1]) % 2
            return self.write_project()
        group, added, locks, updated = None, [], False, set()
        deps = self.deps
        files, before = self.files(), self.state
        preferred, rebuilt = self.state, False
        if kind == "add":
            added = self.unique(op[1])
            group, locks = op[2], True
            old = [d for d in deps.get(group, []) if d[0][0] % self.n not in {a[0][0] % self.n for a in added}]
            deps = {**deps, group: old + added}
            if op[3]:
                updated = {a[0][0] % self.n for a in added}
            action = lambda: self.pkm("install", *(["-o", group] if group else []), *(["-u"] if op[3] else []), *[self.text(a) for a in added])
        elif kind == "remove":
            from pkm_cli.controllers.prj_controller import PrjController
            gone = {i % self.n for i in op[1]}
            deps = {g: [d for d in ds if d[0][0] % self.n not in gone] for g, ds in deps.items()}
            group, locks = self.group, True
            action = lambda: self.call(lambda: PrjController(Project.load(self.root)).uninstall_dependencies([NAMES[i] for i in gone]))
        else:
            group = op[1]
            if group and group not in deps:
                group = None
            if kind == "rebuild" and (self.root / ".venv").exists():
                shutil.rmtree(self.root / ".venv")
                self.state = before = None
                self.synced = False
                rebuilt = True
                preferred = self.locked
            action = lambda: self.pkm("install", *(["-o", group] if group else []))
        snap = wk.snapshot(self.root / ".venv") if (self.root / ".venv").exists() else {}
        try:
            action()
        except UnsolvableProblemException:
            t.label("refused")
            t.nontrivial()
            try:
                solution = solvable(self.uni, self.available(), self.roots(deps, group))
            except OverflowError:
                solution = None
            t.check(solution is None, f"{name}: refused although {solution and {NAMES[p]: v for p, v in solution.items()}} satisfies everything", key="refused")
            failed = "refused"
        except Exception as e:
            if not self.broken:
                raise
            t.label("failed")
            t.nontrivial()
            failed = f"failed with {type(e).__name__}"
        else:
            failed = None
        if failed:
            t.eq(self.files(), files, f"{name}: pyproject.toml and the lock, after it {failed}", key="failure writes")
            if before is not None and failed == "refused" and (kind != "remove" or self.synced):
                t.eq(wk.snapshot(self.root / ".venv"), snap, f"{name}: the environment, after it {failed}", key="failure writes")
            if failed != "refused":
                self.state = None if before is None else self.installed(name)[1]
                return True
            return
        if kind == "remove" and not self.synced:  # removal does not install what was missing before
            self.deps, self.locked = self.read_back(name, deps, added), None
            self.state = self.installed(name)[1]
            return
        after = self.consistent(name, before, deps, group, locks)
        self.synced = True
        if not locks:
            t.eq(self.files(), files, f"{name}: pyproject.toml and the lock", key="install writes")
        if preferred is not None and not updated:
            keeps = self.still_fine(preferred, self.roots(deps, group))
            if keeps is not None and not (rebuilt and any((p, v) in self.withdrawn for p, v in keeps.items())):
                t.eq(after, keeps, f"{name}: the {'locked' if rebuilt else 'installed'} packages satisfy everything, and stay", key="kept")
                if rebuilt:
                    t.label("rebuilt from the lock")
                    t.nontrivial()
        roots = self.roots(deps, group)
        for p in updated:
            # (an update that nothing else restricts)
            own = [s for q, s, _ in roots if q == p]
            others = [q for q, v in after.items() if q != p and any(x[0] == p for x in active(self.uni, q, v, set(EXTRAS)))]
            fitting = [v for v in self.uni[p] if (p, v) not in self.withdrawn and all(allows(s, v) for s in own)]
            if own and not others and fitting and not self.broken and not any(self.uni[p][v] for v in fitting):
                t.eq(after[p], max(fitting, key=Version), f"{name}: the version of {NAMES[p]} after its update", key="update")
                t.label("updated")
        if before and any(after.get(p) != v for p, v in before.items()):
            t.label("changed")
            t.nontrivial()
        t.label(kind)
        self.deps = self.read_back(name, deps, added, after)
        self.state, self.group = after, group


@CHECK.test("histories of a project", case_strategy, quick=300, thorough=4000)
def check_histories(case, t):
    w = _World(case, t)
    for k, op_ in enumerate(w.ops):
        if w.step(k, op_):
            break
