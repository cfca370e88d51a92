"""C16: installing, updating and uninstalling packages in an environment. Oracle: the generated package universe itself and a model of what the user requested: the state read
from the dist-info folders must satisfy every dependency and request (decided by specmodel), hold nothing else, and a refused request must have no solution (exhaustive search)."""
import contextlib
import importlib
import io
import os
import re
import sys
import time
import warnings

from hypothesis import strategies as st

import specmodel
import wheelkit as wk
from vlib import Check
from pkm.api.dependencies.dependency import Dependency
from pkm.api.environments.environment_builder import EnvironmentBuilder
from pkm.api.packages.standard_package import AbstractPackage, PackageArtifact
from pkm.api.pkm import pkm
from pkm.api.repositories.repository import AbstractRepository
from pkm.api.versions.version import Version
from pkm.resolution.pubgrub import UnsolvableProblemException
from pkm.utils.types import Serializable

CHECK = Check("C16", "histories of up to 9 operations (install, update, uninstall, plan, withdrawn releases) over universes of 3-6 packages with 1-3 releases each, dependencies with "
                     "bounds, extras and markers, in several spellings; non-trivial = an operation changed or removed a package that was already installed, or was refused", workers=7)

NAMES = ["pkg-a", "Pkg_B", "c", "my.Dep", "e1", "F-f"]
VERSIONS = ["1.0", "1.1", "2.0", "2.1.3", "3.0"]
EXTRAS = ["x", "y"]
TRUE, FALSE = 'python_version >= "3"', 'sys_platform == "win32"'


def spellings(n):
    n = NAMES[n]
    return [n, n, n.lower(), n.upper(), re.sub("[-_.]", "-", n), re.sub("[-_.]", "_", n), re.sub("[-_.]", ".", n)]


specs = st.one_of(st.just(""), st.just(""), st.builds("{}{}".format, st.sampled_from([">=", "<", "==", "!=", "<=", ">"]), st.sampled_from(VERSIONS)),
                  st.sampled_from(["~=1.0", "~=2.0", "==2.*", "==1.*", ">=1.1,<3.0"]))
# (package number, spelling, spec, extras, marker): marker is None, True, False or the name of the extra
reqs = st.tuples(st.integers(0, 5), st.integers(0, 6), specs, st.one_of(st.just([]), st.just([]), st.lists(st.sampled_from(EXTRAS), min_size=1, max_size=2, unique=True)))
deps = st.tuples(reqs, st.sampled_from([None, None, None, True, False, "x", "y", "x"]))
releases = st.dictionaries(st.sampled_from(VERSIONS), st.lists(deps, max_size=3), min_size=1, max_size=3)
universes = st.lists(releases, min_size=3, max_size=6)
requests = st.lists(st.tuples(reqs, st.sampled_from([None, None, None, None, True, False])), min_size=1, max_size=2)
op = st.one_of(
    st.tuples(st.just("install"), requests, st.just([])),
    st.tuples(st.just("install"), requests, st.just([])),
    st.tuples(st.just("install"), requests, st.lists(st.tuples(st.integers(0, 5), st.integers(0, 6)), min_size=1, max_size=2)),
    st.tuples(st.just("plan"), requests, st.just([])),
    st.tuples(st.sampled_from(["uninstall", "uninstall", "force"]), st.lists(st.tuples(st.integers(0, 5), st.integers(0, 6)), min_size=1, max_size=2), st.just([])),
    st.tuples(st.just("withdraw"), st.integers(0, 5), st.sampled_from(VERSIONS)),
    st.tuples(st.just("again"), st.just(0), st.just(0)))


def req_text(r, n):
    i, s, spec, extras = r
    return spellings(i % n)[s] + (f"[{','.join(extras)}]" if extras else "") + spec


def marker_text(m):
    return "" if m is None else " ; " + (TRUE if m is True else FALSE if m is False else f'extra == "{m}"')


class Pkg(AbstractPackage, Serializable):
    def __init__(self, spec, path):
        super().__init__(wk.descriptor(spec), [PackageArtifact(path.name)])
        self.path, self.spec = path, spec

    def __getstate__(self):
        return [self.spec, self.path]

    def __setstate__(self, state):
        self.__init__(*state)

    def _retrieve_artifact(self, artifact):
        return self.path


class Repo(AbstractRepository):
    def __init__(self, packages):
        super().__init__("universe")
        self.packages = packages  # (number, version) -> Pkg
        self.withdrawn = set()

    def _do_match(self, dependency, env):
        return self._sorted_by_version([p for k, p in self.packages.items() if k not in self.withdrawn and p.name_key == dependency.package_name_key
                                        and dependency.version_spec.allows_version(p.version)])


def allows(spec, v):
    return specmodel.spec_allows(spec or "*", v)


def active(uni, p, v, extras):
    """the dependencies of release v of package p with the extras: [(package, spec, extras)]"""
    return [(r[0] % len(uni), r[2], tuple(r[3])) for r, m in uni[p][v] if m is None or m is True or m in extras]


def closure(uni, state, roots):
    """the (package, extras) reachable from the roots [(package, extras)] through the installed packages; dependencies on packages that are not installed are dropped"""
    seen = {}
    todo = [(p, set(e)) for p, e in roots if p in state]
    while todo:
        p, e = todo.pop()
        if p in seen and e <= seen[p]:
            continue
        seen[p] = seen.get(p, set()) | e
        todo += [(q, set(x)) for q, _, x in active(uni, p, state[p], seen[p]) if q in state]
    return seen


def solvable(uni, available, roots):
    """is there an assignment that satisfies the roots [(package, spec, extras)]?"""
    steps = 0

    def go(chosen, ext, cons, todo):
        nonlocal steps
        steps += 1
        if steps > 20000:
            raise OverflowError
        if not todo:
            return chosen
        (p, s, x), rest = todo[0], todo[1:]
        cons = cons + [(p, s)]
        if p in chosen:
            if not allows(s, chosen[p]):
                return None
            new = set(x) - ext[p]
            if not new:
                return go(chosen, ext, cons, rest)
            e2 = {**ext, p: ext[p] | new}
            return go(chosen, e2, cons, rest + [d for d in active(uni, p, chosen[p], e2[p]) if d not in active(uni, p, chosen[p], ext[p])])
        for v in available.get(p, ()):
            if all(allows(c, v) for q, c in cons if q == p):
                if (r := go({**chosen, p: v}, {**ext, p: set(x)}, cons, rest + active(uni, p, v, set(x)))) is not None:
                    return r
        return None

    return go({}, {}, [], list(roots))


def installed_state(t, uni, site):
    """what the dist-info folders of the site say: package number -> (version, text of the request or None)"""
    state = {}
    if not site.exists():
        return state
    for d in sorted(os.listdir(site)):
        if not d.endswith(".dist-info"):
            continue
        meta = (site / d / "METADATA").read_text()
        name, version = re.search("^Name: (.*)$", meta, re.M)[1], re.search("^Version: (.*)$", meta, re.M)[1]
        p = [wk.norm(n).lower() for n in NAMES].index(wk.norm(name).lower())
        t.check(p not in state, f"two versions of {name} are installed", key="twice")
        for f in (site / f"m{p}.py", site / "ns" / f"m{p}.py"):
            t.check(f.exists() and f.read_text() == f"# {p} {version}", f"{name} {version}: its module {f.relative_to(site)} is not the installed one", key="files")
        requested = site / d / "REQUESTED"
        state[p] = (version, requested.read_text() if requested.exists() else None)
    t.eq({f for f in os.listdir(site / "ns") if f.endswith(".py")} if (site / "ns").exists() else set(), {f"m{p}.py" for p in state}, "modules in the shared package", key="files")
    modules = {int(m[1]) for f in os.listdir(site) if (m := re.fullmatch(r"m(\d)\.py", f))}
    t.eq(modules, set(state), "modules and installed packages", key="files")
    return state


def parse_request(text):
    m = re.fullmatch(r"\s*([\w.-]+)\s*(?:\[([^]]*)\])?\s*(\(.*\)|[^;]*?)\s*(?:;.*)?", text)
    return wk.norm(m[1]).lower(), sorted(e.strip() for e in (m[2] or "").split(",") if e.strip()), m[3].strip("() ")


@CHECK.test("histories", st.tuples(universes, st.lists(op, min_size=3, max_size=9), st.sampled_from(["none", "thread", "thread", "thread"])), quick=1100, thorough=16000)
def check_histories(case, t):
    uni, ops, mode = case
    n = len(uni)
    scratch = t.scratch()
    root = scratch / "env"
    if mode == "proc":  # worker processes load the environment themselves
        os.environ["PYTHONPATH"] = os.pathsep.join(p for p in sys.path if p)
        target = EnvironmentBuilder.create(root, wk.INTERPRETER).installation_target
        site = target.site_packages.purelib_path
    else:
        target = wk.target(root, "venv")
        site = root / wk.LAYOUTS["venv"]["purelib"]
    packages = {}
    for p, rel in enumerate(uni):
        for v, ds in rel.items():
            spec = dict(name=NAMES[p], version=v, files={f"m{p}.py": f"# {p} {v}", f"ns/m{p}.py": f"# {p} {v}"}, extras=EXTRAS, requires=[req_text(r, n) + marker_text(m) for r, m in ds])
            packages[p, v] = Pkg(spec, wk.write_wheel(scratch / "dist", spec))
    repo = Repo(packages)
    requested = {}  # package -> list of (spec, extras): all of them hold
    config, old_mode = pkm.config, pkm.config.concurrency_mode
    config.concurrency_mode = mode
    t.cleanup(lambda: setattr(config, "concurrency_mode", old_mode))
    last = None
    links = {pair for p, rel in enumerate(uni) for ds in rel.values() for r, _ in ds for pair in ((p, r[0] % n), (r[0] % n, p))}

    def call(f):
        with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return f()

    def state():
        return {p: v for p, (v, _) in installed_state(t, uni, site).items()}

    def available():
        out = {p: [v for v in rel if (p, v) not in repo.withdrawn] for p, rel in enumerate(uni)}
        for p, v in state().items():
            out[p] = list(dict.fromkeys(out[p] + [v]))
        return out

    def invariants(after):
        full = installed_state(t, uni, site)
        st_ = {p: v for p, (v, _) in full.items()}
        listed = {wk.norm(x.name).lower(): str(x.version) for x in target.site_packages.installed_packages()}
        t.eq(listed, {wk.norm(NAMES[p]).lower(): v for p, v in st_.items()}, f"{after}: the listing of installed packages", key="listing")
        for p, cons in requested.items():
            t.check(p in st_, f"{after}: the requested package {NAMES[p]} is not installed", key="request lost")
            for s, _ in cons:
                t.check(allows(s, st_[p]), f"{after}: {NAMES[p]} {st_[p]} is not what the user requested ({s})", key="request broken")
        for p, (v, text) in full.items():
            t.eq(text is not None, p in requested, f"{after}: {NAMES[p]} is marked as requested", key="marker")
            if text is not None:
                name, extras, spec = parse_request(text)
                t.eq(name, wk.norm(NAMES[p]).lower(), f"{after}: name in the request of {NAMES[p]}", key="marker")
                t.eq(extras, sorted({e for _, x in requested[p] for e in x}), f"{after}: extras in the request of {NAMES[p]}", key="marker")
                for w in VERSIONS:
                    t.eq(allows(spec, w), all(allows(s, w) for s, _ in requested[p]), f"{after}: does the request {text!r} of {NAMES[p]} allow {w}", key="marker")
        needed = closure(uni, st_, [(p, {e for _, x in cons for e in x}) for p, cons in requested.items()])
        t.eq(set(st_), set(needed), f"{after}: installed packages and packages needed by the requested ones", key="needed")
        for p, e in needed.items():
            for q, s, x in active(uni, p, st_[p], e):
                t.check(q in st_, f"{after}: {NAMES[p]} {st_[p]} needs {NAMES[q]}, which is not installed", key="missing")
                t.check(allows(s, st_[q]), f"{after}: {NAMES[p]} {st_[p]} needs {NAMES[q]}{s} but {st_[q]} is installed", key="unsatisfied")
        t.eq([x.name for x in target.site_packages.find_orphan_packages()], [], f"{after}: orphans", key="orphans")

    for k, (kind, a, b) in enumerate(ops):
        name = f"op {k} ({kind})"
        if kind == "again":
            if not last:
                continue
            kind, a, b = "again", last, []
        before, snap = state(), wk.snapshot(root)
        if kind == "withdraw":
            if (a % n, b) in packages:
                repo.withdrawn.add((a % n, b))
                last = None
            continue
        if kind in ("install", "plan", "again"):
            dependencies = [Dependency.parse(req_text(r, n) + marker_text(m)) for r, m in a]
            new = {}
            for r, m in a:
                if m is not False:
                    new.setdefault(r[0] % n, []).append((r[2], list(r[3])))
            updates = [spellings(i % n)[s] for i, s in b]
            wanted = {**requested, **new}
            touched = {i % n for i, _ in b}
            if touched & set(before):
                t.label("update of an installed package")
            planned = None
            try:
                if kind == "plan":
                    plan = call(lambda: target.plan_installation(dependencies, repo, updates=updates))
                    t.eq(wk.snapshot(root), snap, f"{name}: planning changed the environment", key="plan writes")
                    planned = {wk.norm(x.name).lower(): str(x.version) for x in plan.packages if x.name != "installation-request" and " " not in x.name}
                    call(lambda: plan.execute(concurrency_mode=mode))
                else:
                    call(lambda: target.install(dependencies, repo, updates=updates))
            except UnsolvableProblemException:
                t.label("refused")
                t.nontrivial(bool(before))
                t.eq(wk.snapshot(root), snap, f"{name}: a request that was refused changed the environment", key="refused writes")
                t.check(kind != "again", f"{name}: a request that was just fulfilled is refused", key="again")
                try:
                    solution = solvable(uni, available(), [(p, s, tuple(x)) for p, cons in wanted.items() for s, x in cons])
                except OverflowError:
                    continue
                t.check(solution is None, f"{name}: refused although {solution} satisfies everything", key="refused")
                last = None
                continue
            requested = wanted
            after = state()
            if planned is not None:
                t.eq({wk.norm(NAMES[p]).lower(): v for p, v in after.items()}, planned, f"{name}: the planned packages", key="plan")
            if kind == "again":
                t.eq(wk.snapshot(root), snap, f"{name}: repeating the request changed something", key="again")
            related = {*new, *touched}
            while grown := {q for p, q in links if p in related and q not in related}:
                related |= grown
            for p, v in before.items():
                if p not in related and p in after:
                    t.eq(after[p], v, f"{name}: the version of {NAMES[p]}, which has nothing to do with this request", key="unrelated")
            t.nontrivial(any(after.get(p) != v for p, v in before.items()))
            t.label("changed an installed package" if any(after.get(p, v) != v for p, v in before.items()) else "installed")
            last = a
        else:
            numbers = [i % n for i, _ in a]
            names = [spellings(i % n)[s] for i, s in a]
            if kind == "force":
                for i, s in zip(numbers, names):
                    if i in before and i in requested and not any(q == i for p, v in before.items() for q, _, _ in active(uni, p, v, EXTRAS)):
                        if target.env.installation_target.purelib == target.purelib and i % 2:
                            t.eq(call(lambda: target.env.uninstall(["not-there", s], force=True)), {s}, f"{name}: what was removed by force", key="force")
                        else:
                            t.check(call(lambda: target.force_remove(s)), f"{name}: {s} is installed but was not removed", key="force")
                        target.reload()
                        del requested[i]
                        now = state()
                        t.eq(now, {p: v for p, v in before.items() if p != i}, f"{name}: packages after a forced removal", key="force")
                        kept = closure(uni, now, [(p, {e for _, x in cons for e in x}) for p, cons in requested.items()])
                        t.eq({wk.norm(x.name).lower() for x in target.site_packages.find_orphan_packages()}, {wk.norm(NAMES[p]).lower() for p in now if p not in kept}, f"{name}: orphans", key="orphans")
                        gone = call(lambda: target.uninstall([x.name for x in target.site_packages.find_orphan_packages()]))
                        t.eq({wk.norm(x).lower() for x in gone}, {wk.norm(NAMES[p]).lower() for p in now if p not in kept}, f"{name}: uninstalled orphans", key="orphans")
                        before = state()
                        t.label("forced")
            else:
                gone = call(lambda: target.uninstall(names))
                requested = {p: c for p, c in requested.items() if p not in numbers}
                after = state()
                kept = closure(uni, before, [(p, {e for _, x in cons for e in x}) for p, cons in requested.items()])
                t.eq(after, {p: v for p, v in before.items() if p in kept}, f"{name} of {names}: the remaining packages", key="uninstalled")
                t.eq({wk.norm(x).lower() for x in gone}, {wk.norm(NAMES[p]).lower() for p in numbers if p in before and p not in after}, f"{name} of {names}: the returned names", key="returned")
                t.nontrivial(after != before)
                t.label("uninstalled" if after != before else "nothing to uninstall")
            last = None
        invariants(name)


def grouped(uni):
    """the universe with its packages in two groups, those of even and those of odd numbers, that have nothing to do with each other"""
    return [{v: [((r[0] - r[0] % 2 + p % 2, *r[1:]), m) for r, m in ds] for v, ds in rel.items()} for p, rel in enumerate(uni)]


any_version = st.tuples(st.tuples(st.integers(0, 5), st.integers(0, 6), st.sampled_from(["", "", ">=1.0"]), st.just([])), st.none())
old_version = st.tuples(st.tuples(st.integers(0, 5), st.integers(0, 6), st.sampled_from(["<2.0", "==1.*", "<3.0", "!=3.0"]), st.just([])), st.none())


def relaxing(l):
    """histories that request an old version of a package, then relax the request, and then request other packages"""
    return [("install", [o], []) for o in l[0]] + [("install", [((*o[0][:2], "", []), None)], []) for o in l[0]] + [("install", [o], []) for o in l[1]]


@CHECK.test("unrelated packages", st.tuples(st.lists(releases, min_size=6, max_size=6).map(grouped),
                                            st.tuples(st.lists(old_version, min_size=1, max_size=3), st.lists(st.one_of(any_version, old_version, requests.map(lambda r: r[0])), min_size=2, max_size=5)).map(relaxing),
                                            st.sampled_from(["none", "thread"])), quick=250, thorough=4000)
def check_unrelated(case, t):
    check_histories.__wrapped__(case, t) if hasattr(check_histories, "__wrapped__") else check_histories(case, t)


@CHECK.test("processes", st.tuples(universes, st.lists(op, min_size=4, max_size=9), st.just("proc")), quick=150, thorough=2500)
def check_processes(case, t):
    check_histories.__wrapped__(case, t) if hasattr(check_histories, "__wrapped__") else check_histories(case, t)


class BadPkg(Pkg):
    """a package that cannot be installed (which is known a little later)"""
    bad = set()

    def install_to(self, *args, **kwargs):
        if (self.spec["name"], self.spec["version"]) in self.bad:
            time.sleep(0.03)
            raise OSError("no connection")
        return super().install_to(*args, **kwargs)


@CHECK.test("failures", st.tuples(universes, st.lists(st.tuples(st.integers(0, 5), st.integers(0, 6), st.sampled_from(["==1.*", "<2.0", ">=2.0", "==3.0", "", "<3.0", "!=3.0"]), st.booleans(), st.integers(0, 5)), min_size=3, max_size=8),
                                  st.sampled_from(["none", "thread", "thread"])), quick=400, thorough=6000)
def check_failures(case, t):
    """an operation of which a part fails: packages are not lost, none is broken, and the same request succeeds once the cause is gone"""
    uni, ops, mode = case
    n = len(uni)
    scratch = t.scratch()
    target = wk.target(scratch / "env", "venv")
    site = scratch / "env" / wk.LAYOUTS["venv"]["purelib"]
    packages = {}
    for p, rel in enumerate(uni):
        for v, ds in rel.items():
            spec = dict(name=NAMES[p], version=v, files={f"m{p}.py": f"# {p} {v}", f"ns/m{p}.py": f"# {p} {v}"}, extras=EXTRAS, requires=[req_text(r, n) + marker_text(m) for r, m in ds])
            packages[p, v] = BadPkg(spec, wk.write_wheel(scratch / "dist", spec))
    repo = Repo(packages)
    t.cleanup(lambda: setattr(BadPkg, "bad", set()))
    config, old_mode = pkm.config, pkm.config.concurrency_mode
    config.concurrency_mode = mode
    t.cleanup(lambda: setattr(config, "concurrency_mode", old_mode))

    def state():
        return {p: v for p, (v, _) in installed_state(t, uni, site).items()}

    for k, (p, s, spec, update, broken) in enumerate(ops):
        if k % 3 == 2:  # the package that was requested before, in other versions
            p = ops[k - 1][0]
        a, b = [((p, s, spec, []), None)], [(p, s)] if update else []
        name = f"op {k} ({NAMES[p % n]}{spec}{' updated' if update else ''})"
        BadPkg.bad = bad_ = {(NAMES[i], v) for i in range(n) for v in uni[i] if k % 2 and (i == p % n or i == broken % n)}
        before = state()
        dependencies = [Dependency.parse(req_text(r, n) + marker_text(m)) for r, m in a]

        def install():
            with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
                warnings.simplefilter("ignore")
                target.install(dependencies, repo, updates=[spellings(i % n)[s] for i, s in b])
        try:
            install()
            failed = False
        except UnsolvableProblemException:
            t.eq(state(), before, f"{name}: the packages after a request that was refused", key="refused writes")
            continue
        except OSError as e:
            t.eq(str(e), "no connection", f"{name}: the error")
            failed = True
        after = state()
        if failed:
            t.nontrivial(bool(before))
            t.label("failed" if before else "failed at first")
            t.check(set(before) <= set(after), f"{name}: {[NAMES[p] for p in set(before) - set(after)]} were lost by an operation that failed", key="lost")
            for p, v in after.items():
                t.check(v == before.get(p) or (NAMES[p], v) not in bad_, f"{name}: {NAMES[p]} {v} is installed, although it could not be fetched", key="installed")
            target.reload()
            listed = {wk.norm(x.name).lower(): str(x.version) for x in target.site_packages.installed_packages()}
            t.eq(listed, {wk.norm(NAMES[p]).lower(): v for p, v in after.items()}, f"{name}: the listing of installed packages", key="listing")
            kept, BadPkg.bad = BadPkg.bad, set()
            install()
            after, BadPkg.bad = state(), kept
        for p, s, x in [(r[0] % n, r[2], tuple(r[3])) for r, m in a if m is not False]:
            t.check(p in after and allows(s, after[p]), f"{name}: {NAMES[p]}{s} was requested, {after.get(p)} is installed", key="request lost")
            for q, e in closure(uni, after, [(p, x)]).items():
                for dep, s2, _ in active(uni, q, after[q], e):
                    t.check(dep in after and allows(s2, after[dep]), f"{name}: {NAMES[q]} {after[q]} needs {NAMES[dep]}{s2} but {after.get(dep)} is installed", key="unsatisfied")
