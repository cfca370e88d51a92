"""C52: the reports of the command line. Oracle: what the dist-info folders, pyproject.toml, the lock and the repository configurations hold, read with packaging, importlib.metadata-like parsing and tomllib, and a fixpoint
over the requested extras; the reports are printed to a recording console and read back line by line."""
import io
import os
import re
from pathlib import Path
from unittest import mock

from hypothesis import strategies as st
from packaging.markers import default_environment
from packaging.requirements import Requirement
from packaging.utils import canonicalize_name
from rich.console import Console

import wheelkit as wk
from vlib import Check
from pkm.api.projects.project import Project
from pkm_cli.display.display import Display
from pkm_cli.reports.added_repositories_report import AddedRepositoriesReport
from pkm_cli.reports.environment_report import EnvironmentReport
from pkm_cli.reports.package_report import PackageReport
from pkm_cli.reports.project_report import ProjectReport

CHECK = Check("C52", "environments of up to 6 packages (requested or not, with extras, markers, missing dependencies, scripts, odd paths) and their reports; projects with dependencies, optional groups and locks; "
                     "packages shown in the context of a project; repository configurations; non-trivial = extras, missing or orphan packages, or text that resembles markup is reported", workers=8)

NAMES = ["pkg-a", "Pkg_B", "c", "my.Dep", "e1", "F-f", "not.there", "Absent"]
VERSIONS = ["0.9", "1.0", "1.5", "2.0"]
SPECS = ["", ">=1.0", "<2.0", "==1.5", "!=1.0", ">=1.0,<2.0"]
EXTRAS = ["x", "dev", "red"]
MARKERS = [None, None, None, 'python_version >= "3"', 'sys_platform == "win32"', 'extra == "x"', 'extra == "dev"', 'extra == "red"', 'extra == "x" or extra == "dev"']
ODD = ["plain", "[bold]", "a[/]b", "[red]x[/red]", "{x}", "sp ace", "é"]
requirement = st.tuples(st.integers(0, 7), st.booleans(), st.sampled_from(SPECS), st.lists(st.sampled_from(EXTRAS), max_size=2, unique=True))
dep = st.tuples(requirement, st.sampled_from(MARKERS))
package = st.tuples(st.sampled_from(VERSIONS), st.lists(dep, max_size=4), st.one_of(st.none(), st.none(), st.just("flag"), requirement), st.integers(0, 2))


def text(r, own=None):
    i, upper, spec, extras = r
    name = NAMES[i if own is None else own]
    return (name.upper() if upper else name) + (f"[{','.join(extras)}]" if extras else "") + spec


def dep_text(d):
    return text(d[0]) + (f" ; {d[1]}" if d[1] else "")


def key(r):
    """what a requirement says, however it is written"""
    r = Requirement(r)
    return canonicalize_name(r.name), tuple(sorted(r.extras)), tuple(v for v in VERSIONS if r.specifier.contains(v))


def active(requirements, extras):
    for r in requirements:
        r = Requirement(r)
        if r.marker is None or any(r.marker.evaluate({**default_environment(), "extra": e}) for e in extras or [""]):
            yield r


def printed(f):
    out = io.StringIO()
    console = next((k for k, v in vars(Display).items() if isinstance(v, Console)), "_console")
    with mock.patch.object(Display, console, Console(file=out, width=100000, color_system=None)):
        f()
    return out.getvalue().splitlines()


def section(lines, name):
    if name not in lines:
        return None
    i = lines.index(name)
    assert lines[i + 1] == "-" * len(name), lines[i:i + 2]
    rest = lines[i + 2:]
    return rest[:rest.index("")] if "" in rest else rest


def install(site, i, p):
    version, deps, requested, scripts = p
    own = {re.sub("[-_.]+", "_", NAMES[i]): 1}
    d = site / f"{next(iter(own))}-{version}.dist-info"
    d.mkdir(parents=True)
    (d / "METADATA").write_text(f"Metadata-Version: 2.1\nName: {NAMES[i]}\nVersion: {version}\n" + "".join(f"Provides-Extra: {e}\n" for e in EXTRAS) + "".join(f"Requires-Dist: {dep_text(x)}\n" for x in deps))
    (d / "WHEEL").write_text("Wheel-Version: 1.0\nGenerator: x\nRoot-Is-Purelib: true\nTag: py3-none-any\n")
    (d / "INSTALLER").write_text("pkm")
    (d / "RECORD").write_text(f"{d.name}/METADATA,,\n{d.name}/RECORD,,\n")
    if requested:
        (d / "REQUESTED").write_text("" if requested == "flag" else text(requested, i))
    if scripts:
        (d / "entry_points.txt").write_text("[console_scripts]\n" + "".join(f"cmd{i}{k} = m:f\n" for k in range(scripts)) + "[other.group]\nplug = m:f\n")


def model(packages):
    """name -> (version, request, required by, missing)"""
    names = {canonicalize_name(NAMES[i]): i for i in range(len(packages))}
    requests = {n: None if not packages[i][2] else f"{NAMES[i]}=={packages[i][0]}" if packages[i][2] == "flag" else text(packages[i][2], i) for n, i in names.items()}
    extras = {n: set(Requirement(r).extras) if r else set() for n, r in requests.items()}
    requires = {n: [dep_text(x) for x in packages[i][1]] for n, i in names.items()}
    changed = True
    while changed:
        changed = False
        for n in names:
            for r in active(requires[n], extras[n]):
                q = canonicalize_name(r.name)
                if q in names and not r.extras <= extras[q]:
                    extras[q] |= r.extras
                    changed = True
    by, missing = {n: set() for n in names}, {n: set() for n in names}
    for n, i in names.items():
        for r in active(requires[n], extras[n]):
            q = canonicalize_name(r.name)
            if q in names:
                by[q].add(n)
            else:
                missing[n].add(key(str(r).split(";")[0]))
    return {n: (packages[i][0], requests[n], by[n], missing[n]) for n, i in names.items()}, extras


def read_packages(t, lines):
    result, name = {}, None
    for line in lines:
        if m := re.fullmatch(r" \+ (\S+) (\S+), (.*)", line):
            name = canonicalize_name(m[1])  # (however it is spelled)
            t.check(name not in result, f"{name} is listed twice", key="packages")
            how = m[3]
            if m := re.fullmatch(r"required by the user \((.*)\)", how):
                result[name] = [line.split(", ")[0].split()[-1], key(m[1]), None, set()]
            elif how == "(orphan)":
                result[name] = [line.split(", ")[0].split()[-1], None, set(), set()]
            else:
                assert how.startswith("required by: "), how
                result[name] = [line.split(", ")[0].split()[-1], None, {canonicalize_name(x) for x in how[13:].split(", ")}, set()]
        elif m := re.fullmatch(r"  - (.*)", line):
            result[name][3].add(key(m[1].split(";")[0]))
        else:
            t.eq(line, "* WARNING: this package has missing dependencies: ", "a line of the installed packages", key="packages")
    return result


@CHECK.test("environments", st.tuples(st.lists(package, max_size=6), st.sampled_from(ODD), st.sampled_from([None, True, False]), st.sampled_from([None, True, False])), quick=1200, thorough=20000)
def check_environments(case, t):
    """every package is listed with its version and the reason it is there, and everything that is missing is told"""
    packages, odd, everything, scripts = case
    # (directory names cannot hold slashes)
    root = t.scratch().resolve() / odd.replace("/", "")
    root.mkdir()
    target = wk.target(root)
    site = Path(target.purelib)
    for i, p in enumerate(packages):
        install(site, i, p)
    env = target.env
    options = {k: v for k, v in (("all-installed", everything), ("scripts", scripts)) if v is not None}
    before = wk.snapshot(root)
    lines = printed(lambda: EnvironmentReport(env).display(options))
    t.eq(wk.snapshot(root), before, "the environment after its report", key="writes")
    info = section(lines, "Basic Environment Info")
    t.eq(info, [f"Path: {root}", f"Interpreter Version: {env.interpreter_version}"], "the environment", key="paths")
    want, extras = model(packages)
    shown = {n: w for n, w in want.items() if everything or w[1]}
    got = read_packages(t, section(lines, "Installed Packages") or [])
    t.eq(sorted(got), sorted(shown), "the listed packages", key="packages")
    for n, (version, request, by, missing) in shown.items():
        t.eq(got[n][0], version, f"the version of {n}", key="version")
        t.eq(got[n][1], request and key(request), f"what the user requested of {n}", key="request")
        if not request:
            t.eq(got[n][2], by, f"the packages that require {n}", key="required by")
        t.eq(got[n][3], missing, f"the missing dependencies of {n}", key="missing")
    if any(extras.values()) or any(w[3] or not (w[1] or w[2]) for w in shown.values()):
        t.nontrivial()
    listed = section(lines, "Scripts")
    if scripts:
        expected = sorted(f" - cmd{i}{k}, installed by {canonicalize_name(NAMES[i])}" for i, p in enumerate(packages) for k in range(p[3]))
        t.eq(sorted(x if "installed by " not in x else x.split("by ")[0] + "by " + canonicalize_name(x.split("by ")[1]) for x in listed), expected or [" No Installed Scripts Found"], "the scripts", key="scripts")
    else:
        t.eq(listed, None, "the scripts", key="scripts")


PROJECT_NAMES = ["prj", "My.Project"]


@CHECK.test("projects", st.tuples(st.sampled_from(PROJECT_NAMES), st.sampled_from(ODD), st.one_of(st.none(), st.lists(dep, max_size=3)), st.one_of(st.none(), st.dictionaries(st.sampled_from(EXTRAS), st.lists(dep, max_size=2), max_size=2)),
                                  st.lists(package, max_size=5), st.booleans(), st.booleans(), requirement), quick=600, thorough=10000)
def check_projects(case, t):
    """the report of a project lists its dependencies as they are required, with the version that is installed; that of a package tells what a project requires of it and has of it"""
    name, description, dependencies, groups, packages, locked, show_lock, asked = case
    top = t.scratch().resolve()
    root = top / "prj"
    root.mkdir()
    q = lambda s: "'" + s + "'"
    lines = ["[project]", f'name = "{name}"', 'version = "1.2.3"', f"description = {q(description)}"]
    if dependencies is not None:
        lines.append(f"dependencies = [{', '.join(q(dep_text(d)) for d in dependencies)}]")
    if groups is not None:
        lines += ["[project.optional-dependencies]"] + [f"{g} = [{', '.join(q(dep_text(d)) for d in ds)}]" for g, ds in groups.items()]
    lines += ["[build-system]", "requires = []", 'build-backend = "pkm.api.buildsys"']
    (root / "pyproject.toml").write_text("\n".join(lines) + "\n")
    target = wk.target(top / "e[nv]")
    for i, p in enumerate(packages):
        install(Path(target.purelib), i, p)
    installed = {canonicalize_name(NAMES[i]): p[0] for i, p in enumerate(packages)}
    (top / "dist").mkdir()
    there = VERSIONS[:2 + len(packages)]
    for v in there:
        wk.write_wheel(top / "dist", dict(name=NAMES[0], version=v, files={"m.py": "x"}, summary=f"the summary {description}"))
    (root / "etc/pkm").mkdir(parents=True)
    (root / "etc/pkm/repositories.toml").write_text(f'inheritance = "none"\n[repos."a[b]"]\ntype = "file-system"\npath = "{top}/dist"\n[repos.bound]\ntype = "file-system"\nbind-only = true\npath = "{top}/dist"\n'
                                                    '[package-bindings]\nsome-pkg = "bound"\n')
    with mock.patch.object(Project, "attached_environment", target.env):
        prj = Project.load(root)
        if locked:
            # (as another environment did before)
            other = wk.target(top / "other").env
            other.markers = {**other.markers, "platform_machine": "another"}
            install(Path(other.installation_target.purelib), 2, ("9.9", [], None, 0))
            prj.lock.update_lock(other)
            prj.lock.update_lock(target.env).save()
        before = wk.snapshot(top)
        out = printed(lambda: ProjectReport(prj).display({"lock": True} if show_lock else {}))
        t.eq(section(out, "Project Basic Info")[:3], [f"Name: {name}", "Version: 1.2.3", f"Description: {description}"], "the project", key="info")
        t.eq(section(out, "Attached Environment"), [f"Path: {top}/e[nv]", f"Interpreter Version: {target.env.interpreter_version}"], "the environment", key="info")
        want = [(d, None) for d in dependencies or []] + [(d, g) for g, ds in (groups or {}).items() for d in ds]
        got = section(out, "Dependencies") or []
        t.eq(len(got), len(want), f"number of listed dependencies: {got}", key="dependencies")
        for line, (d, g) in zip(got, want):
            req, status, why = line.removeprefix(" - ").split(" | ")
            t.eq(key(req.split(";")[0]), key(text(d[0])), "the dependency", key="dependencies")
            v = installed.get(canonicalize_name(NAMES[d[0][0]]))
            t.eq(status, f"Installed Version: {v}" if v else "Not Installed", f"the state of {text(d[0])}", key="dependencies")
            t.eq(why, f"Optional by {g}" if g else "Required", f"the group of {text(d[0])}", key="dependencies")
        lock = section(out, "Lock (for attached env signature)")
        expected = sorted(f" - {canonicalize_name(NAMES[i])} {p[0]}" for i, p in enumerate(packages)) if locked else []
        t.eq(lock and sorted(x if x.count(" ") > 3 or "Lock" in x else f" - {canonicalize_name(x.split()[1])} {x.split()[2]}" for x in lock), None if not show_lock else expected or [" No Lock Information"], "the lock", key="lock")
        repos = section(out, "Attached Repository")
        t.eq([x.strip() for x in repos if "a[b]" in x or "bound" in x.lower()], ["1. a[b]: file-system", "+ Bound Packages: some-pkg"], f"the repositories in {repos}", key="repositories")
        added = printed(lambda: AddedRepositoriesReport(prj).display({}))
        t.eq(section(added, "Project Context"), ["a[b]: file-system", "bound: file-system (bind only)"], "the added repositories", key="repositories")

        out = printed(lambda: PackageReport(prj, text(asked)).display({}))
        n = canonicalize_name(NAMES[asked[0]])
        matching = [v for v in there if asked[0] == 0 and Requirement(text(asked)).specifier.contains(v)][::-1]
        if not matching:
            t.check(len(out) == 2 and out[1].startswith("No package matched for "), f"{out} although nothing matches {text(asked)}", key="package")
            t.eq(key(out[1][len("No package matched for "):]), key(text(asked)), "the package that was asked for", key="package")
        else:
            t.nontrivial()
            t.label("package")
            values = dict(x.split(": ", 1) for x in out if ": " in x)
            t.eq(key(values["Dependency"]), key(text(asked)), "the package that was asked for", key="package")
            preferred = [v for v in matching if locked and v == installed.get(n)]
            matching = preferred + [v for v in matching if v not in preferred]
            t.eq(values["Matched Versions"], ", ".join(matching[:3]) + (f" and {len(matching) - 3} more." if len(matching) > 3 else ""), "the versions (the locked one is preferred)", key="package")
            t.check(f"Metadata (from Version {matching[0]})" in out, f"the metadata of {matching[0]} is not shown in {out}", key="package")
            t.eq(values["Installed In Current Environment"], installed.get(n, "None"), "the installed version", key="package")
            reqs = [d for d, g in want if canonicalize_name(NAMES[d[0][0]]) == n]
            told = values["Dependency In Current Project"]
            t.eq(told == "None", not reqs, f"whether the project requires {n}: told {told}, it requires {[text(r[0]) for r in reqs]}", key="package")
        t.eq(wk.snapshot(top), before, "the files after the reports", key="writes")
        if "[" in description or any(d[0][3] for d, _ in want):
            t.nontrivial()
