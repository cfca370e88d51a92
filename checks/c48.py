"""C48: where and with what a command line acts. Oracle: a model of the lookup over the generated directory tree, and a model of the environment and its repositories for the install command."""
import contextlib
import functools
import io
import itertools
import os
import shutil
import tomllib
import warnings
from pathlib import Path

from hypothesis import strategies as st

import specmodel
import wheelkit as wk
from vlib import Check
from pkm.api.environments.environment import Environment
from pkm.api.environments.environment_builder import EnvironmentBuilder
from pkm.resolution.pubgrub import UnsolvableProblemException
from pkm.utils.commons import UnsupportedOperationException

CHECK = Check("C48", "directory trees of nested projects, groups, environments and zoos x working directories x context options x kinds of context that a command accepts; histories of install commands with all their "
                     "options on an environment with several repositories; non-trivial = more than one context was there to choose from, or an installed package was replaced, bound or refused", workers=6)

KINDS = ["project", "group", "environment", "zoo"]
TYPES = {"Project": "project", "ProjectGroup": "group", "Environment": "environment", "EnvironmentsZoo": "zoo"}
HANDLERS = {"project": "on_project", "group": "on_project_group", "environment": "on_environment", "zoo": "on_env_zoo"}


def quiet(f):
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return f()


def lay(path: Path, kinds):
    path.mkdir(parents=True, exist_ok=True)
    if "project" in kinds:
        (path / "pyproject.toml").write_text('[project]\nname = "p"\nversion = "1.0"\n')
        (path / ".venv").mkdir()
        (path / ".venv/pyvenv.cfg").write_text("home = /usr/bin\nversion = 3.12.3\n")
    if "group" in kinds:
        (path / "pyproject-group.toml").write_text('name = "g"\nchildren = []\n')
    if "environment" in kinds:
        (path / "pyvenv.cfg").write_text("home = /usr/bin\nversion = 3.12.3\n")
    if "zoo" in kinds:
        (path / "env-zoo.toml").write_text("")


level = st.sets(st.sampled_from(KINDS), max_size=4).map(sorted) | st.just([]) | st.sets(st.sampled_from(KINDS), min_size=1, max_size=1).map(sorted)
where = st.one_of(st.tuples(st.just("cwd"), st.integers(0, 4)), st.tuples(st.just("cwd"), st.integers(0, 4)),
                  st.tuples(st.sampled_from(["absolute", "relative", "dotted", "link", "equals", "missing"]), st.integers(0, 4), st.integers(0, 4)),
                  st.tuples(st.just("global"), st.integers(0, 4), st.sampled_from([None, "user", "system"]), st.booleans()))


@CHECK.test("contexts", st.tuples(st.lists(level, min_size=2, max_size=5), where, st.sets(st.sampled_from(KINDS)).map(sorted), st.sampled_from([None, "missing", "free", "both"]), st.booleans()), quick=1500, thorough=15000)
def check_contexts(case, t):
    """a command acts on the nearest context of a kind it accepts, or exactly on the one it was given"""
    from pkm_cli import main
    from pkm_cli.utils.context import Context
    levels, w, accepted, fallback, resolve_first = case
    top = t.scratch().resolve()
    paths = [top.joinpath(*[f"d{j}" for j in range(i + 1)]) for i in range(len(levels))]
    for p, kinds in zip(paths, levels):
        lay(p, kinds)
    old = os.getcwd()
    t.cleanup(lambda: os.chdir(old))
    at = paths[w[1] % len(paths)]
    os.chdir(at)
    options, sub = [], []
    lookup, start, site = True, at, None
    if w[0] == "global":
        options, site = ["-g"], w[2] or "user"
        if w[2]:
            sub = ["-s", w[2]] if w[3] else [f"--site={w[2]}"]
    elif w[0] != "cwd":
        lookup, start = False, paths[w[2] % len(paths)]
        link = at / "link"
        given = {"absolute": str(start), "relative": os.path.relpath(start, at), "dotted": f"{start}/../{start.name}/.", "equals": str(start), "missing": str(start / "none")}.get(w[0])
        if w[0] == "link":
            given = str(link)
            os.symlink(start, given)
        options = [f"--context={given}"] if w[0] == "equals" else ["-c", given]
        if w[0] == "missing":
            start = start / "none"
    cmd = quiet(lambda: main.parse(["x", *options, "install", *sub, "name"]))
    t.check(not cmd.parse_error, f"{options} {sub}: {cmd.parse_error}", key="parse")
    # the expected context
    want = None
    for p in [start, *start.parents] if lookup else [start]:
        kinds = levels[paths.index(p)] if p in paths else []
        found = next((k for k in KINDS if k in accepted and (k in kinds or k == "environment" and "project" in kinds)), None)
        if found:
            want = (found, str(p / ".venv" if found == "environment" and "environment" not in kinds else p))
            break
    if w[0] == "global":
        want = ("global", site) if "environment" in accepted else None
    if want is None:
        want = {None: ("refused", None), "missing": ("missing", None), "free": ("free", None) if w[0] != "global" else ("refused", None), "both": ("free", None) if w[0] != "global" else ("missing", None)}[fallback]
    calls = []
    handlers = {HANDLERS[k]: (lambda x, k=k: calls.append((k, str(x.path)))) for k in accepted}
    if w[0] == "global" and "environment" in accepted:
        handlers["on_environment"] = lambda x: calls.append(("global", x))
    if fallback in ("missing", "both"):
        handlers["on_missing"] = lambda: calls.append(("missing", None))
    if fallback in ("free", "both"):
        handlers["on_free_context"] = lambda: calls.append(("free", None))
    current = Environment.current
    Environment.current = staticmethod(lambda site="user": type("E", (), {"interpreter_path": "x", "site": site, "__eq__": lambda a, b: a.site == b, "__repr__": lambda a: a.site})())
    try:
        if resolve_first:
            # an argument may need the context before all the others were read
            read = dict(cmd.arguments)
            cmd.arguments.clear()
            Context.of(cmd)
            cmd.arguments.update(read)
        context = Context.of(cmd)
        try:
            quiet(lambda: context.run(**handlers, unrelated=1))
        except UnsupportedOperationException:
            calls.append(("refused", None))
        has_project = quiet(context.lookup_project) if w[0] != "global" else None
        has_repositories = quiet(context.lookup_has_attached_repository) if w[0] != "global" else None
    finally:
        Environment.current = current
    t.eq(calls, [want], f"contexts {[(str(p.relative_to(top)), k) for p, k in zip(paths, levels)]}, in {at.relative_to(top)}, options {options}, accepting {accepted}", key="context")
    if w[0] != "global":
        projects = [p for p in ([start, *start.parents] if lookup else [start]) if p in paths and "project" in levels[paths.index(p)]]
        t.eq(has_project and str(has_project.path), str(projects[0]) if projects else None, f"the project of the context, options {options}", key="context project")
        nearest = next(((KINDS[min(map(KINDS.index, levels[paths.index(p)]))], str(p)) for p in ([start, *start.parents] if lookup else [start]) if p in paths and levels[paths.index(p)]), None)
        t.eq(has_repositories and (TYPES[type(has_repositories).__name__], str(has_repositories.path)), nearest, f"what has repositories in the context, options {options}", key="context repositories")
    t.nontrivial(sum(bool(k) for k in levels) > 1 and bool(accepted))
    t.label(f"{w[0]}: {want[0]}")


def look(env):
    return {k: v for k, v in wk.snapshot(env).items() if "env_introspection" not in k}


# the install command on environments
NAMES = ["aa", "B.b", "c-1"]
SPECS = ["", "", "", "==1.0", "<2", ">=1.5", "==9"]
REPOS = ["first", "second", "third"]
OPTIONS = ["update", "force", "copy"]
request = st.tuples(st.integers(0, 2), st.sampled_from(SPECS))
command = st.tuples(st.lists(request, min_size=1, max_size=2, unique_by=lambda r: r[0]), st.sets(st.sampled_from(OPTIONS), max_size=2).map(sorted), st.sampled_from([None, None, None, None, 0, 1, 2, "path", "unknown"]),
                    st.sampled_from([None] * 7 + ["optional", "app", "typo", "optional app"]), st.booleans())
older = st.lists(st.tuples(st.integers(0, 2), st.sampled_from(["==1.0", "<2", ">=1.0,<1.1"])), min_size=2, max_size=2, unique_by=lambda r: r[0])
# two packages that are installed in older versions, and then together updated
updating = st.tuples(older, st.permutations(range(2)), st.sets(st.sampled_from(OPTIONS[1:]), max_size=1)).map(
    lambda c: [(c[0], [], None, None, False), ([(c[0][i][0], "") for i in c[1]], ["update", *c[2]], None, None, False)])
universe = st.lists(st.tuples(*[st.one_of(st.sets(st.sampled_from(["1.0", "1.1", "2.0"]), max_size=3).map(sorted), st.just(["1.0", "1.1", "2.0"]))] * 3), min_size=4, max_size=4)


@CHECK.test("install commands", st.tuples(universe, st.one_of(st.lists(command, min_size=2, max_size=7), st.tuples(updating, st.lists(command, max_size=3)).map(lambda c: c[0] + c[1])), st.sampled_from(["flag", "cwd"])), quick=400, thorough=4000)
def check_install(case, t):
    """pkm install in an environment: what is asked for comes from where it was asked to come from, at that time and later"""
    from pkm_cli import main
    uni, commands, way = case
    d = t.scratch().resolve()
    offers = {}  # repository -> package -> versions
    for repo, versions in zip([*REPOS, "unnamed"], uni):
        (d / repo).mkdir()
        offers[repo] = {i: vs for i, vs in enumerate(versions)}
        for i, vs in enumerate(versions):
            for v in vs:
                wk.write_wheel(d / repo, dict(name=NAMES[i], version=v, files={f"m{i}.py": f"{repo} {v}"}))
    EnvironmentBuilder.create(d / "env")
    (d / "env/etc/pkm").mkdir(parents=True, exist_ok=True)
    config = d / "env/etc/pkm/repositories.toml"
    config.write_text('inheritance = "none"\n' + "".join(f'[repos.{r}]\ntype = "file-system"\npath = "{d / r}"\n' + ("" if r == "first" else "bind-only = true\n") for r in REPOS))
    site = next((d / "env/lib").glob("python*/site-packages"))
    (d / "env/deep/er").mkdir(parents=True)
    old = os.getcwd()
    t.cleanup(lambda: os.chdir(old))
    os.chdir(d / "env/deep/er" if way == "cwd" else d)
    bound, state, contained = {}, {}, set()

    def read():
        out = {}
        for i in range(3):
            infos = [p for p in site.glob("*.dist-info") if wk.norm(p.name.split("-")[0]).lower() == wk.norm(NAMES[i]).lower()]
            t.check(len(infos) <= 1, f"{NAMES[i]} is installed {len(infos)} times", key="twice")
            module = site / f"m{i}.py"
            t.eq(module.exists(), bool(infos), f"module and dist-info of {NAMES[i]}", key="files")
            if infos:
                repo, v = module.read_text().split()
                t.eq(infos[0].name.split("-")[1][:-len(".dist")] if infos[0].name.split("-")[1].endswith(".dist") else infos[0].name.split("-")[1], v, f"version of {NAMES[i]}", key="files")
                out[i] = (v, repo)
        return out

    for k, (reqs, opts, repo, odd, upper) in enumerate(commands):
        args = []
        if "update" in opts:
            args.append("-u")
        if "force" in opts:
            args.append("--force")
        if "copy" in opts:
            args += ["-m", "copy"]
        if repo == "path":
            args += ["-R", "file-system", "+path", str(d / "unnamed")] if k % 2 else ["--unnamed-repo", "file-system", f"+path={d / 'unnamed'}"]
        elif repo is not None:
            args += ["-r", repo if repo == "unknown" else REPOS[repo]]
        if odd in ("optional", "optional app"):
            args += ["-o", "dev"]
        if odd in ("app", "optional app"):
            args += ["-a"]
        if odd == "typo":
            args += ["--upgrade"]
        names = [NAMES[i].upper() if upper else NAMES[i] for i, _ in reqs]
        args += [n + s for n, (_, s) in zip(names, reqs)]
        name = f"command {k}: {' '.join(args)}"
        before, config_before, snap = state, config.read_text(), look(d / "env")
        line = ["pkm", *(["-c", str(d / "env")] if way == "flag" else []), "install", *args]
        error = None
        try:
            quiet(lambda: main.main(line))
        except UnsolvableProblemException as e:
            error = e
        except UnsupportedOperationException as e:
            error = e
        except ValueError as e:
            if repo != "unknown" or "unknown" not in str(e):
                raise
        state = read()
        if odd == "typo" or repo == "unknown":
            t.eq(look(d / "env"), snap, f"{name}: the environment, after a command that is not well-formed", key="malformed")
            t.label("malformed")
            continue
        if odd in ("optional", "optional app"):
            t.check(isinstance(error, UnsupportedOperationException), f"{name}: optional groups are accepted for an environment", key="optional")
            t.eq(state, before, f"{name}: the packages after the refusal", key="optional")
            state = before
        rebound = [] if repo is None else [i for i, _ in reqs]
        for i in rebound:
            bound[i] = "unnamed" if repo == "path" else REPOS[repo]
        saved = tomllib.loads(config.read_text()).get("package-bindings", {})
        where_to = lambda b: b if isinstance(b, str) else Path(b["path"]).name
        t.eq({wk.norm(n).lower(): where_to(b) for n, b in saved.items()}, {wk.norm(NAMES[i]).lower(): r for i, r in bound.items()}, f"{name}: the saved bindings", key="bindings")
        if repo is None:
            t.eq(config.read_text(), config_before, f"{name}: the configuration of repositories", key="bindings")
        if odd in ("optional", "optional app"):
            t.eq(look(d / "env"), snap, f"{name}: the environment after the refusal", key="optional") if repo is None else None
            t.nontrivial()
            continue
        want = dict(before)
        forced = "force" in opts or repo is not None
        possible = True
        todo = list(reqs)
        app = None
        if odd == "app":
            app = todo.pop(0)
            vs = [v for v in offers[bound.get(app[0], "first")][app[0]] if specmodel.spec_allows(app[1] or "*", v)]
            possible = bool(vs)
        for i, spec in todo:
            vs = [v for v in offers[bound.get(i, "first")][i] if specmodel.spec_allows(spec or "*", v)]
            best = (max(vs), bound.get(i, "first")) if vs else None
            have = before.get(i)
            if have and not forced and specmodel.spec_allows(spec or "*", have[0]):
                if "update" in opts and best and best[0] > have[0]:
                    want[i] = best
                elif "update" in opts and best and best[0] < have[0]:
                    want[i] = None  # the version that is installed is not offered any more
                continue
            if not best:
                possible = False
            want[i] = best
        if odd == "app":
            # the rest of the requirements go into the container; nothing outside of it changes
            t.eq(state, before, f"{name}: packages outside of the container", key="app")
            first = app[0] not in contained
            container = quiet(lambda: Environment(d / "env").package_containers.container_of(NAMES[app[0]]))
            if not error:
                t.check(container is not None, f"{name}: there is no container", key="app")
                inside = Path(container.installation_target.purelib)
                for i, spec in reqs:
                    module = inside / f"m{i}.py"
                    t.check(module.exists(), f"{name}: {NAMES[i]} is not in the container", key="app")
                    repo_, v = module.read_text().split()
                    if first:
                        vs = [x for x in offers[bound.get(i, "first")][i] if specmodel.spec_allows(spec or "*", x)]
                        t.eq((v, repo_), (max(vs, default=None), bound.get(i, "first")), f"{name}: what is in the container of {NAMES[i]}", key="app")
                dirs = [p.name for p in site.iterdir() if p.name.lower().endswith("_containerized")]
                containers = [c.package.name for c in quiet(lambda: Environment(d / "env").package_containers.containers())]
                t.eq(len(dirs), len(containers), f"{name}: directories of containers {dirs}, containers {containers}", key="app")
            if container is not None:
                contained.add(app[0])
            t.label("app")
            state = before
            continue
        if error:
            t.check(isinstance(error, UnsolvableProblemException) and not possible, f"{name}: refused ({error})", key="refused")
            t.label("refused")
            t.nontrivial()
            if not forced:
                t.eq(look(d / "env"), snap, f"{name}: the environment after a refused command", key="refused writes")
            for i in before:
                if i not in {j for j, _ in reqs}:
                    t.eq(state.get(i), before[i], f"{name}: another package", key="others")
            continue
        t.check(possible, f"{name}: fulfilled, although nothing matches", key="impossible")
        for i in range(3):
            if i in want and want[i] is None:
                continue
            t.eq(state.get(i), want.get(i), f"{name}: what is installed of {NAMES[i]} (before: {before.get(i)})", key="installed")
        t.nontrivial(any(i in before and before[i] != state.get(i) for i, _ in reqs) or bool(rebound))
        t.label("bound" if rebound else "replaced" if any(i in before and before[i] != state.get(i) for i, _ in reqs) else "installed")
