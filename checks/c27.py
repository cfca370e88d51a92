"""C27: which repository a package comes from. Oracle: a model of the documented search order over the generated configuration files; the versions of every source are its own, so the
answer of a query tells which repository gave it. The configuration files are compared with the model after every operation."""
import itertools
import json
import os
import re
import tomllib
from pathlib import Path

from hypothesis import strategies as st

import httpd
import specmodel
import wheelkit as wk
from vlib import Check
from pkm.api.dependencies.dependency import Dependency
from pkm.api.environments.environment import Environment
from pkm.api.environments.environments_zoo import EnvironmentsZoo
from pkm.api.pkm import pkm
from pkm.api.projects.project import Project
from pkm.api.projects.project_group import ProjectGroup
from pkm.api.repositories.repositories_configuration import RepositoryInstanceConfig
from pkm.utils.commons import NoSuchElementException
from pkm.utils.properties import clear_cached_properties

CHECK = Check("C27", "repository configurations of up to six contexts (global, zoo, environments, group, project) over nine sources of three types, and histories of edits and queries; "
                     "non-trivial = the first listed repository of the context was not the one that answered", workers=7)

PACKAGES = ["a", "b", "My.pkg", "c-d"]
#            a             b             My.pkg        c-d       : major versions each source has
CONTENT = [("12", "1", "", "2"), ("1", "", "12", "1"), ("2", "12", "1", ""), ("", "1", "2", "12"), ("12", "12", "12", "12"), ("", "", "1", "2"), ("1", "2", "", "1"), ("2", "2", "2", "2")]
KINDS = ["file-system", "file-system", "pypi", "pypi", "simple", "simple", "file-system", "pypi", "broken"]
BROKEN = 8
NAMES = ["alpha", "beta", "Gamma 1", "pypi"]
CONTEXTS = ["global", "group", "project", "env", "zoo", "zenv"]
CHAIN = {"global": ["global"], "group": ["group", "global"], "env": ["env", "global"], "project": ["project", "group", "env", "global"], "zoo": ["zoo", "global"], "zenv": ["zenv", "zoo", "global"]}
PROJECTS = {"project": {1: "9.0"}, "group": {1: "9.0", 3: "9.5"}}  # context -> package number -> version of the project
FILE = "etc/pkm/repositories.toml"


def spellings(p):
    n = PACKAGES[p]
    return [n, n, n.upper(), re.sub("[-_.]", "-", n), re.sub("[-_.]", "_", n), re.sub("[-_.]", ".", n)]


def versions(s, p):
    return [f"{m}.{s}" for m in CONTENT[s][p]] if s < BROKEN else []


_sources = None


def sources():
    """the nine sources, made once per process: source -> (type, args)"""
    global _sources
    if _sources:
        return _sources
    srv = httpd.server()
    root = Path(os.environ["HOME"]) / f"sources-{os.getpid()}"
    out = []
    for s, kind in enumerate(KINDS):
        if kind == "file-system":
            (root / str(s)).mkdir(parents=True)
            for p in range(4):
                for v in versions(s, p):
                    wk.write_wheel(root / str(s), dict(name=PACKAGES[p], version=v, files={"m.py": ""}))
            out.append(("file-system", {"path": str(root / str(s))}))
            continue
        for p in range(4):
            if kind == "broken":
                srv.routes[f"/c27-{s}/{re.sub('[-_.]+', '-', PACKAGES[p]).lower()}/"] = {"status": 500, "body": b"out of order"}
            elif not versions(s, p):
                continue
            elif kind == "pypi":
                files = {v: [{"filename": f"x-{v}-py3-none-any.whl", "packagetype": "bdist_wheel", "yanked": False, "requires_python": None, "url": "http://x/y", "digests": {}}] for v in versions(s, p)}
                body = json.dumps({"info": {"name": PACKAGES[p], "version": "1"}, "releases": files}).encode()
                for n in spellings(p):
                    srv.routes[f"/c27-{s}/{n}/json"] = {"body": body}
            else:
                n = wk.norm(PACKAGES[p])
                body = "".join(f'<a href="{n}-{v}-py3-none-any.whl">{n}-{v}-py3-none-any.whl</a>' for v in versions(s, p)).encode()
                srv.routes[f"/c27-{s}/{re.sub('[-_.]+', '-', PACKAGES[p]).lower()}/"] = {"body": body}
        args = {"url": f"{srv.base}/c27-{s}"}
        if kind == "pypi" and s % 2:
            args["publish-url"] = f"{srv.base}/c27-{s}/upload"
        out.append(("simple" if kind == "broken" else kind, args))
    _sources = out
    return out


package = st.tuples(st.integers(0, 3), st.integers(0, 5))
source = st.sampled_from([0, 0, 1, 1, 2, 3, 4, 5, 6, 6, 7, 8])
target = st.one_of(st.sampled_from(NAMES[:3]), source)
repos = st.lists(st.tuples(st.sampled_from(NAMES), source, st.sampled_from([False, False, True])), max_size=3, unique_by=lambda r: r[0])
bindings = st.lists(st.tuples(package, target), max_size=2, unique_by=lambda b: b[0][0])
config = st.one_of(st.none(), st.tuples(repos, bindings, st.sampled_from([None, None, "context", "context", "global", "none"])))
configs = st.tuples(*(config.filter(lambda c: c is None or c[2] in (None, "context")) if c == "global" else config for c in CONTEXTS))
query = st.tuples(st.just("query"), st.sampled_from(CONTEXTS[1:] + ["project", "env", "global"]), package, st.sampled_from(["", "", ">=2", "<2", "==9.0", "url"]))
edit = st.one_of(
    st.tuples(st.just("add"), st.sampled_from(CONTEXTS), st.sampled_from(NAMES), source, st.booleans()),
    st.tuples(st.just("add bad"), st.sampled_from(CONTEXTS), st.sampled_from(NAMES), source, st.booleans()),
    st.tuples(st.just("remove"), st.sampled_from(CONTEXTS), st.sampled_from(NAMES), st.just(0), st.just(0)),
    st.tuples(st.just("bind"), st.sampled_from(CONTEXTS), st.lists(package, min_size=1, max_size=2, unique_by=lambda p: p[0]), st.one_of(target, target, st.none()), st.just(0)))
listed = st.tuples(st.just("list"), st.sampled_from(CONTEXTS), st.sampled_from(NAMES), st.just(0))


def toml_config(c):
    rs, bs, mode = c
    out = "" if mode is None else f'inheritance = "{mode}"\n'
    for name, s, bind_only in rs:
        type_, args = sources()[s]
        out += f'[repos."{name}"] # {s}\ntype = "{type_}"\n' + ("bind-only = true\n" if bind_only else "") + "".join(f'{k} = "{v}"\n' for k, v in args.items())
    if bs:
        out += "[package-bindings]\n"
    for (p, i), b in bs:
        if isinstance(b, int):
            type_, args = sources()[b]
            b = "{ " + ", ".join(f'{k} = "{v}"' for k, v in {**args, "type": type_}.items()) + " }"
        else:
            b = f'"{b}"'
        out += f'"{spellings(p)[i]}" = {b}\n'
    return out


class Level:
    """the model of one configuration"""

    def __init__(self, c):
        rs, bs, mode = c or ([], [], None)
        self.exists = c is not None
        self.repos = {n: (s, b) for n, s, b in rs}
        self.bindings = {p: (spellings(p)[i], b) for (p, i), b in bs}
        self.mode = mode or "context"
        self.written_mode = mode

    def data(self):
        return {"repos": {n: {"type": sources()[s][0], **sources()[s][1], **({"bind-only": True} if b else {})} for n, (s, b) in self.repos.items()},
                "bindings": {n: b if isinstance(b, str) else {"type": sources()[b][0], **sources()[b][1]} for n, b in self.bindings.values()}, "mode": self.mode}


class Undefined(Exception):
    pass


class Refused(Exception):
    pass


class Unclear(Exception):
    pass


def chain_of(model, ctx):
    """the contexts whose repositories are known by name in the context"""
    mode = model[ctx].mode
    if mode == "context":
        return CHAIN[ctx]
    return [ctx] if mode == "none" or ctx == "global" else [ctx, "global"]


def lookup(model, chain, p, spec, url):
    """the versions a query at the first context of the chain gives"""
    ctx, rest = chain[0], chain[1:]
    level = model[ctx]

    def ask(s):
        if s == BROKEN:
            raise Refused
        return [v for v in versions(s, p) if specmodel.spec_allows(spec or "*", v)]

    if not url:
        own = PROJECTS.get(ctx, {}).get(p)
        if own and specmodel.spec_allows(spec or "*", own):
            return [own]
        if p in level.bindings:
            b = level.bindings[p][1]
            if isinstance(b, int):
                return ask(b)
            if b in level.repos:
                return ask(level.repos[b][0])
            known = [c for c in rest if b in model[c].repos]
            if not known:
                raise Undefined
            if level.mode != "context" or any(model[c].mode != "context" for c in rest):
                raise Unclear
            return ask(model[known[0]].repos[b][0])
        for s, bind_only in level.repos.values():
            if not bind_only and (found := ask(s)):
                return found
    if ctx == "global":
        return ["7.7"] if url else []
    if level.mode == "none":
        return []
    return lookup(model, ["global"] if level.mode == "global" else rest, p, spec, url)


@CHECK.test("search order", st.tuples(configs, st.lists(st.one_of(query, query, query, edit, edit, listed), min_size=4, max_size=12)), quick=1500, thorough=20000)
def search(case, t):
    cfgs, ops = case
    root = t.scratch()
    dirs = {"global": pkm.home, "group": root / "g", "project": root / "g" / "p", "env": root / "g" / "p" / ".venv", "zoo": root / "z", "zenv": root / "z" / "e"}
    for d in ("env", "zenv"):
        (dirs[d] / "bin").mkdir(parents=True)
        (dirs[d] / "pyvenv.cfg").write_text(f"home = {wk.INTERPRETER.parent}\n")
        (dirs[d] / "bin" / "python").symlink_to(wk.INTERPRETER)
    for name, d, v in ((PACKAGES[1], "p", "9.0"), (PACKAGES[3], "q", "9.5")):
        (root / "g" / d).mkdir(exist_ok=True)
        (root / "g" / d / "pyproject.toml").write_text(f'[project]\nname = "{name}"\nversion = "{v}"\n')
    (root / "g" / "pyproject-group.toml").write_text('name = "g"\nchildren = ["p", "q"]\n')
    (root / "z" / "env-zoo.toml").write_text("[package-sharing]\nenabled = false\n")
    url_wheel = wk.write_wheel(root / "w", dict(name=PACKAGES[0], version="7.7", files={"m.py": ""}))
    model = {}
    for ctx, c in zip(CONTEXTS, cfgs):
        f = dirs[ctx] / FILE
        f.parent.mkdir(parents=True, exist_ok=True)
        if f.exists():
            f.unlink()
        if ctx == "global":
            c = c or ([], [], None)
        if c is not None:
            f.write_text(toml_config(c))
        model[ctx] = Level(c)
    clear_cached_properties(pkm)
    env = wk.environment(root / "target")
    objects = {}

    def context(ctx):
        if ctx == "global":
            return pkm
        if ctx not in objects:
            if ctx == "project":
                objects[ctx] = Project.load(dirs[ctx])
            elif ctx == "group":
                objects[ctx] = ProjectGroup.load(dirs[ctx])
            elif ctx == "zoo":
                objects[ctx] = EnvironmentsZoo.load(dirs[ctx])
            else:
                objects[ctx] = Environment(dirs[ctx])
        return objects[ctx]

    def texts():
        return {c: (d / FILE).read_text() if (d / FILE).exists() else None for c, d in dirs.items()}

    before = texts()
    for k, o in enumerate(ops):
        kind, ctx = o[:2]
        name = f"op {k} {o}"
        if kind == "query":
            (p, i), spec = o[2:]
            asked = spellings(p)[i]
            url = spec == "url"
            if url:
                p, asked = 0, PACKAGES[0]
            try:
                want = lookup(model, CHAIN[ctx], p, "" if url else spec, url)
            except (Undefined, Refused, Unclear) as e:
                want = type(e)
            try:
                got = context(ctx).attached_repository.match(Dependency.parse(f"{asked} @ file://{url_wheel}" if url else f"{asked} {spec}"), env)
            except NoSuchElementException:
                t.check(want in (Undefined, Unclear), lambda: f"{name}: the repository is not known, expected {want}", key="undefined")
                t.label("undefined")
                continue
            except OSError as e:
                if want not in (Refused, Unclear):
                    raise
                t.label("refused")
                continue
            if want is Unclear:
                continue
            t.check(isinstance(want, list), lambda: f"{name}: found {got}, expected {want}", key="refusal")
            t.eq([str(x.version) for x in got], sorted(want, key=lambda v: [int(n) for n in v.split(".")], reverse=True), f"{name}: versions found", key="found")
            first = next((s for s, _ in model[ctx].repos.values()), None)
            t.nontrivial(bool(want) and (first is None or want[0].split(".")[1] != str(first)))
            t.label("found" if want else "nothing")
        elif kind == "list":
            man = context(ctx).repository_management
            chain = chain_of(model, ctx)
            want = {}
            for c in chain:
                for n, (s, b) in model[c].repos.items():
                    want.setdefault(n, (sources()[s][0], sources()[s][1], b))
            t.eq({n: (c.type, dict(c.args), c.bind_only) for n, c in man.all_repositories()}, want, f"{name}: all repositories", key="listed")
            t.eq([n for n, _ in man.defined_repositories()], list(model[ctx].repos), f"{name}: defined repositories", key="listed")
            n = o[2]
            try:
                publisher = man.publisher_for(n)
            except NoSuchElementException:
                t.check(n not in want, f"{name}: no publisher for the defined repository {n}", key="publisher")
            else:
                t.check(n in want, f"{name}: publisher for the undefined repository {n}", key="publisher")
                t.eq(publisher is not None, "publish-url" in want[n][1], f"{name}: is {n} publishable", key="publisher")
                if publisher:
                    t.eq(publisher.repository_name, n, f"{name}: name of the repository", key="publisher")
            t.eq(set(man.publishable_repositories()), {n for n in want if "publish-url" in want[n][1]}, f"{name}: publishable repositories", key="publisher")
        else:
            man, level = context(ctx).repository_management, model[ctx]
            if kind == "add":
                _, _, n, s, bind_only = o
                man.add_repository(n, sources()[s][0], dict(sources()[s][1]), bind_only)
                level.repos[n] = (s, bind_only)
            elif kind == "add bad":
                try:
                    man.add_repository(o[2], "no-such-type", {}, o[4])
                    t.fail(f"{name}: repository of an unknown type was added", key="bad")
                except KeyError:
                    pass
            elif kind == "remove":
                man.remove_repository(o[2])
                level.repos.pop(o[2], None)
                level.bindings = {p: b for p, b in level.bindings.items() if b[1] != o[2]}
            else:
                _, _, ps, to, _ = o
                repo = RepositoryInstanceConfig(sources()[to][0], False, dict(sources()[to][1])) if isinstance(to, int) else to
                man.register_bindings([spellings(p)[i] for p, i in ps], repo)
                for p, i in ps:
                    level.bindings.pop(p, None)
                    if to is not None:
                        level.bindings[p] = (spellings(p)[i], to)
            for other in list(objects):
                if other != ctx:
                    del objects[other]
            f = dirs[ctx] / FILE
            got = tomllib.loads(f.read_text()) if f.exists() else {}
            got = {"repos": {n: {k: v for k, v in r.items() if (k, v) != ("bind-only", False)} for n, r in got.get("repos", {}).items()}, "bindings": got.get("package-bindings", {}), "mode": got.get("inheritance", "context")}
            t.eq(got, level.data(), f"{name}: the saved configuration", key="saved")
            now = texts()
            t.eq({c: x for c, x in now.items() if c != ctx}, {c: x for c, x in before.items() if c != ctx}, f"{name}: the configurations of the other contexts", key="others")
            before = now
            t.label("edited")
        t.eq(texts(), before, f"{name}: configuration files", key="modified")
