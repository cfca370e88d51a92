"""C38: the cache of source builds. Real builds by a small backend that logs its calls; oracle: every answer must carry the token of the very source asked for, a model of what may be reused, and the graph of what needs what to build."""
import contextlib
import errno
import io
import itertools
import json
import os
import re
import shutil
import signal
import tempfile
import time
import warnings
import zipfile
from pathlib import Path

from hypothesis import strategies as st

import buildkit as bk
import faults
import wheelkit as wk
from vlib import Check
from pkm.api.dependencies.dependency import Dependency
from pkm.api.distributions.source_distribution import SourceDistribution
from pkm.api.packages.package import PackageDescriptor
from pkm.api.packages.package_metadata import PackageMetadata
from pkm.api.pkm import pkm
from pkm.api.versions.version import Version
from pkm.build.source_build_cache import SourceBuildCache
from pkm.repositories.file_system_repository import FileSystemRepositoryBuilder
from pkm.utils.properties import clear_cached_properties

CHECK = Check("C38", "histories of metadata and wheel requests for sources that share names, versions and contents, with failing builds, full disks and other disk faults, concurrent requests, and graphs of packages "
                     "that need each other to build; non-trivial = a request was made again after another one of its package or a fault, or the graph has a cycle or two levels", workers=8)

IDS = [("a", "1.0"), ("a", "1.0"), ("a", "1.0"), ("a", "1.0.1"), ("a", "1.0+1"), ("a", "1!0.1"), ("B.c", "1.0"), ("b_C", "1.0")]
TROUBLES = [None] * 5 + ["partial", "raise", "exit", "absent"]

source = st.tuples(st.sampled_from(range(len(IDS))), st.integers(0, 2), st.booleans(), st.sampled_from(TROUBLES), st.sampled_from([["wheel"], ["metadata"], ["wheel", "metadata"]]), st.booleans())
request = st.tuples(st.sampled_from(["wheel", "wheel", "metadata"]), st.integers(0, 3), st.sampled_from([0, 0, 1, 2]), st.sampled_from([None] * 5 + [("op", 1), ("op", 2), ("op", 3), ("op", 5), ("crash", 1), ("crash", 2), ("crash", 3), ("crash", 4), ("full", 0)]),
                    st.booleans())


def make_env(root, kind):
    env = wk.environment(root)
    if kind:
        env.markers = {**env.markers, **[{"platform_machine": "another"}, {"python_full_version": "3.99.1"}][kind - 1]}
    return env


class _Disk:
    """the temporary directory lies on another disk than the cache, which may be full: copying stops in the middle"""

    def __init__(self, cache, full):
        self.cache, self.full = str(cache), full

    def __enter__(self):
        self.saved = saved = (os.rename, os.replace, os.sendfile)
        within = lambda p: os.path.realpath(p).startswith(self.cache)

        def moving(real):
            def move(src, dst, **kw):
                if within(src) != within(dst):
                    raise OSError(errno.EXDEV, "Invalid cross-device link", str(src), None, str(dst))
                return real(src, dst, **kw)
            return move

        def sendfile(out, *args, **kw):
            if self.full and os.path.realpath(f"/proc/self/fd/{out}").startswith(self.cache) and os.path.realpath(f"/proc/self/fd/{out}").endswith(".whl"):
                os.write(out, b"PK not all of it")
                raise OSError(errno.ENOSPC, "No space left on device")
            return saved[2](out, *args, **kw)

        os.rename, os.replace, os.sendfile = moving(saved[0]), moving(saved[1]), sendfile
        return self

    def __exit__(self, *exc):
        os.rename, os.replace, os.sendfile = self.saved


def verify_answer(answer, what, cfg, t):
    if what == "metadata":
        t.check(isinstance(answer, PackageMetadata), f"asked for metadata, got {answer!r}")
        t.eq((answer.package_name, str(answer.package_version), answer.summary), (cfg["name"], cfg["version"], cfg["token"]), "metadata of the source asked for")
        return
    t.check(answer.is_file() and answer.suffix == ".whl", f"no wheel at {answer}")
    try:
        with zipfile.ZipFile(answer) as z:
            found = {n: z.read(n).decode() for n in z.namelist()}
            t.eq(z.testzip(), None, "broken wheel")
    except zipfile.BadZipFile:
        t.fail("the returned wheel is incomplete")
    t.eq(found.get(cfg["module"] + ".py"), f"TOKEN = {cfg['token']!r}\n", "the wheel is of another source")


def ask(cache, what, dist, env):
    return cache.get_or_build_meta(env, dist) if what == "metadata" else cache.get_or_build_wheel(env.installation_target, dist)


def module(cfg):
    return re.sub("[-_.]+", "_", cfg["name"]).lower()


def make_sources(case_sources, scratch):
    out = []
    for n, (i, token, hook, trouble, where, heals) in enumerate(case_sources):
        name, version = IDS[i]
        flag = scratch / f"trouble-{name}-{version}-{token}-{trouble}"
        if heals:
            flag.write_text("")
        cfg = dict(name=name, version=version, token=f"{name} {version} {token}", log=str(scratch / "log"), meta_hook=hook, trouble=trouble, trouble_in=where, heals=str(flag) if heals else None)
        path = bk.write_sdist(scratch / f"s{n}", cfg)
        out.append((dict(cfg, module=module(cfg)), SourceDistribution(PackageDescriptor(name, Version.parse(version)), path), flag))
    return out


def log_of(scratch):
    log = scratch / "log"
    return [tuple(json.loads(l)) for l in log.read_text().splitlines()] if log.exists() else []


def fails(cfg, what, flag):
    """does building this fail for a reason of its own"""
    if not cfg["trouble"] or (cfg["heals"] and not flag.exists()):
        return False
    hooks = {"wheel"} if what == "wheel" or not cfg["meta_hook"] else {"metadata"}
    return bool(hooks & set(cfg["trouble_in"]))


class Crashed(Exception):
    pass


def quietly(f):
    with contextlib.redirect_stderr(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return f()


def crash(f, root, n):
    """f in a process that ends without any clean-up at its n-th change under root"""
    child = os.fork()
    if not child:
        try:
            signal.alarm(100)
            with faults.fault_at(root, n, exc=lambda *_: os._exit(9)):
                f()
        finally:
            os._exit(1)
    os.waitpid(child, 0)


@CHECK.test("requests", st.tuples(st.lists(source, min_size=1, max_size=4), st.lists(request, min_size=2, max_size=7), st.booleans()), quick=170, thorough=3000)
def requests(case, t):
    case_sources, ops, other_disk = case
    scratch = t.scratch().resolve()
    t.cleanup(lambda tmp=tempfile.tempdir: setattr(tempfile, "tempdir", tmp))
    (scratch / "tmp").mkdir()
    tempfile.tempdir = str(scratch / "tmp")
    sources = make_sources(case_sources, scratch)
    cache = SourceBuildCache(scratch / "cache")
    envs = [make_env(scratch / f"e{k}-{n}", k) for k in (0, 1, 2) for n in (0, 1)]
    have, asked, faulted, latest, again, crashed = {}, set(), set(), {}, False, False
    for n, (what, s, kind, fault, fresh) in enumerate(ops):
        cfg, dist, flag = sources[s % len(sources)]
        own = (cfg["name"], cfg["version"])
        key = (dist.archive.read_bytes(), own, kind)
        env = envs[kind * 2 + (n % 2)]
        env.installation_target = wk.target(env.path)
        env.installation_target.env = env
        if fresh:
            cache = SourceBuildCache(scratch / "cache")
        before = len(log_of(scratch))
        again |= own in asked and (key not in have or own in faulted)
        asked.add(own)
        known = key in have and (what == "metadata" or "wheel" in have[key])
        bad = not known and fails(cfg, what, flag)
        step = f"step {n} ({what} of {cfg['token']})"
        attempt = lambda: quietly(lambda: ask(cache, what, dist, env))
        try:
            with _Disk(scratch / "cache", bool(fault) and fault[0] == "full") if other_disk or fault else contextlib.nullcontext():
                if fault and fault[0] == "crash":
                    crash(lambda: attempt(), scratch / "cache", fault[1])
                    raise Crashed
                elif fault and fault[0] == "op":
                    with faults.fault_at(scratch / "cache", fault[1]):
                        answer = attempt()
                else:
                    answer = attempt()
        except Exception as e:
            t.check(bad or fault, f"{step} failed without a reason: {type(e).__name__}: {str(e)[:300]}", key=type(e).__name__)
            t.label(fault[0] if fault else "trouble")
            crashed |= isinstance(e, Crashed)
            faulted.add(own)
            if bad and cfg["heals"] and flag.exists() and n % 2:
                flag.unlink()
            continue
        t.check(not bad, f"{step}: the build failed, yet there was an answer: {answer}")
        verify_answer(answer, what, cfg, t)
        built = log_of(scratch)[before:]
        if known and own not in faulted and latest[own, kind] == key:
            t.eq(built, [], f"{step}: was built again though nothing changed")
            t.label("reused")
        if not known and own not in faulted:
            t.check(built, f"{step}: was not built, although nothing was built before of this source for this kind of environment", key="shared")
        for entry in built:
            t.eq(entry[:3], (cfg["name"], cfg["version"], cfg["token"]), f"{step}: something else was built")
        latest[own, kind] = key
        have.setdefault(key, set()).add(what)
        if what == "wheel" or (built and built[-1][3] == "wheel"):
            have[key].add("wheel")
    t.nontrivial(again or len(asked) < len(ops))
    if not crashed:
        t.eq([p.name for p in (scratch / "tmp").iterdir()], [], "temporary directories were left behind")


together = st.tuples(st.lists(source.map(lambda s: (*s[:3], None, ["wheel"], False)), min_size=1, max_size=3), st.lists(st.tuples(st.sampled_from(["wheel", "wheel", "metadata"]), st.integers(0, 2), st.sampled_from([0, 0, 1])), min_size=2, max_size=4),
                     st.booleans())


@CHECK.test("requests at the same time", together, quick=60, thorough=800)
def at_the_same_time(case, t):
    """several processes ask for builds at once; what was handed out stays usable"""
    case_sources, asks, warm = case
    scratch = t.scratch().resolve()
    sources = make_sources(case_sources, scratch)
    cache = SourceBuildCache(scratch / "cache")
    if warm:
        cfg, dist, _ = sources[-1]
        verify_answer(quietly(lambda: ask(cache, "wheel", dist, targeted(scratch / "e", 0))), "wheel", cfg, t)
    children = []
    gate = scratch / "gate"
    for n, (what, s, kind) in enumerate(asks):
        cfg, dist, _ = sources[s % len(sources)]
        child = os.fork()
        if not child:
            result = None
            try:
                signal.alarm(100)
                while not gate.exists():
                    time.sleep(0.001)
                answer = quietly(lambda: ask(cache, what, dist, targeted(scratch / f"e{n}", kind)))
                time.sleep(0.05)
                result = str(answer) if what == "wheel" else [answer.package_name, str(answer.package_version), answer.summary]
            except Exception as e:  # noqa
                result = {"error": f"{type(e).__name__}: {str(e)[:300]}"}
            finally:
                (scratch / f"out{n}").write_text(json.dumps(result))
                os._exit(0)
        children.append((child, what, cfg))
    gate.write_text("")
    for n, (child, what, cfg) in enumerate(children):
        os.waitpid(child, 0)
    for n, (child, what, cfg) in enumerate(children):
        result = json.loads((scratch / f"out{n}").read_text())
        t.check(not isinstance(result, dict), f"request {n} ({what} of {cfg['token']}) failed: {result}", key="error")
        if what == "wheel":
            verify_answer(Path(result), what, cfg, t)
        else:
            t.eq(result, [cfg["name"], cfg["version"], cfg["token"]], "metadata")
    t.nontrivial(len({(s % len(sources), k) for _, s, k in asks}) < len(asks) or len(sources) > 1)


def targeted(root, kind):
    env = make_env(root, kind)
    env.installation_target = wk.target(root)
    env.installation_target.env = env
    return env


# needs: 0 to build it, 1 to build it but told by the backend, 2 to run it
edge = st.tuples(st.integers(0, 3), st.integers(0, 3), st.sampled_from([0, 0, 0, 1, 2, 2]))
graph = st.tuples(st.lists(st.tuples(st.booleans(), st.sampled_from([None] * 7 + ["raise", "exit"]), st.booleans()), min_size=2, max_size=4), st.lists(edge, min_size=1, max_size=5, unique_by=lambda e: e[:2]))
GRAPH_NAMES = ["a", "B.b", "c", "d_d"]


@CHECK.test("graphs", graph, quick=90, thorough=900)
def graphs(case, t):
    nodes, edges = case
    n = len(nodes)
    edges = sorted({(a % n, b % n): k for a, b, k in edges}.items())
    edges = [(a, b, k) for (a, b), k in edges if a != b or k != 2]
    scratch = t.scratch().resolve()
    home = Path(os.environ["XDG_DATA_HOME"]) / "pkm"
    to = lambda i, kinds: [b for a, b, k in edges if a == i and k in kinds]
    modules = [re.sub("[-_.]+", "_", x).lower() for x in GRAPH_NAMES]
    flags = [scratch / f"trouble{i}" for i in range(n)]

    def closure(roots):
        out, todo = [], list(roots)
        while todo:
            if (i := todo.pop()) not in out:
                out.append(i)
                todo += to(i, (2,))
        return out

    for i, (wheel, trouble, hook) in enumerate(nodes):
        name = GRAPH_NAMES[i]
        if wheel and not to(i, (0, 1)):
            wk.write_wheel(scratch / "repo", dict(name=name, version="1.0", requires=[GRAPH_NAMES[b] for b in to(i, (2,))], files={modules[i] + ".py": f"TOKEN = 'wheel {name}'\n"}))
            continue
        if trouble:
            flags[i].write_text("")
        bk.write_sdist(scratch / "repo", dict(name=name, version="1.0", token=f"built {name}", log=str(scratch / "log"), imports=[modules[b] for b in closure(to(i, (0, 1)))], meta_hook=hook,
                                              late_requires=[GRAPH_NAMES[b] for b in to(i, (1,))], requires_dist=[GRAPH_NAMES[b] for b in to(i, (2,))], trouble=trouble, trouble_in=["wheel"], heals=str(flags[i])),
                       requires=[GRAPH_NAMES[b] for b in to(i, (0,))])
    is_wheel = lambda i: nodes[i][0] and not to(i, (0, 1))
    builds = lambda i: set() if is_wheel(i) else {b for b in closure(to(i, (0, 1)))}

    def depth(i, path=()):
        """how deep builds are nested below i; None if one needs itself"""
        if i in path:
            return None
        levels = [depth(b, (*path, i)) for b in builds(i)]
        return None if None in levels else 1 + max(levels, default=0)

    installed = closure([0])
    depths = [depth(i) for i in installed]
    cyclic = None in depths
    involved = set(installed)
    while (more := {b for i in involved for b in builds(i)} - involved):
        involved |= more
    troubled = any(flags[i].exists() for i in involved)

    (home / "etc/pkm").mkdir(parents=True, exist_ok=True)
    (home / "etc/pkm/repositories.toml").write_text(f'inheritance = "none"\n[repos.local]\ntype = "file-system"\npath = "{scratch}/repo"\n')
    clear_cached_properties(pkm)
    t.cleanup(lambda: [(home / "etc/pkm/repositories.toml").unlink(), clear_cached_properties(pkm), shutil.rmtree(home / "build-cache", ignore_errors=True)])
    t.nontrivial(cyclic or max(depths) > 1)
    t.label("cycle" if cyclic else f"depth {max(depths)}" + (" troubled" if troubled else ""))

    for attempt in range(2):
        root = scratch / f"env{attempt}"
        err = io.StringIO()
        failure = None
        try:
            with contextlib.redirect_stderr(err), contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
                warnings.simplefilter("ignore")
                wk.target(root).install([Dependency.parse(GRAPH_NAMES[0])], FileSystemRepositoryBuilder().build("repo", str(scratch / "repo")))
        except Exception as e:  # noqa
            failure = e
        if cyclic and not troubled:
            t.check(failure is not None, "packages that need each other to build were installed")
            said = err.getvalue() + "".join(str(e) for e in chain(failure))
            t.check("cycle" in said, f"the cycle is not reported: {type(failure).__name__}: {str(failure)[:300]}", key="cycle")
            return
        if cyclic or (troubled and attempt == 0):
            t.check(failure is not None, "a package was installed though a build it needs fails")
            for f in flags:
                f.unlink(missing_ok=True)
            troubled = False
            continue
        t.check(failure is None, f"attempt {attempt}: {type(failure).__name__}: {str(failure)[:200]}: {err.getvalue()[-300:]}", key="failed")
        found = {p.name for p in (root / "lib/python3/site-packages").iterdir() if p.suffix == ".py"}
        t.eq(found, {modules[i] + ".py" for i in installed}, "installed modules")
        for i in installed:
            t.eq((root / f"lib/python3/site-packages/{modules[i]}.py").read_text(), f"TOKEN = '{'wheel' if is_wheel(i) else 'built'} {GRAPH_NAMES[i]}'\n", "installed content")
        return


def chain(e):
    while e is not None:
        yield e
        e = e.__cause__ or e.__context__
