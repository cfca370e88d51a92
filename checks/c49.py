"""C49: interpreters and virtual environments. Oracle: the generated directory tree of (fake and real) interpreters; what the created environment's own interpreter says about itself (sysconfig, platform)
in a process of its own; snapshots of the variables around an activation."""
import contextlib
import io
import json
import os
import subprocess
import sys
import warnings
from pathlib import Path

from hypothesis import strategies as st
from packaging.version import Version as PV

import specmodel
import wheelkit as wk
from vlib import Check, VERIF
from pkm.api.environments.environment import Environment
from pkm.api.environments.environment_builder import EnvironmentBuilder
from pkm.api.environments.installed_pythons_locator import InstalledPythonsLocator
from pkm.api.pkm import pkm
from pkm.api.versions.version_specifiers import VersionSpecifier
from pkm.utils.commons import NoSuchElementException
from pkm.utils.monitors import Monitor
from pkm.utils.processes import ProcessExecutionMonitoredOp, ProcessExecutionOutputLineEvent

CHECK = Check("C49", "search paths over trees of interpreters of generated versions (aliases, broken ones, look-alikes) x specifiers; environments made from them at generated paths, then used, moved and given another "
                     "interpreter; processes run in (nested) activated environments x variables; non-trivial = more than one interpreter was there to choose from, or something was replaced or restored", workers=8)

BASE = "/usr/bin/python3.12"
BASE_VERSION = subprocess.run([BASE, "-c", "import platform; print(platform.python_version())"], stdout=subprocess.PIPE, text=True).stdout.strip()
VERSIONS = ["3.7.17", "3.8.0", "3.9.1", "3.10.12", "3.11.4", "3.12.1", "3.13.0rc2", "3.14.0a1", "2.7.18"]
GOOD_NAMES = ["python", "python3", "python3.9", "python3.11", "python-3.8", "python2.7"]
BAD_NAMES = ["python3-config", "ipython", "pythonw", "pypy3", "python3.11.bak", "xpython3"]


def quiet(f):
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return f()


def fake(path: Path, version: str, kind="good", to=None):
    path.parent.mkdir(parents=True, exist_ok=True)
    body = {"good": f'exec {BASE} -I {VERIF}/fakepython.py {version} "$0" "$@"', "exits": "exit 3", "garbage": "echo what", "silent": "true", "chatty": "echo one; echo two; echo three",
            "killed": "kill -9 $$", "dying": f"echo {version}; echo $0; exit 1", "shim": f'exec "{to}" "$@"'}.get(kind)
    path.write_bytes(b"\x7fELF garbage" if kind == "binary" else f"#!/bin/sh\n{body}\n".encode())
    path.chmod(0o644 if kind == "unexecutable" else 0o755)


interp = st.tuples(st.integers(0, 2), st.sampled_from(GOOD_NAMES * 2 + BAD_NAMES), st.sampled_from(VERSIONS),
                   st.sampled_from(["good"] * 6 + ["exits", "garbage", "silent", "chatty", "killed", "binary", "unexecutable", "directory", "dangling", "alias", "alias", "dying", "shim", "shim"]))
spec = st.sampled_from(["*", ">=3.8", ">=3.9, <3.12", "~=3.8.0", "==3.11.*", "<3", ">3.20", "!=3.12.*", ">=3.13.0rc1", "~=3.9", "<4", "==3.9.1"])


@CHECK.test("interpreters", st.tuples(st.lists(interp, min_size=2, max_size=9), st.lists(st.sampled_from([0, 1, 2, "missing", "file", "", "closed"]), min_size=2, max_size=4), st.booleans(), spec), quick=200, thorough=2500)
def check_interpreters(case, t):
    """all working interpreters of the path are found, once each, best version first; an environment is made from the best that matches"""
    interps, search, searched, wanted = case
    d = t.scratch().resolve()
    shims = {}
    work = {}  # path -> version, of those that work
    for n, (where, name, version, kind) in enumerate(interps):
        p = d / f"p{where}" / name
        if os.path.lexists(p):
            continue
        if kind == "directory":
            p.mkdir(parents=True)
        elif kind in ("dangling", "alias"):
            p.parent.mkdir(parents=True, exist_ok=True)
            to = next(iter(work), d / "none") if kind == "alias" else d / "none"
            p.symlink_to(to)
        elif kind == "shim":
            # another interpreter, started by a script
            fake(p, version, kind, to=next(iter(work), d / "none"))
            if name in GOOD_NAMES and work:
                shims[p] = next(iter(work))
        else:
            fake(p, version, kind)
            if kind == "good" and name in GOOD_NAMES:
                work[p] = version
    (d / "file").write_text("")
    (d / "closed").mkdir()
    fake(d / "closed/python", "3.11.4")
    (d / "closed").chmod(0)
    t.cleanup(lambda: (d / "closed").chmod(0o755))
    fake(d / "deep/a/b/python", "3.10.12")
    fake(d / "deep/a/c/python3", "3.11.4")
    old = os.environ["PATH"]
    t.cleanup(lambda: os.environ.__setitem__("PATH", old))
    os.environ["PATH"] = os.pathsep.join(str(d / f"p{s}") if isinstance(s, int) else s and str(d / s) for s in search)
    locator = InstalledPythonsLocator([str(d / "deep"), str(d / "none")] if searched else None)
    found = quiet(lambda: locator.all_installed)
    want = {}
    for where in {s for s in search if isinstance(s, int)}:
        for p in (d / f"p{where}").glob("*"):
            if p.name in GOOD_NAMES and p.resolve() in work:
                want[str(p.resolve())] = work[p.resolve()]
            if p.name in GOOD_NAMES and p.resolve() in shims:
                want[str(shims[p.resolve()])] = work[shims[p.resolve()]]
    if searched:
        want[str(d / "deep/a/b/python")] = "3.10.12"
    want[os.path.realpath(sys.executable)] = BASE_VERSION
    t.eq(sorted((str(p.interpreter), str(p.version)) for p in found), sorted(want.items()), f"the interpreters of {os.environ['PATH']}", key="found")
    versions = [PV(str(p.version)) for p in found]
    t.eq(versions, sorted(versions, reverse=True), "the order of the interpreters", key="order")
    matching = quiet(lambda: locator.match(VersionSpecifier.parse(wanted)))
    t.eq(sorted(str(p.version) for p in matching), sorted(v for v in want.values() if specmodel.spec_allows(wanted, v)), f"the interpreters that match {wanted}", key="match")
    pkm.installed_pythons = locator
    t.cleanup(lambda: pkm.__dict__.pop("installed_pythons", None))
    target = d / "env"
    try:
        env = quiet(lambda: EnvironmentBuilder.create_matching(target, VersionSpecifier.parse(wanted)))
    except NoSuchElementException:
        t.check(not matching, f"no interpreter was found for {wanted}", key="best")
        t.check(not target.exists(), "something was left behind", key="best")
    else:
        t.check(bool(matching), f"an environment was made although nothing matches {wanted}", key="best")
        best = max(PV(str(p.version)) for p in matching)
        t.check((env.path / "bin/python").resolve() in {Path(p) for p, v in want.items() if PV(v) == best}, f"the environment for {wanted} is based on {os.readlink(env.path / 'bin/python')}", key="best")
        t.eq(env.interpreter_version.release, best.release, "the version of the environment", key="best")
    t.nontrivial(len(want) > 2)
    t.label(f"{min(len(matching), 3)} match")


# environments
segment = st.sampled_from(["env", "my env", ".venv", "ünï", "a'b", "x#y", "%d", "e=1", "-v"])
step = st.sampled_from(["reopen", "reload", "upgrade", "upgrade", "move", "corrupt", "truncate", "readonly", "delete cache"])
PROBE = ("import sys, os, json, sysconfig, platform; i = sys.implementation; n = '.'.join(map(str, i.version[:3])) + ('' if i.version[3] == 'final' else i.version[3][0] + str(i.version[4])); "
         "marks = dict(os_name=os.name, platform_python_implementation=platform.python_implementation(), platform_release=platform.release(), platform_system=platform.system(), "
         "platform_version=platform.version(), implementation_name=i.name, implementation_version=n); print(json.dumps(dict(marks=marks, paths=sysconfig.get_paths(), prefix=sys.prefix, v=list(sys.version_info[:3]), full=platform.python_version(),"
         "plat=sys.platform, machine=platform.machine(), base=getattr(sys, 'base_prefix', ''))))")


@CHECK.test("environments", st.tuples(st.lists(segment, min_size=1, max_size=2), st.sampled_from([None, None, *VERSIONS[:-1]]), st.sampled_from(["absolute", "relative", "dotted"]), st.lists(st.tuples(step, st.sampled_from(VERSIONS[:-1])), max_size=4)),
            quick=250, thorough=3000)
def check_environments(case, t):
    """an environment is what its own interpreter says it is, also after it was moved or its interpreter was replaced"""
    segments, version, how, steps = case
    d = t.scratch().resolve()
    interpreter = Path(BASE)
    if version:
        interpreter = d / "base/python"
        fake(interpreter, version)
    path = d.joinpath(*segments)
    old = os.getcwd()
    t.cleanup(lambda: os.chdir(old))
    os.chdir(d)
    given = {"absolute": path, "relative": Path(*segments), "dotted": d / "x" / ".." / Path(*segments)}[how]
    if how == "dotted":
        (d / "x").mkdir()
    env = quiet(lambda: EnvironmentBuilder.create(given, interpreter))
    short = ".".join((version or BASE_VERSION).split(".")[:2])
    site = path / f"lib/python{short}/site-packages"
    t.check(site.is_dir(), f"there is no {site.relative_to(d)}", key="layout")
    for link in ("python", "python" + short[0]):
        t.eq((path / "bin" / link).resolve(), interpreter.resolve(), f"bin/{link}", key="layout")
    t.check(not (path / "lib64").is_symlink() or (path / "lib64").resolve() == (path / "lib").resolve(), f"lib64 leads to {(path / 'lib64').resolve()}", key="layout")
    cfg = dict(line.split(" = ", 1) for line in (path / "pyvenv.cfg").read_text().splitlines())
    t.eq(cfg.get("home"), str(interpreter.parent), "the home in pyvenv.cfg", key="cfg")
    t.eq(cfg.get("version"), ".".join(map(str, ([*PV(version or BASE_VERSION).release, 0, 0])[:3])), "the version in pyvenv.cfg", key="cfg")
    t.eq(cfg.get("include-system-site-packages"), "false", "the system's packages in pyvenv.cfg", key="cfg")
    t.check(Environment.is_venv_path(path), "the environment is not recognized", key="layout")
    half = d / "half"
    (half / "bin").mkdir(parents=True)
    (half / "bin/python").symlink_to(BASE)
    t.check(not Environment.is_venv_path(half), "a directory with an interpreter is taken for an environment", key="layout")
    (d / "other half").mkdir()
    (d / "other half/pyvenv.cfg").write_text((path / "pyvenv.cfg").read_text())
    t.check(not Environment.is_venv_path(d / "other half"), "a directory without an interpreter is taken for an environment", key="layout")
    before = wk.snapshot(path)
    for busy in (path, interpreter):
        try:
            quiet(lambda: EnvironmentBuilder.create(busy, interpreter))
        except FileExistsError:
            pass
        else:
            t.fail("an existing path was replaced", key="exists")
    t.eq(wk.snapshot(path), before, "the environment after the refusal", key="exists")

    def verify(env, what):
        says = json.loads(subprocess.run([str(path / "bin/python"), "-c", PROBE], stdout=subprocess.PIPE, text=True, check=True).stdout)
        target = quiet(lambda: env.installation_target)
        t.eq({k: getattr(target, k) for k in ("purelib", "platlib", "scripts", "data")}, {k: says["paths"][k] for k in ("purelib", "platlib", "scripts", "data")}, f"the paths of the environment {what}", key="paths")
        t.eq(list(env.interpreter_version.release), says["v"], f"the version of the interpreter {what}", key="version")
        t.eq({k: env.markers[k] for k in ("python_version", "python_full_version", "sys_platform", "platform_machine")},
             dict(python_version=f"{says['v'][0]}.{says['v'][1]}", python_full_version=says["full"], sys_platform=says["plat"], platform_machine=says["machine"]), f"the markers {what}", key="markers")
        t.eq({k: env.markers[k] for k in says["marks"]}, says["marks"], f"the other markers {what}", key="markers")
        for minor in {8, 10, 12, 14, says["v"][1]}:
            if minor > 7:  # (older ones have another abi)
                t.eq(env.compatibility_tag_score(f"cp3{minor}-cp3{minor}-any") is not None, minor == says["v"][1], f"whether artifacts for 3.{minor} fit {what}", key="tags")

    verify(env, "when it is new")
    for k, (kind, v) in enumerate(steps):
        what = f"after {[s for s, _ in steps[:k + 1]]}"
        cache = path / "etc/pkm/env_introspection.json"
        if kind == "upgrade" and version:
            stamp = interpreter.stat()
            interpreter.unlink()
            fake(interpreter, v)
            os.utime(interpreter, ns=(stamp.st_atime_ns, stamp.st_mtime_ns + 10 ** 9))
        elif kind == "move":
            to = d / f"moved{k}"
            os.rename(path, to)
            path = to
        elif kind == "corrupt" and os.access(cache, os.W_OK):
            cache.write_text(["{", "[]", "null", '{"introspection": 3}', "\x00"][k % 5])
        elif kind == "truncate" and os.access(cache, os.W_OK):
            cache.write_bytes(cache.read_bytes()[:-100])
        elif kind == "delete cache" and cache.exists():
            with contextlib.suppress(PermissionError):
                cache.unlink()
        elif kind == "readonly":
            (path / "etc/pkm").chmod(0o555)
            cache.exists() and cache.chmod(0o444)
            t.cleanup(lambda p=path: (p / "etc/pkm").exists() and (p / "etc/pkm").chmod(0o755))
        if kind == "reload":
            env.reload()
            if env.path != path:
                continue
        else:
            env = Environment.load(path if k % 2 else str(path))
        verify(env, what)
    t.nontrivial(bool(steps))
    t.label("fake" if version else "real")


# activation
variables = st.dictionaries(st.sampled_from(["PATH", "VIRTUAL_ENV", "OTHER"]), st.sampled_from(["", "/bin", "/usr/bin:/bin", "x y"]))
@CHECK.test("activation", st.tuples(variables, st.lists(st.sampled_from([0, 1]), min_size=1, max_size=3), st.sampled_from(["nothing", "raise", "run", "run given", "exec", "exec given"]), st.sampled_from([0, 3]), st.text("ab\\ü '\n", max_size=4)),
            quick=150, thorough=2000)
def check_activation(case, t):
    """processes run inside the activated environment, and the variables are restored"""
    variables, nesting, what, code, word = case
    d = t.scratch().resolve()
    envs = []
    for i in range(2):
        envs.append(quiet(lambda: EnvironmentBuilder.create(d / f"env {i}", Path(BASE))))
        tool = d / f"env {i}/bin/the-tool"
        tool.write_text(f'#!/bin/sh\necho "tool of {i}"\nexit {code}\n')
        tool.chmod(0o755)
    own = dict(variables)

    class Stop(Exception):
        pass

    def inside(left):
        if not left:
            if what == "raise":
                raise Stop()
            return
        env = envs[left[0]]
        snap = dict(own)
        try:
            with env.activate(own):
                t.eq(own["VIRTUAL_ENV"], str(env.path), "VIRTUAL_ENV", key="active")
                t.eq(own["PATH"], f"{env.path}/bin" + (f":{snap['PATH']}" if snap.get("PATH") else ""), "PATH", key="active")
                t.eq(own.get("OTHER"), variables.get("OTHER"), "another variable", key="active")
                inside(left[1:])
        finally:
            t.eq(own, snap, "the variables after the activation", key="restored")
    try:
        inside(nesting)
    except Stop:
        t.nontrivial()
    env = envs[nesting[0]]
    script = "import os, sys, json; print(json.dumps([sys.prefix, os.environ.get('VIRTUAL_ENV'), os.environ.get('OTHER'), sys.argv[1:], 'HOME' in os.environ]))"
    want = [str(env.path), str(env.path), variables.get("OTHER") if what.endswith("given") else os.environ.get("OTHER"), [word], not what.endswith("given")]
    if what.startswith("run"):
        lines = []
        before = dict(os.environ)
        kwargs = dict(env=own) if what.endswith("given") else {}

        def on_line(event: ProcessExecutionOutputLineEvent):
            lines.append(event.line)

        def on_process(op: ProcessExecutionMonitoredOp):
            op.add_listeners(on_line=on_line)
        with Monitor.listen(on_process=on_process):
            done = env.run_proc(["python", "-c", script, word], **kwargs)
            t.eq(done.returncode, 0, "the exit code", key="run")
            done = env.run_proc(["the-tool"], **kwargs)
        t.eq(json.loads(lines[0]), want, "what the process sees", key="run")
        t.eq(lines[1:], [f"tool of {nesting[0]}"], "the output of a script of the environment", key="run")
        t.eq(done.returncode, code, "the exit code", key="run")
        t.eq(dict(os.environ), before, "the variables of this process", key="restored")
        t.eq(own, variables, "the given variables", key="restored")
        t.nontrivial()
    elif what.startswith("exec"):
        program = ("import sys\nfrom pathlib import Path\nfrom pkm.api.environments.environment import Environment\ne = Environment(Path(sys.argv[1]))\n"
                   + (f"e.exec_proc('python', ['-c', {script!r}, {word!r}], {own!r})" if what.endswith("given") else f"e.exec_proc('python', ['-c', {script!r}, {word!r}])"))
        r = subprocess.run([sys.executable, "-c", program, str(env.path)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        t.eq(r.returncode, 0, f"the exit code ({r.stderr[-400:]})", key="exec")
        t.eq(json.loads(r.stdout), want, "what the process sees", key="exec")
        program = "import sys\nfrom pathlib import Path\nfrom pkm.api.environments.environment import Environment\nEnvironment(Path(sys.argv[1])).exec_proc('the-tool')"
        r = subprocess.run([sys.executable, "-c", program, str(env.path)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        t.eq((r.returncode, r.stdout), (code, f"tool of {nesting[0]}\n"), f"a script of the environment ({r.stderr[-400:]})", key="exec")
        t.nontrivial()
    t.label(what)
