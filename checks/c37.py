"""C37: entry points, scripts and command lines. Oracle: importlib.metadata for references, shlex for command texts, and the behaviour of the generated scripts when they are run."""
import importlib
import importlib.metadata
import io
import os
import shlex
import shutil
import struct
import subprocess
import sys
import zipfile
from pathlib import Path

from hypothesis import strategies as st

from vlib import Check
from pkm.api.distributions.distinfo import EntrypointsConfiguration
from pkm.api.environments.environment import OperatingPlatform
from pkm.api.versions.version import Version
from pkm.launchers.executables import Executables
from pkm.utils.entrypoints import EntryPoint, ObjectReference
from pkm.utils.monitors import Monitor
from pkm.utils.processes import ProcessExecutionExitEvent, ProcessExecutionMonitoredOp, ProcessExecutionOutputLineEvent, monitored_run, split_command

CHECK = Check("C37", "object references with random spacing, extras and nesting, entry point files, packages of generated modules whose functions the generated scripts must run (odd interpreter paths included), "
                     "command texts with quotes and escapes, processes with random output; non-trivial = extras, nested objects, quotes, or a run script", workers=6)

ident = st.sampled_from(["a", "b1", "_c", "Main", "run", "cli", "x_y", "é"])
dotted = st.lists(ident, min_size=1, max_size=3).map(".".join)
blank = st.sampled_from(["", "", " ", "  ", "\t"])
extra = st.sampled_from(["x", "yy", "Z1", "a-b", "c.d", "e_f"])


@st.composite
def reference(draw):
    module, obj, extras = draw(dotted), draw(st.one_of(st.none(), dotted)), draw(st.one_of(st.none(), st.lists(extra, max_size=3, unique=True)))
    text = draw(blank) + module
    if obj:
        text += draw(blank) + ":" + draw(blank) + obj
    if extras is not None:
        text += draw(blank) + "[" + draw(blank) + (draw(blank) + "," + draw(blank)).join(extras) + draw(blank) + "]"
    return module, obj, extras, text + draw(blank)


@CHECK.test("references", reference(), quick=1500, thorough=20000)
def check_references(case, t):
    module, obj, extras, text = case
    t.nontrivial(bool(extras) or "." in (obj or "") or text != text.strip())
    r = ObjectReference.parse(text)
    t.eq((r.module_path, r.object_path, list(r.extras or [])), (module, obj, extras or []), f"the reference {text!r}", key="parse")
    std = importlib.metadata.EntryPoint("n", text.strip(), "g")
    if "é" not in text and not any(c in x for x in extras or () for c in "-."):
        t.eq((std.module, std.attr or None, std.extras), (module, obj, extras or []), "this check's reading", key="oracle")
    back = ObjectReference.parse(str(r))
    t.eq((back.module_path, back.object_path, list(back.extras or [])), (module, obj, extras or []), f"the printed reference {str(r)!r} read again", key="print")
    std = importlib.metadata.EntryPoint("n", str(r), "g")
    if "é" not in text and not any(c in x for x in extras or () for c in "-."):
        t.eq((std.module, std.attr or None, std.extras), (module, obj, extras or []), "the printed reference for another reader", key="print")


group = st.sampled_from(["console_scripts", "gui_scripts", "pkm.plugins", "a b"])
entries = st.lists(st.tuples(group, st.sampled_from(["x", "y-z", "W", "x y"]), reference()), max_size=5, unique_by=lambda e: e[:2])


@CHECK.test("entry points file", st.tuples(entries, entries), quick=500, thorough=5000)
def check_file(case, t):
    first, second = case
    f = t.scratch() / "entry_points.txt"
    c = EntrypointsConfiguration.load(f)
    t.nontrivial(len(first) > 1)

    def key(es):
        return sorted((e.group, e.name, e.ref.module_path, e.ref.object_path or "", tuple(e.ref.extras or [])) for e in es)

    def want(es):
        return sorted((g, n, r[0], r[1] or "", tuple(r[2] or [])) for g, n, r in es)

    for es in (first, second):
        c.entrypoints = [EntryPoint(g, n, ObjectReference.parse(r[3])) for g, n, r in es]
        t.eq(key(c.entrypoints), want(es), "the entry points that were set", key="set")
        c.save()
        c = EntrypointsConfiguration.load(f)
        t.eq(key(c.entrypoints), want(es), "the entry points that were saved", key="saved")
        text = f.read_text("utf-8")
        std = [(e.group, e.name, e.module, e.attr or "") for e in importlib.metadata.EntryPoints._from_text(text)] if "é" not in text else None
        if std is not None:
            t.eq(sorted(std), sorted(x[:4] for x in want(es)), "the entry points that the standard library reads", key="saved")
        t.eq(sorted(e.name for e in c.entrypoints if e.is_script()), sorted(n for g, n, _ in es if g.endswith("_scripts")), "the scripts", key="scripts")


class Env:
    def __init__(self, interpreter, os_="linux", machine="x86_64", bits=64):
        self.interpreter_path = Path(interpreter)
        self.operating_platform = OperatingPlatform(os_, bits, machine, Version.parse("3.12.0"), "cpython", 64)


RESULTS = [None, 0, 3, True, "a message"]
SHAPES = ["function", "function", "method", "nested", "submodule", "shadowed", "deep"]


def make_package(root, shape, result):
    """returns the reference"""
    pkg = root / "lib" / "thepkg"
    (pkg / "sub").mkdir(parents=True)
    body = f"import sys\ndef run():\n    print('ran', __name__, sys.argv[1:])\n    return {result!r}\nclass K:\n    @staticmethod\n    def go():\n        return run()\n    class Inner:\n        @classmethod\n        def go(cls):\n            return run()\n"
    bad = "def run():\n    raise SystemExit(99)\n"
    if shape in ("function", "method", "nested"):
        (pkg / "__init__.py").write_text(body)
        return {"function": "thepkg:run", "method": "thepkg:K.go", "nested": "thepkg:K.Inner.go"}[shape], "thepkg"
    if shape == "submodule":
        (pkg / "__init__.py").write_text(bad)
        (pkg / "cli.py").write_text(body)
        return "thepkg.cli:run", "thepkg.cli"
    if shape == "shadowed":  # the package has an attribute of the name of its module
        (pkg / "__init__.py").write_text("from .cli import cli\n" + bad)
        (pkg / "cli.py").write_text(body + "def cli():\n    raise SystemExit(98)\ncli.run = cli\n")
        return "thepkg.cli:run", "thepkg.cli"
    (pkg / "__init__.py").write_text(bad)
    (pkg / "sub" / "__init__.py").write_text(bad)
    (pkg / "sub" / "mod.py").write_text(body)
    return "thepkg.sub.mod:K.Inner.go", "thepkg.sub.mod"


def expected(result):
    if result is None or result == 0:
        return 0, ""
    if isinstance(result, str):
        return 1, result + "\n"
    return int(result), ""


script_case = st.tuples(st.sampled_from(SHAPES), st.sampled_from(RESULTS), st.sampled_from(["bin", "bin", "my bin", "a'b", "d" * 140, "q\"x", "$HOME"]), st.sampled_from(["tool", "a b", "x.y"]), st.lists(st.sampled_from(["1", "a b", "--x", ""]), max_size=2),
                        st.sampled_from(["console_scripts", "gui_scripts"]))


def interpreter_in(d):
    """an interpreter at another path"""
    d.mkdir(parents=True)
    p = d / "python"
    p.symlink_to(sys.executable)
    return p


def run(cmd, root):
    try:
        return _run(cmd, root)
    except OSError as e:
        return subprocess.CompletedProcess(cmd, -1, "", f"it does not start: {e}")


def _run(cmd, root):
    return subprocess.run(cmd, capture_output=True, text=True, env={"PATH": "/usr/bin:/bin", "PYTHONPATH": str(root / "lib"), "PYTHONDONTWRITEBYTECODE": "1", "PYTHONUTF8": "1"}, timeout=60)


@CHECK.test("scripts", script_case, quick=150, thorough=1500)
def check_scripts(case, t):
    shape, result, where, name, args, group_ = case
    root = t.scratch()
    ref, module = make_package(root, shape, result)
    python = interpreter_in(root / where)
    target = root / "scripts"
    script = Executables.generate_for_entrypoint(Env(python), EntryPoint(group_, name, ObjectReference.parse(ref)), target)
    t.nontrivial(shape != "function" or where != "bin")
    t.eq(script, target / name, "the path of the script", key="path")
    p = run([str(script), *args], root)
    code, err = expected(result)
    t.eq((p.returncode, p.stdout, p.stderr), (code, f"ran {module} {args}\n", err), f"exit code, output and errors of the script {script.read_text()!r}", key="script")
    # the object itself
    sys.path.insert(0, str(root / "lib"))
    try:
        importlib.invalidate_caches()
        obj = ObjectReference.parse(ref).import_object()
        t.eq((obj.__name__, sys.modules[module].__file__.startswith(str(root))), ("run" if ref.endswith("run") else "go", True), "the imported object", key="object")
        m = ObjectReference.parse(module).import_object()
        t.check(m is sys.modules[module], f"the reference {module} without an object gives {m!r}", key="object")
    finally:
        sys.path.remove(str(root / "lib"))
        for k in [k for k in sys.modules if k.split(".")[0] == "thepkg"]:
            del sys.modules[k]


@CHECK.test("patched scripts", st.tuples(st.sampled_from(["#!python", "#!pythonw", "#!python ", "#!/bin/sh", "no", ""]), st.sampled_from(["\n", "\r\n"]), st.sampled_from(["bin", "my bin", "d" * 140]), st.booleans(), st.binary(max_size=8)), quick=120, thorough=1000)
def check_patched(case, t):
    first, end, where, windowed, rest = case
    root = t.scratch()
    python = interpreter_in(root / where)
    if windowed:
        python.with_name("pythonw").symlink_to(sys.executable)
    src, dst = root / "src", root / "dst"
    content = (first + end).encode() + b"import sys\nprint(sys.argv[0] != '', sys.argv[1:])\n#" + rest.hex().encode()
    src.write_bytes(content)
    src.chmod(0o644)
    Executables.patch_shabang_for_interpreter(src, dst, python)
    t.nontrivial(first.startswith("#!python"))
    got = dst.read_bytes()
    t.check(os.access(dst, os.X_OK), "the script cannot be executed", key="mode")
    if not first.startswith("#!python"):
        t.eq(got, content, "the content of a script of another interpreter", key="other")
        return
    t.check(got.endswith(content[len(first + end):]), f"the rest of the script changed: {got!r}", key="rest")
    p = run([str(dst), "a b"], root)
    t.eq((p.returncode, p.stdout), (0, "True ['a b']\n"), f"exit code and output of {got!r} ({p.stderr})", key="patched")
    used = python.with_name("pythonw") if windowed and first == "#!pythonw" else python
    t.check(str(used).encode() in got.split(b"import sys")[0], "the interpreter", key="patched")


@CHECK.test("windows launchers", st.tuples(st.sampled_from(["console_scripts", "gui_scripts"]), st.sampled_from([("amd64", 64), ("x86", 32), ("i386", 32), ("aarch64", 64)]), st.sampled_from(RESULTS), st.sampled_from(["bin", "my bin"])), quick=40, thorough=120)
def check_windows(case, t):
    group_, (machine, bits), result, where = case
    root = t.scratch()
    ref, module = make_package(root, "submodule", result)
    env = Env(root / where / "python.exe", "windows", machine, bits)
    t.nontrivial(True)
    exe = Executables.generate_for_entrypoint(env, EntryPoint(group_, "tool", ObjectReference.parse(ref)), root / "scripts")
    t.eq(exe, root / "scripts" / "tool.exe", "the path of the launcher", key="path")
    data = exe.read_bytes()
    t.eq(data[:2], b"MZ", "the start of the launcher", key="launcher")
    pe = struct.unpack_from("<I", data, 0x3C)[0]
    mach, = struct.unpack_from("<H", data, pe + 4)
    subsystem, = struct.unpack_from("<H", data, pe + 24 + 68)
    t.eq(hex(mach), {"amd64": "0x8664", "x86": "0x14c", "i386": "0x14c", "aarch64": "0xaa64"}[machine], "the machine of the launcher", key="launcher")
    t.eq(subsystem, 2 if group_ == "gui_scripts" else 3, "the subsystem of the launcher (2 is windowed, 3 is console)", key="launcher")
    # the interpreter line lies just before the archive
    z = zipfile.ZipFile(io.BytesIO(data))
    t.eq(z.namelist(), ["__main__.py"], "the files of the archive", key="archive")
    end = data.rindex(b"PK\5\6")
    size, offset = struct.unpack_from("<II", data, end + 12)
    start = end - size - offset  # as the launcher computes it
    line = data[:start].rpartition(b"#!")[2]
    want = str(root / where / "python.exe")
    t.check(line.strip() in (want.encode(), f'"{want}"'.encode()) and (" " not in want or line.startswith(b'"')), f"the interpreter line before the archive is {line[:200]!r}", key="interpreter line")
    p = run([sys.executable, str(exe), "q"], root)
    code, err = expected(result)
    t.eq((p.returncode, p.stdout, p.stderr), (code, f"ran {module} ['q']\n", err), "exit code, output and errors of the launcher's script", key="script")


piece = st.one_of(st.sampled_from(["a", "b c", "--x", "é", "1", "/p", "x=y", "", " ", "\t", "\n"]), st.sampled_from(["'a b'", '"c d"', "''", '""', "'\"'", '"\'"', "\\ ", "\\'", '\\"', "\\\\", "'a\\nb'", '"a\\nb"', '"a\\"b"', "'x'y", "$HOME", "*", '"$x"']))


@CHECK.test("command texts", st.lists(piece, max_size=6).map("".join), quick=3000, thorough=50000)
def check_commands(case, t):
    try:
        want = shlex.split(case)
    except ValueError:
        want = None
    t.nontrivial(want is not None and want != case.split())
    try:
        got = split_command(case)
    except ValueError:
        got = None
    t.eq(got, want, f"the words of {case!r}", key="words")


@CHECK.test("command words", st.lists(st.text("ab '\"\\\n$*", max_size=5), max_size=4), quick=1000, thorough=20000)
def check_words(case, t):
    t.nontrivial(any(not w.isalnum() for w in case))
    t.eq(split_command(" ".join(shlex.quote(w) for w in case)), case, "the words of the quoted words", key="words")


chunk = st.sampled_from([b"line\n", b"\n", b"a b\n", "é\n".encode(), b"\xff\xfe\n", b"no end", b"x" * 9000 + b"\n"])


@CHECK.test("monitored processes", st.tuples(st.lists(chunk, max_size=4), st.sampled_from([0, 1, 7]), st.sampled_from(["exit", "close", "stderr", "text"])), quick=80, thorough=600)
def check_processes(case, t):
    chunks, code, how = case
    data = b"".join(chunks)
    if how == "text":
        data = data.replace(b"\xff\xfe", b"")
    prog = f"import os,sys,time\nos.write({2 if how == 'stderr' else 1}, {data!r})\n" + ("os.close(1);os.close(2);time.sleep(0.1)\n" if how == "close" else "") + f"os._exit({code})"
    lines, exits, ops = [], [], []

    def on_op(op: ProcessExecutionMonitoredOp):
        ops.append((op.execution_name, op.cmd))

        def on_line(e: ProcessExecutionOutputLineEvent):
            lines.append(e.line)

        def on_exit(e: ProcessExecutionExitEvent):
            exits.append(e.exit_code)
        with op.listen(on_line=on_line, on_exit=on_exit):
            yield

    cmd = [sys.executable, "-S", "-E", "-c", prog]
    t.nontrivial(len(data) > 0)
    with Monitor.listen(with_op=on_op):
        r = monitored_run("the run", cmd, **({"text": True} if how == "text" else {}))
    t.eq((r.returncode, r.args), (code, cmd), "the result", key="result")
    t.eq(ops, [("the run", cmd)], "the operations", key="operation")
    t.eq(exits, [code], "the exit events", key="exit")
    want = [x.decode("utf-8", "replace").strip() for x in data.split(b"\n")]
    if want[-1] == "":
        want.pop()
    t.check([x.strip() for x in lines] == want, f"the reported lines are {str(lines[:10])[:300]} ({len(lines)}) instead of {str(want)[:300]}", key="lines")
