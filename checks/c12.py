"""C12: installing wheels. Oracle: the layout rules of the wheel format, computed from the description the wheel was generated from."""
import configparser
import os
import subprocess
import warnings
from pathlib import Path

from hypothesis import strategies as st

import wheelkit as wk
from vlib import Check
from pkm.api.dependencies.dependency import Dependency
from pkm.api.distributions.wheel_distribution import WheelDistribution

CHECK = Check("C12", "wheels generated from the layout grammar (packages, modules, data folders of every kind, scripts, entry points, odd names and contents) "
                     "installed into four target layouts; non-trivial = the wheel has a data folder or an entry point in addition to modules", workers=6)

seg = st.sampled_from(["a", "b", "pkg", "mod.py", "__init__.py", "x.txt", "with space", "comma,name", 'quo"te', "é.txt", "data", "bad.py", "x.so", ".hidden", "x.dist-info.txt", "test.data", "-", "%s", "#", "UPPER.PY", "noext"])
path = st.lists(seg, min_size=1, max_size=3).map("/".join)
content = st.one_of(st.sampled_from(["", "x = 1\n", "def f():\n    return 0\n", "syntax error (\n", b"\x00\xff\r\n", "é\n", b"\xef\xbb\xbfx=1\r\n", "#!python\n"]), st.binary(max_size=20))
script = st.one_of(st.sampled_from(["#!python\nprint(1)\n", "#!python3 -s\nx", "#!python", "#!/bin/sh\necho\n", "#! python\n", "", "#!python\r\nprint(1)\r\n", b"\x7fELF\x00\xff", "# !python\n", "x\n#!python\n", "#!pythonw\nprint()\n"]), content)
scripts_name = st.sampled_from(["tool", "tool.py", "sub/tool", "other-tool", "é"])
ep_name = st.sampled_from(["cmd", "cmd-2", "Cmd", "cmd.x", "a_b", "tool2", "cmd:x", "c d"])
ep_ref = st.sampled_from(["pkg.mod:main", "pkg:main", "m:Main.run", "pkg.mod:main [extra]", "pkg.mod : main", "m:main[extra]"])
name = st.sampled_from(["pkg", "my-pkg", "My.Pkg", "my_pkg", "a"])
version = st.sampled_from(["1.0", "2!1.0.post1", "1.0rc1", "1.0+local.1", "0.0.1"])


def conflicts(paths):
    """a name that is used both as a file and as a directory"""
    paths = set(paths)
    return any("/".join(p.split("/")[:i]) in paths for p in paths for i in range(1, p.count("/") + 1))


@st.composite
def specs(draw):
    s = {"name": draw(name), "version": draw(version), "purelib": draw(st.sampled_from(["true", "true", "false", "True", "False"]))}
    s["files"] = draw(st.dictionaries(path, content, min_size=1, max_size=4))
    data = {}
    for key in draw(st.lists(st.sampled_from(["purelib", "platlib", "data", "headers", "scripts", "scripts"]), max_size=3, unique=True)):
        for p, c in draw(st.dictionaries(scripts_name if key == "scripts" else path, script if key == "scripts" else content, max_size=2)).items():
            data[key, p] = c
    s["data"] = data
    s["entry_points"] = draw(st.dictionaries(st.sampled_from(["console_scripts", "gui_scripts", "other.group"]), st.dictionaries(ep_name, ep_ref, min_size=1, max_size=2), max_size=2))
    s["info"] = draw(st.dictionaries(st.sampled_from(["LICENSE", "top_level.txt", "licenses/a/LICENSE", "RECORD.jws", "direct_url.json"]), st.sampled_from(["", "x\n"]), max_size=2))
    s["crlf"] = draw(st.booleans())
    s["alg"] = draw(st.sampled_from(["sha256", "sha256", "sha384", "sha512"]))
    s["dirs"] = draw(st.lists(st.sampled_from(["emptydir", "pkg/emptydir", "emptydir/nested", "empty/dir/s"]), max_size=2))
    return s


def valid(s, layout):
    lay = wk.LAYOUTS[layout]
    info = wk.dist_info_name(s)
    if conflicts(wk.members(s)) or any(p.split("/")[0].endswith((".dist-info", ".data")) for p in s["files"]):
        return False
    if any(d in s["files"] or any(d.startswith(p + "/") for p in s["files"]) for d in s["dirs"]):
        return False
    e = expected(s, layout)
    return e is not None and not conflicts(e)


def expected(s, layout):
    """installed path (relative to the root) -> content, None when two members have the same location"""
    lay = wk.LAYOUTS[layout]
    root = lay["purelib" if s["purelib"].lower() == "true" else "platlib"]
    info = wk.dist_info_name(s)
    out = {}

    def put(p, c):
        p = os.path.normpath(p)
        if p in out:
            out[None] = None
        out[p] = c

    for p, c in wk.members(s).items():
        if not p.startswith(info[:-len(".dist-info")] + ".data/"):
            put(f"{root}/{p}", c)
    for (key, p), c in s["data"].items():
        c = wk.data_of(c)
        if key == "scripts":
            put(f"{lay['scripts']}/{p}", wk.patched_script(c))
        elif key == "headers":
            put(f"{lay['include']}/{wk.descriptor(s).name}/{p}", c)
        elif key == "data":
            put(f"{lay['data']}/{p}" if lay["data"] else p, c)
        else:
            put(f"{lay[key]}/{p}", c)
    for group in ("console_scripts", "gui_scripts"):
        for n in s["entry_points"].get(group, ()):
            put(f"{lay['scripts']}/{n}", None)
    return None if None in out else out


case = st.tuples(specs(), st.sampled_from(sorted(wk.LAYOUTS)), st.sampled_from([None, "{name}", "{name} >=0.0.1", "{name}[x]"])).filter(lambda c: valid(c[0], c[1]))


@CHECK.test("install", case, quick=1200, thorough=20000)
def check_install(case, t):
    s, layout, request = case
    scratch = t.scratch()
    root = scratch / "root"
    target = wk.target(root, layout)
    before_dirs = {p for p, e in wk.snapshot(root).items() if e[0] == "dir"}
    wheel = wk.write_wheel(scratch / "dist", s)
    t.nontrivial(bool(s["data"] or s["entry_points"]) and bool(s["files"]))
    request = Dependency.parse(request.format(name=s["name"])) if request else None
    before_wheel = wheel.read_bytes()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        WheelDistribution(wk.descriptor(s), wheel).install_to(target, request)

    want = expected(s, layout)
    tree = wk.snapshot(root)
    after = {p: e for p, e in tree.items() if e[0] != "dir"}
    for d in sorted(p for p, e in tree.items() if e[0] == "dir" and p not in before_dirs):
        t.check(d.endswith("__pycache__") or any(p.startswith(d + "/") for p in after), f"the empty directory {d} was created", key="directory")
    info = wk.dist_info_name(s)
    site = wk.LAYOUTS[layout]["purelib" if s["purelib"].lower() == "true" else "platlib"]
    for p, c in want.items():
        t.check(p in after, f"{p} was not installed by {s}", key="missing")
        if c is not None:
            t.eq(after[p][1], c, f"the content of {p}", key="content")
    scripts = wk.LAYOUTS[layout]["scripts"] + "/"
    for p, c in want.items():
        is_command = c is None or any(key == "scripts" and p == os.path.normpath(scripts + sp) for key, sp in s["data"])
        if is_command:
            t.check(after[p][2] & 0o100, f"{p} is not executable", key="executable")

    bookkeeping = {f"{site}/{info}/{n}" for n in wk.BOOKKEEPING}
    sources = {os.path.normpath(p) for p in want if p.endswith(".py")}

    def is_pyc(p):
        d, n = os.path.split(p)
        return os.path.basename(d) == "__pycache__" and n.endswith(".pyc") and os.path.join(os.path.dirname(d), n.split(".cpython-")[0] + ".py") in sources

    extra = [p for p in after if p not in want and p not in bookkeeping and not is_pyc(p)]
    t.eq(extra, [], f"files written in addition to those of {s}", key="extra")

    rows = wk.read_record(root / site / info / "RECORD")
    recorded = {}
    for row in rows:
        t.eq(len(row), 3, f"columns of the record line {row}")
        p = os.path.relpath(os.path.normpath(root / site / row[0]), root)
        t.check(p not in recorded, f"{p} is recorded twice", key="record")
        recorded[p] = row
        t.check(p in after, f"the record lists {row[0]}, which is not installed", key="record")
        if p == f"{site}/{info}/RECORD":
            continue
        data = after[p][1]
        alg = row[1].split("=")[0]
        t.check(alg in ("sha256", "sha384", "sha512"), f"the record of {p} has no usable hash: {row}", key="record")
        t.eq(row[1], wk.digest(data, alg), f"recorded hash of {p}", key="hash")
        t.eq(row[2], str(len(data)), f"recorded size of {p}", key="size")
    missing = [p for p in after if p not in recorded and p not in bookkeeping]
    t.eq(missing, [], "installed files that the record does not list", key="record")
    t.eq((root / site / info / "INSTALLER").read_text().strip(), "pkm", "installer")

    target.reload()
    installed = list(target.site_packages.installed_packages())
    t.eq(len(installed), 1, f"installed packages {[str(p) for p in installed]}")
    t.eq(installed[0].descriptor, wk.descriptor(s), "installed package")
    t.eq(installed[0].user_request is not None, request is not None, "requested by the user")
    if request:
        t.eq(str(installed[0].user_request), str(request), "user request")
    t.eq(wheel.read_bytes(), before_wheel, "the wheel file")
    eps = {(e.group, e.name, e.ref.module_path.strip()) for e in installed[0].dist_info.load_entrypoints_cfg().entrypoints}
    t.eq(eps, {(g, n, r.split(":")[0].strip()) for g, group in s["entry_points"].items() for n, r in group.items()}, "entry points", key="entry points")


COMMANDS = {
    "pkg.mod:main": ("pkg/mod.py", "import sys\ndef main():\n    print('ran', sys.argv[1:])\n    return {code}\n"),
    "pkg:main": ("pkg/__init__.py", "import sys\ndef main():\n    print('ran', sys.argv[1:])\n    return {code}\n"),
    "m:Main.run": ("m.py", "import sys\nclass Main:\n    @staticmethod\n    def run():\n        print('ran', sys.argv[1:])\n        return {code}\n"),
    "m:main[extra]": ("m.py", "import sys\ndef main():\n    print('ran', sys.argv[1:])\n    sys.exit({code})\n"),
    "deep.er.mod:a.b.c": ("deep/er/mod.py", "import sys\ndef c():\n    print('ran', sys.argv[1:])\n    return {code}\nclass a:\n    class b:\n        c = staticmethod(c)\n"),
}


@CHECK.test("commands", st.tuples(st.sampled_from(sorted(COMMANDS)), ep_name, st.sampled_from(["console_scripts", "gui_scripts"]), st.sampled_from([0, 3, None]),
                                 st.lists(st.sampled_from(["x", "--y", "a b", ""]), max_size=2), st.sampled_from(sorted(wk.LAYOUTS)), st.booleans()), quick=40, thorough=600)
def check_commands(case, t):
    """the generated command is run"""
    ref, n, group, code, args, layout, as_script = case
    module, source = COMMANDS[ref]
    s = {"name": "pkg", "version": "1.0", "files": {module: source.format(code=code)}}
    if as_script:
        n = n + ".py"
        s["data"] = {("scripts", n): "#!python\n" + source.format(code=code) + "sys.exit(" + (ref.split(":")[1].split("[")[0]) + "())\n"}
    else:
        s["entry_points"] = {group: {n: ref}}
    t.nontrivial(True)
    root = t.scratch() / "root"
    target = wk.target(root, layout)
    WheelDistribution(wk.descriptor(s), wk.write_wheel(root.parent / "dist", s)).install_to(target)
    done = subprocess.run([str(Path(target.scripts) / n), *args], capture_output=True, text=True, timeout=60, cwd=root.parent,
                          env={**os.environ, "PYTHONPATH": target.purelib, "PYTHONDONTWRITEBYTECODE": "1"})
    t.eq((done.returncode, done.stdout, done.stderr), (code or 0, f"ran {args}\n", ""), f"running the command of {s}")
