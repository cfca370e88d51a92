"""C10: compatibility of wheels with an environment, and the choice among the files of a release. Oracle: packaging.tags for the set of supported tags,
componentwise comparison (interpreter, abi, platform in packaging's order) for what is more specific."""
import itertools
import os
import struct
import warnings
from types import SimpleNamespace

from hypothesis import strategies as st
from packaging import tags as ptags

from vlib import Check
from pkm.api.environments.environment_introspection import EnvironmentIntrospection
from pkm.api.packages.package import PackageDescriptor
from pkm.api.packages.standard_package import AbstractPackage, PackageArtifact
from pkm.api.versions.version import Version
from pkm.api.versions.version_specifiers import VersionSpecifier

CHECK = Check("C10", "simulated interpreters (version, debug flag, implementation, linux with glibc or musl, macOS, windows) and wheel tags around what they support; "
                     "non-trivial = of the tags compared at least one is supported and one is not, or two are supported and ranked", workers=6)

LINUX_ARCH = {"x86_64": (62, False), "aarch64": (183, False), "i686": (3, True), "armv7l": (40, True), "ppc64le": (21, False)}


def elf(arch, interp):
    machine, is32 = LINUX_ARCH[arch]
    path = interp.encode() + b"\0" if interp else b""
    flags = 0x05000400 if arch == "armv7l" else 0
    ehsize, phsize = (52, 32) if is32 else (64, 56)
    L = "I" if is32 else "Q"
    ident = b"\x7fELF" + bytes([1 if is32 else 2, 1, 1, 0, 0]) + b"\0" * 7
    n = 2 if path else 1
    off = ehsize + phsize * n
    head = struct.pack("<2HI3" + L + "I6H", 2, machine, 1, 0x1000, ehsize, 0, flags, ehsize, phsize, n, 0, 0, 0)

    def ph(kind, o, size):
        if is32:
            return struct.pack("<8I", kind, o, 0x8048000 + o, 0, size, size, 4, 1)
        return struct.pack("<2I6Q", kind, 4, o, 0x400000 + o, 0, size, size, 1)
    body = ph(6, ehsize, phsize * n) + (ph(3, off, len(path)) if path else b"")
    return ident + head + body + path


env = st.one_of(
    st.fixed_dictionaries({
        "os": st.just("linux"), "python": st.sampled_from([(3, 7), (3, 8), (3, 10), (3, 12)]), "debug": st.booleans(), "impl": st.sampled_from(["cpython", "cpython", "cpython", "pypy"]),
        "arch": st.sampled_from(list(LINUX_ARCH)), "glibc": st.sampled_from([(2, 17), (2, 31), (2, 5), (2, 35), None]), "musl": st.sampled_from([None, None, (1, 1), (1, 2)]),
        "elf": st.sampled_from([True, True, True, False])}),
    st.fixed_dictionaries({
        "os": st.just("mac"), "python": st.sampled_from([(3, 8), (3, 10), (3, 12)]), "debug": st.booleans(), "impl": st.just("cpython"),
        "arch": st.sampled_from(["x86_64", "arm64"]), "ver": st.sampled_from([(10, 9), (10, 15), (11, 0), (11, 6), (12, 0), (13, 2)])}),
    st.fixed_dictionaries({
        "os": st.just("win"), "python": st.sampled_from([(3, 8), (3, 10), (2, 7)]), "debug": st.booleans(), "impl": st.just("cpython"), "arch": st.sampled_from(["win32", "win_amd64"])}),
)


def tag_for(draw, e):
    maj, minor = e["python"]
    near = [v for v in {minor, minor, minor - 1, minor + 1, 6, 2} if v >= 0]
    m = draw(st.sampled_from(sorted(near) + [minor, minor]))
    other = draw(st.sampled_from([maj, maj, maj, maj, 5 - maj]))
    short = "cp" if e["impl"] == "cpython" else "pp"
    interp = draw(st.sampled_from([f"{short}{maj}{m}", f"{short}{maj}{m}", f"{short}{maj}{minor}", f"py{other}", f"py{other}", f"py{maj}{m}", f"{'pp' if short == 'cp' else 'cp'}{maj}{minor}", f"jy{maj}{minor}"]))
    if interp.startswith("py"):
        abi = "none"
    elif interp.startswith("cp"):
        abi = draw(st.sampled_from(["none", "abi3", "abi3", "{}", "{}", "{}m", "{}d", "{}mu"])).format(interp)
        if draw(st.integers(0, 8)) == 0:
            abi = f"cp{maj}{minor}" if interp == f"cp{maj}{minor}" else abi
    else:
        abi = draw(st.sampled_from(["none", f"pypy{maj}{m}_pp73"]))
    if abi == "abi3" and (maj, m) < (3, 2) or abi == "abi3" and interp[2:] in ("30", "31"):
        abi = "none"
    plat = draw(platform(e))
    if abi != "none" and plat == "any":
        plat = draw(platform(e, False))
    return (interp, abi, plat)


def floor(e, arch):
    """the glibc version; architectures other than those of PEP 513 have no manylinux before 2.17"""
    return e["glibc"] and (max(e["glibc"], (2, 17)) if arch not in ("x86_64", "i686") else e["glibc"])


def platform(e, with_any=True):
    out = ["any"] if with_any else []
    if e["os"] == "linux":
        a = e["arch"]
        archs = [a, a, a, a, a, "x86_64", "aarch64", "i686"]
        for x in archs:
            g = floor(e, x) or (2, 20)
            out += [f"linux_{x}", f"manylinux_{g[0]}_{g[1]}_{x}", f"manylinux_2_{g[1] + 1}_{x}", f"manylinux_2_{max(17, g[1] - 1)}_{x}", f"manylinux_2_17_{x}", f"manylinux2014_{x}"]
            if x in ("x86_64", "i686"):
                out += [f"manylinux1_{x}", f"manylinux2010_{x}", f"manylinux_2_5_{x}", f"manylinux_2_{max(5, g[1] - 1)}_{x}"]
            out += [f"musllinux_1_1_{x}", f"musllinux_1_2_{x}", f"musllinux_1_0_{x}", f"musllinux_2_0_{x}"]
        out += ["win_amd64", "macosx_10_9_x86_64", "any"][: 3 if with_any else 2]
    elif e["os"] == "mac":
        fm = ["x86_64", "universal2", "intel", "fat64", "fat3", "universal"] if e["arch"] == "x86_64" else ["arm64", "universal2", "x86_64"]
        for f in fm + [e["arch"]] * 2 + ["ppc"]:
            out += [f"macosx_{M}_0_{f}" for M in (11, 12, 13, 14)]
            if f != "arm64":
                out += [f"macosx_10_{m}_{f}" for m in (4, 6, 9, 15)]
        out += ["linux_x86_64", "manylinux2014_x86_64"]
    else:
        out += ["win32", "win_amd64", "win_arm64", "linux_x86_64"] * 2
    if e["os"] != "linux" and with_any:
        out += ["any"] * (len(out) // 5)
    return st.sampled_from(out)


@st.composite
def scene(draw, n=2, compressed=True):
    e = draw(env)
    out = []
    for _ in range(n):
        a, b, c = tag_for(draw, e)
        if compressed and draw(st.integers(0, 3)) == 0:
            k = draw(st.integers(0, 2))
            if k == 0:
                a = ".".join(sorted({a, "py2", "py3"} if a.startswith("py") else {a, a[:2] + f"{e['python'][0]}{max(2, e['python'][1] - 2)}"}))
            else:
                c = ".".join(dict.fromkeys([c, draw(platform(e, c == "any" or b == "none"))]))
        out.append((a, b, c))
    return e, out


def abis(e):
    maj, minor = e["python"]
    nodot = f"{maj}{minor}"
    if e["impl"] == "pypy":
        return [f"pypy{nodot}_pp73"]
    d = "d" if e["debug"] else ""
    if (maj, minor) >= (3, 8):
        return [f"cp{nodot}{d}"] + ([f"cp{nodot}"] if d else [])
    if (maj, minor) >= (3, 3):
        return [f"cp{nodot}{d}m"]
    return [f"cp{nodot}{d}mu"]


def platforms(e):
    """supported platforms, most specific first"""
    if e["os"] == "win":
        return [e["arch"]]
    if e["os"] == "mac":
        return list(ptags.mac_platforms(e["ver"], e["arch"]))
    out, a = [], e["arch"]
    abi_known = e["elf"]
    if abi_known and e["glibc"]:
        legacy = {17: "manylinux2014", 12: "manylinux2010", 5: "manylinux1"}
        low = 5 if a in ("x86_64", "i686") else 17
        for m in range(floor(e, a)[1], low - 1, -1):
            out.append(f"manylinux_2_{m}_{a}")
            if m in legacy:
                out.append(f"{legacy[m]}_{a}")
    if abi_known and e["musl"]:
        out += [f"musllinux_1_{m}_{a}" for m in range(e["musl"][1], -1, -1)]
    return out + [f"linux_{a}"]


def supported(e):
    pl = platforms(e)
    maj, minor = e["python"]
    if e["impl"] == "cpython":
        out = list(ptags.cpython_tags(e["python"], abis(e), pl))
        out += ptags.compatible_tags(e["python"], f"cp{maj}{minor}", pl)
    else:
        out = list(ptags.generic_tags(f"pp{maj}{minor}", abis(e) + ["none"], pl))
        out += ptags.compatible_tags(e["python"], f"pp{maj}{minor}", pl)
    return {(x.interpreter, x.abi, x.platform) for x in out}


def introspection(e, t):
    py = e["python"]
    d = t.scratch()
    exe, musl = d / "python", d / "ld-musl"
    linux = e["os"] == "linux"
    if linux:
        interp = str(musl)
        if e["musl"]:
            musl.write_text(f"#!/bin/sh\nprintf 'musl libc ({e['arch']})\\nVersion {e['musl'][0]}.{e['musl'][1]}.3\\nDynamic Program Loader\\n' >&2\nexit 1\n")
            musl.chmod(0o755)
        else:
            glibc = d / "ld"
            glibc.write_text("#!/bin/sh\necho glibc loader >&2\n")
            glibc.chmod(0o755)
            interp = str(glibc)
        exe.write_bytes(elf(e["arch"], interp if e["elf"] else None) if e["elf"] else b"#!/bin/sh\n" + b" " * 80)
    is32 = linux and LINUX_ARCH[e["arch"]][1] or e["arch"] == "win32"
    plat = {"linux": lambda: "linux-" + {"i686": "x86_64", "armv7l": "aarch64"}.get(e["arch"], e["arch"]),
            "mac": lambda: f"macosx-{e['ver'][0] if e['ver'][0] > 10 else '10'}.{0 if e['ver'][0] > 10 else 9}-{e['arch']}", "win": lambda: e["arch"].replace("_", "-")}[e["os"]]()
    mu = {"Py_UNICODE_SIZE": 4} if py < (3, 3) else {}
    return EnvironmentIntrospection({
        "sysconfig": {"platform": plat, "vars": {"Py_DEBUG": int(e["debug"]), "WITH_PYMALLOC": 1, "SOABI": f"pypy{py[0]}{py[1]}-pp73" if e["impl"] == "pypy" else None, **mu}},
        "sys": {"implementation": {"name": e["impl"]}, "version_info": [*py, 4, "final", 0], "has_totalrefcount": e["debug"], "maxunicode": 0x10ffff,
                "maxsize": 2 ** 31 - 1 if is32 else 2 ** 63 - 1, "executable": str(exe), "platform": {"linux": "linux", "mac": "darwin", "win": "win32"}[e["os"]]},
        "importlib": {"machinery": {"EXTENSION_SUFFIXES": []}},
        "platform": {"system": {"linux": "Linux", "mac": "Darwin", "win": "Windows"}[e["os"]], "machine": e["arch"],
                     "mac_ver": [f"{e['ver'][0]}.{e['ver'][1]}" + (".7" if e["ver"][1] else ""), "", e["arch"]] if e["os"] == "mac" else ["", "", ""]},
        "os": {"conf": {"CS_GNU_LIBC_VERSION": "glibc {}.{}".format(*floor(e, e["arch"]))} if linux and e["glibc"] else {}, "name": "nt" if e["os"] == "win" else "posix"}})


def expand(tag):
    return list(itertools.product(*(x.split(".") for x in tag)))


def rank(e, tag):
    """components as numbers, higher is more specific"""
    i, a, p = tag
    maj, minor = e["python"]
    order = [f"py{maj}{m}" for m in range(0, minor)] + [f"py{maj}", f"py{maj}{minor}"] + [f"cp{maj}{m}" for m in range(0, minor + 1)] + [f"pp{maj}{minor}"]
    ab = ["none", "abi3"] + abis(e)[::-1]
    pl = ["any"] + platforms(e)[::-1]
    legacy = {"manylinux2014_": "manylinux_2_17_", "manylinux2010_": "manylinux_2_12_", "manylinux1_": "manylinux_2_5_"}
    for k, v in legacy.items():
        p = p.replace(k, v)
    return order.index(i), ab.index(a), pl.index(p)


def comparable(e, a, b):
    """platforms of a kind (older and newer of one format); those of different kinds have no order a user relies on"""
    pa, pb = a[2], b[2]
    if "any" in (pa, pb) or pa == pb:
        return True
    if e["os"] == "mac":
        return pa.split("_", 3)[3] == pb.split("_", 3)[3]
    return pa.startswith("musl") == pb.startswith("musl") or "linux_" + e["arch"] in (pa, pb)


@CHECK.test("tags", scene(), quick=6000, thorough=100000)
def tags(case, t):
    e, ts = case
    intro = introspection(e, t)
    sup = supported(e)
    scores = []
    for tag in ts:
        s = intro.compatibility_score("-".join(tag))
        want = any(x in sup for x in expand(tag))
        t.label("supported" if want else "not supported")
        t.eq(s is not None, want, f"{'-'.join(tag)} is installable")
        scores.append(s)
    ok = [s is not None for s in scores]
    t.nontrivial(any(ok) and not all(ok))
    if all(ok) and all(len(expand(x)) == 1 for x in ts) and comparable(e, *ts):
        ra, rb = (rank(e, x) for x in ts)
        if ra != rb and all(x >= y for x, y in zip(ra, rb)):
            t.nontrivial()
            t.label("ranked")
            t.check(scores[0] > scores[1], lambda: f"{ts[0]} {scores[0]} does not outrank {ts[1]} {scores[1]}")
        elif ra != rb and all(x <= y for x, y in zip(ra, rb)):
            t.nontrivial()
            t.label("ranked")
            t.check(scores[0] < scores[1], lambda: f"{ts[1]} {scores[1]} does not outrank {ts[0]} {scores[0]}")


class P(AbstractPackage):
    def _retrieve_artifact(self, artifact):
        raise NotImplementedError


PYS = [None, None, None, ">=3.6", ">=3.9", "<3.10", ">=2.7,!=3.8.*", ">=3.13"]


@CHECK.test("choice among files", st.tuples(scene(4), st.lists(st.sampled_from(PYS), min_size=6, max_size=6), st.permutations(range(6)), st.integers(0, 2), st.integers(1, 4)), quick=4000, thorough=60000)
def choice(case, t):
    (e, ts), pys, perm, n_src, n_whl = case
    intro = introspection(e, t)
    sup = supported(e)
    version = ".".join(map(str, e["python"])) + ".4"
    en = SimpleNamespace(interpreter_version=Version.parse(version), compatibility_tag_score=intro.compatibility_score)
    files = [(f"foo-1.0-{'-'.join(x)}.whl" if i % 2 else f"foo-1.0-1-{'-'.join(x)}.whl", x) for i, x in enumerate(ts[:n_whl])] + [("foo-1.0.tar.gz", None), ("foo-1.0.zip", None)][:n_src]
    arts = [(f, x, pys[i]) for i, (f, x) in enumerate(files)]
    arts = [arts[i] for i in perm if i < len(arts)]
    p = P(PackageDescriptor("foo", Version.parse("1.0")), [PackageArtifact(f, VersionSpecifier.parse(s) if s else None) for f, _, s in arts])
    got = p.best_artifact_for(en)
    from packaging.specifiers import SpecifierSet
    usable = {f: x for f, x, s in arts if (not s or version in SpecifierSet(s)) and (x is None or any(y in sup for y in expand(x)))}
    wheels = {f: x for f, x in usable.items() if x}
    t.nontrivial(len(usable) not in (0, len(arts)) or len(wheels) > 1)
    t.eq(bool(p.is_compatible_with(en)), bool(usable), "is_compatible_with")
    if not usable:
        return t.eq(got, None, "artifact, though none is usable")
    t.check(got is not None and got.file_name in usable, lambda: f"chose {got}, usable: {sorted(usable)}")
    if not wheels:
        return
    t.check(got.file_name in wheels, lambda: f"chose {got.file_name} although {sorted(wheels)} are compatible")
    mine = wheels[got.file_name]
    for f, x in wheels.items():
        if len(expand(x)) == len(expand(mine)) == 1 and comparable(e, x, mine):
            a, b = rank(e, x), rank(e, mine)
            t.check(a == b or not all(i >= j for i, j in zip(a, b)), lambda: f"chose {got.file_name} although {f} is more specific")


def own_introspection(tier):
    return [0]


@CHECK.test("this interpreter", None, cases=own_introspection)
def own(case, t):
    from pathlib import Path
    import sys
    intro = EnvironmentIntrospection.compute(Path(sys.executable))
    sup = {f"{x.interpreter}-{x.abi}-{x.platform}" for x in ptags.sys_tags()}
    t.nontrivial()
    for x in sorted(sup):
        if x.endswith("-any") and not x.split("-")[1] == "none":
            continue
        t.check(intro.compatibility_score(x) is not None, f"{x} is not supported")
    vi = sys.version_info
    for x in (f"cp{vi[0]}{vi[1] + 1}-none-any", f"cp{vi[0]}{vi[1] + 1}-abi3-linux_x86_64", "cp27-cp27mu-linux_x86_64", f"cp{vi[0]}{vi[1]}-cp{vi[0]}{vi[1]}-win_amd64", "py2-none-any"):
        t.check(intro.compatibility_score(x) is None, f"{x} is supported")


STATES = ["absent", "stale", "cut", "empty", "no object", "no text", "read only", "read only and stale", "of another process", "of another interpreter"]


@CHECK.test("saved introspection", None, cases=lambda tier: [(s,) for s in STATES])
def saved_introspection(case, t):
    """an environment knows its interpreter whatever the file that remembers it looks like, and wherever it can not be written"""
    import subprocess
    import sys
    import warnings
    from pathlib import Path
    from pkm.api.environments.environment import Environment
    state, = case
    root = t.scratch() / "env"
    (root / "bin").mkdir(parents=True)
    (root / "bin/python").symlink_to(sys.executable)
    (root / "pyvenv.cfg").write_text(f"home = {Path(sys.executable).parent}\ninclude-system-site-packages = false\n")
    file = root / "etc/pkm/env_introspection.json"
    truth = EnvironmentIntrospection.compute(Path(sys.executable))
    if state in ("stale", "cut", "of another process", "of another interpreter"):
        code = f"import sys; sys.path[:0] = {sys.path!r}\nfrom pkm.api.environments.environment import Environment\nEnvironment(__import__('pathlib').Path({str(root)!r})).interpreter_version"
        subprocess.run([sys.executable, "-c", code], env={"PYTHONHASHSEED": "7", "PATH": "/usr/bin:/bin", "PYTHONDONTWRITEBYTECODE": "1", "HOME": str(t.scratch())}, check=True, stdin=subprocess.DEVNULL)
        t.check(file.exists(), "the introspection is not saved")
    if state == "cut":
        file.write_text(file.read_text()[:1000])
    elif state == "of another interpreter":
        root.rename(root.parent / "moved")
        root = root.parent / "moved"
    elif state != "of another process" and state != "absent":
        file.parent.mkdir(parents=True, exist_ok=True)
        file.write_bytes({"empty": b"", "no object": b"[1]", "no text": b"\xff\xfe"}.get(state, b'{"introspection": 1, "interpreter_version": [2, 7, 1]}'))
    if state.startswith("read only"):
        if state == "read only":
            file.unlink()
        for d in (file.parent, file.parent.parent, root):
            d.chmod(0o555)
        t.cleanup(lambda: [d.chmod(0o755) for d in (root, root / "etc", root / "etc/pkm")])
    t.nontrivial()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        env = Environment(root)
        t.eq(env.interpreter_version.release, tuple(sys.version_info[:3]), "interpreter version")
        t.eq(env.markers["python_full_version"], truth.compute_markers()["python_full_version"], "markers")
        for x in list(ptags.sys_tags())[:40:5]:
            t.eq(env.compatibility_tag_score(f"{x.interpreter}-{x.abi}-{x.platform}") is not None, truth.compatibility_score(f"{x.interpreter}-{x.abi}-{x.platform}") is not None, "tags")
        t.check(str(env.site_packages.purelib_path).startswith(str(root)), f"site packages of another environment: {env.site_packages.purelib_path}")
