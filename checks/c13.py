"""C13: failed installations. Oracle: a snapshot of the whole target tree before the attempt. Every change that the installation makes on the disk is made
to fail in turn, for generated wheels and generated previous content of the target."""
import contextlib
import importlib
import io
import os
import tempfile
import warnings
from pathlib import Path

from hypothesis import strategies as st

import wheelkit as wk
from faults import fault_at
from vlib import Check
from pkm.api.dependencies.dependency import Dependency
from pkm.api.distributions.wheel_distribution import WheelDistribution

c12 = importlib.import_module("checks.c12")

CHECK = Check("C13", "generated wheels installed over generated previous content, with every single change on the disk failing in turn, and with damaged or "
                     "conflicting content; non-trivial = the attempt failed after it had made at least one change in the target", workers=6)

previous = st.lists(st.tuples(st.sampled_from(["same", "same", "under", "sibling", "pyc", "script", "dist-info"]), st.integers(0, 20), st.sampled_from(["file", "file", "file", "dir", "link", "full dir"])), max_size=4)


def occupy(root, want, prior, s, layout):
    """content that was there before the installation, often where the wheel has its files"""
    names = sorted(want)
    info = wk.dist_info_name(s)
    lay = wk.LAYOUTS[layout]
    for where, i, kind in prior:
        p = names[i % len(names)]
        if where == "under":
            p = p.rsplit("/", 1)[0] if i % 2 else p + "/x"
        elif where == "sibling":
            p = os.path.join(os.path.dirname(p), "other.py")
        elif where == "pyc":
            p = os.path.join(os.path.dirname(p), "__pycache__", Path(p).stem + ".cpython-312.pyc")
        elif where == "script":
            p = f"{lay['scripts']}/cmd"
        elif where == "dist-info":
            p = f"{lay['purelib']}/{info}/" + ["RECORD", "INSTALLER", "REQUESTED", "METADATA", "old"][i % 5]
        p = root / os.path.normpath(p)
        try:
            p.parent.mkdir(parents=True, exist_ok=True)
            if os.path.lexists(p):
                continue
            if kind == "dir":
                p.mkdir()
            elif kind == "full dir":
                p.mkdir()
                (p / "inner").write_text("inner")
            elif kind == "link":
                p.symlink_to(root / "linked")
            else:
                p.write_text("previous\n")
                if i % 3 == 0:
                    p.chmod(0o640)
        except OSError:
            continue


def attempt(root, s, layout, wheel, request, n, exc=None):
    target = wk.target(root, layout, make=False)
    failure = None
    with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with fault_at(root, n, exc) as f:
            try:
                WheelDistribution(wk.descriptor(s), wheel).install_to(target, request)
            except (Exception, KeyboardInterrupt) as e:
                failure = e
    return failure, f


@CHECK.test("faults", st.tuples(c12.specs(), st.sampled_from(sorted(wk.LAYOUTS)), previous, st.booleans(), st.one_of(st.integers(1, 12), st.integers(1, 60)), st.sampled_from(["os", "os", "interrupt"])).filter(lambda c: c12.valid(c[0], c[1])),
            quick=1500, thorough=30000)
def check_faults(case, t):
    s, layout, prior, requested, n, kind = case
    scratch = t.scratch()
    root = scratch / "root"
    wk.target(root, layout, make=n % 2 == 0)
    root.mkdir(exist_ok=True)
    want = c12.expected(s, layout)
    occupy(root, want, prior, s, layout)
    temp = scratch / "temp"
    temp.mkdir()
    old = tempfile.tempdir
    tempfile.tempdir = str(temp)
    t.cleanup(lambda: setattr(tempfile, "tempdir", old))
    wheel = wk.write_wheel(scratch / "dist", s)
    request = Dependency.parse(s["name"]) if requested else None
    before = wk.snapshot(root)
    listed = sorted(str(p.descriptor) for p in wk.target(root, layout, make=False).site_packages.installed_packages()) if not prior else None

    failure, f = attempt(root, s, layout, wheel, request, n, KeyboardInterrupt if kind == "interrupt" else None)
    after = wk.snapshot(root)
    t.eq([p.name for p in temp.iterdir()], [], f"after {failure!r}, with the fault {f.hit}, temporary files left behind")
    if failure is None:
        t.label("succeeded" if f.hit is None else "survived a fault")
        for p, c in want.items():
            t.check(after.get(p, ("", b""))[0] == "file" and (c is None or after[p][1] == c), f"after an installation that succeeded with the fault {f.hit}, {p} is {str(after.get(p))[:80]}", key="survived")
        return
    t.label("fault" if f.hit else "conflict")
    t.nontrivial(f.seen > 1)
    t.check(after == before, f"the installation failed ({failure!r}), {wk.difference(before, after)}", key="changed")
    if listed is not None:
        t.eq(sorted(str(p.descriptor) for p in wk.target(root, layout, make=False).site_packages.installed_packages()), listed, "the installed packages after a failed installation")


@CHECK.test("damaged", st.tuples(c12.specs(), st.sampled_from(["cut", "flip", "empty", "garbage", "missing", "not zip"]), st.floats(0, 1), st.integers(1, 255)).filter(lambda c: c12.valid(c[0], "venv")), quick=600, thorough=12000)
def check_damaged(case, t):
    """damaged archives: either refused with nothing changed, or the content is still right"""
    s, kind, at, flip = case
    scratch = t.scratch()
    root = scratch / "root"
    wk.target(root)
    wheel = wk.write_wheel(scratch / "dist", s)
    data = bytearray(wheel.read_bytes())
    i = min(int(at * len(data)), len(data) - 1)
    if kind == "cut":
        data = data[:i]
    elif kind == "flip":
        data[i] ^= flip
    elif kind == "empty":
        data = b""
    elif kind == "garbage":
        data = bytes(x ^ flip for x in data)
    elif kind == "not zip":
        data = b"PK\x03\x04" + bytes(data[10:i])
    wheel.write_bytes(data)
    if kind == "missing":
        wheel.unlink()
    before = wk.snapshot(root)
    failure, f = attempt(root, s, "venv", wheel, None, None)
    after = wk.snapshot(root)
    t.label(kind if failure else "unharmed")
    t.nontrivial(failure is not None)
    if failure:
        t.check(after == before, f"the installation of a damaged wheel failed ({failure!r}), {wk.difference(before, after)}", key="changed")
    else:
        t.check(kind == "flip", f"a wheel that is {kind} was installed", key="accepted")
        info = wk.dist_info_name(s)
        for p, c in c12.expected(s, "venv").items():
            if c is not None and f"/{info}/" not in p:
                t.check(after.get(p, ("",))[0] == "file" and after[p][1] == c, f"a damaged wheel was installed with a wrong {p}", key="accepted")
