"""Wheels described as plain data, installation targets in a scratch directory, and snapshots of directory trees."""
import base64
import csv
import hashlib
import io
import os
import stat
import sys
import zipfile
from pathlib import Path

from pkm.api.environments.environment import Environment
from pkm.api.environments.environment_introspection import EnvironmentIntrospection
from pkm.api.packages.package import PackageDescriptor
from pkm.api.packages.package_installation import PackageInstallationTarget
from pkm.api.versions.version import Version

INTERPRETER = Path(sys.executable)
_introspection = None


def environment(root: Path) -> Environment:
    """an environment object over a scratch directory; what is known about the interpreter is that of the running one"""
    global _introspection
    if _introspection is None:
        _introspection = EnvironmentIntrospection.compute(INTERPRETER)  # not through the environment of the interpreter: that one would be written to
    env = Environment(root, INTERPRETER)
    env._introspection = _introspection
    return env


LAYOUTS = {
    "venv": dict(purelib="lib/python3/site-packages", platlib="lib/python3/site-packages", include="include", data="", scripts="bin"),
    "split": dict(purelib="lib/python3/site-packages", platlib="lib64/python3/site-packages", include="include/python3", data="", scripts="bin"),
    "flat": dict(purelib="site", platlib="site", include="headers", data="share data", scripts="exe"),
    "dist": dict(purelib="lib/dist", platlib="lib/plat", include="include", data="local", scripts="local/bin"),
}


def target(root: Path, layout="venv", make=True) -> PackageInstallationTarget:
    paths = {k: str(root / v) for k, v in LAYOUTS[layout].items()}
    if make:
        for p in paths.values():
            Path(p).mkdir(parents=True, exist_ok=True)
    t = PackageInstallationTarget(environment(root), stdlib=str(root / "std"), platstdlib=str(root / "platstd"), platinclude=paths["include"], **paths)
    t.env.installation_target = t
    return t


def norm(name):
    import re
    return re.sub(r"[-_.]+", "_", name)


def digest(data: bytes, alg="sha256"):
    return f"{alg}=" + base64.urlsafe_b64encode(hashlib.new(alg, data).digest()).decode().rstrip("=")


def data_of(content) -> bytes:
    return content if isinstance(content, bytes) else content.encode("utf-8")


def dist_info_name(spec):
    return f"{norm(spec['name'])}-{spec['version']}.dist-info"


def metadata_text(spec):
    out = f"Metadata-Version: 2.1\nName: {spec['name']}\nVersion: {spec['version']}\n"
    for r in spec.get("requires", ()):
        out += f"Requires-Dist: {r}\n"
    for e in spec.get("extras", ()):
        out += f"Provides-Extra: {e}\n"
    return out + spec.get("metadata", "")


def members(spec):
    """the files of the wheel except RECORD: path -> bytes"""
    info = dist_info_name(spec)
    out = {p: data_of(c) for p, c in spec.get("files", {}).items()}
    for (key, p), c in spec.get("data", {}).items():
        out[f"{info[:-len('.dist-info')]}.data/{key}/{p}"] = data_of(c)
    out[f"{info}/METADATA"] = data_of(metadata_text(spec))
    out[f"{info}/WHEEL"] = data_of(spec.get("wheel") or f"Wheel-Version: 1.0\nGenerator: t (1)\nRoot-Is-Purelib: {spec.get('purelib', 'true')}\nTag: py3-none-any\n")
    for p, c in spec.get("info", {}).items():
        out[f"{info}/{p}"] = data_of(c)
    eps = spec.get("entry_points") or {}
    if eps:
        out[f"{info}/entry_points.txt"] = data_of("\n".join(f"[{g}]\n" + "".join(f"{n} = {r}\n" for n, r in group.items()) for g, group in eps.items()))
    return out


def record_text(content, record_path, alg="sha256", crlf=False):
    out = io.StringIO()
    w = csv.writer(out, lineterminator="\r\n" if crlf else "\n")
    for p, c in content.items():
        if not p.endswith((".dist-info/RECORD.jws", ".dist-info/RECORD.p7s")):
            w.writerow([p, digest(c, alg), len(c)])
    w.writerow([record_path, "", ""])
    return out.getvalue()


def write_wheel(directory: Path, spec, content=None, record=None, filename=None) -> Path:
    content = members(spec) if content is None else content
    record_path = f"{dist_info_name(spec)}/RECORD"
    if record is None:
        record = record_text(content, record_path, spec.get("alg", "sha256"), spec.get("crlf", False))
    path = directory / (filename or f"{norm(spec['name'])}-{spec['version']}-py3-none-any.whl")
    directory.mkdir(parents=True, exist_ok=True)
    with zipfile.ZipFile(path, "w") as z:
        for d in spec.get("dirs", ()):
            z.writestr(zipfile.ZipInfo(d + "/"), b"")
        for p, c in content.items():
            z.writestr(zipfile.ZipInfo(p), c)
        if record is not False:
            z.writestr(zipfile.ZipInfo(record_path), record)
    return path


def descriptor(spec):
    return PackageDescriptor(spec["name"], Version.parse(spec["version"]))


def snapshot(root: Path, pyc=True):
    """every file, directory and link under root"""
    out = {}
    for d, subdirs, names in os.walk(root):
        if not pyc and "__pycache__" in subdirs:
            subdirs.remove("__pycache__")
        for n in subdirs + names:
            p = Path(d, n)
            r = str(p.relative_to(root))
            if p.is_symlink():
                out[r] = ("link", os.readlink(p))
            elif p.is_dir():
                out[r] = ("dir",)
            else:
                out[r] = ("file", p.read_bytes(), stat.S_IMODE(p.stat().st_mode))
    return out


def difference(before, after):
    return "; ".join(f"{r}: expected {str(before.get(r))[:80]}, got {str(after.get(r))[:80]}" for r in sorted({*before, *after}) if before.get(r) != after.get(r))


def patched_script(data: bytes) -> bytes:
    if data.startswith(b"#!python"):
        _, nl, rest = data.partition(b"\n")
        return f"#!{INTERPRETER.absolute()}".encode() + b"\n" + rest
    return data


def read_record(path: Path):
    with path.open(newline="", encoding="utf-8") as f:
        return [row for row in csv.reader(f) if row]


BOOKKEEPING = {"RECORD", "INSTALLER", "REQUESTED", "INSTALLATION_MODE"}
