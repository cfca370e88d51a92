"""Source distributions with a small build backend of their own, described as plain data. The backend writes down every hook call in a log and can be told to fail."""
import gzip
import io
import json
import re
import tarfile
from pathlib import Path

BACKEND = r'''
import base64, hashlib, json, os, sys, zipfile

CFG = json.load(open("cfg.json"))


def _log(hook):
    with open(CFG["log"], "a") as f:
        f.write(json.dumps([CFG["name"], CFG["version"], CFG["token"], hook]) + "\n")


def _trouble(hook, directory):
    """what is wrong with this source, if anything: always, or only as long as the trouble file is there"""
    kind = CFG.get("trouble")
    if not kind or hook not in CFG["trouble_in"] or (CFG.get("heals") and not os.path.exists(CFG["heals"])):
        return None
    if kind == "partial":
        with open(os.path.join(directory, _wheel_name()), "wb") as f:
            f.write(b"not all of it")
        raise RuntimeError("failed in the middle")
    if kind == "raise":
        raise RuntimeError("does not build")
    if kind == "exit":
        os._exit(3)
    if kind == "absent":
        return "nothing-1-py3-none-any.whl"
    raise AssertionError(kind)


def _info():
    return CFG["file_name"] + ".dist-info"


def _wheel_name():
    return CFG["file_name"] + "-py3-none-any.whl"


def _metadata():
    return "Metadata-Version: 2.1\nName: %s\nVersion: %s\nSummary: %s\n" % (CFG["name"], CFG["version"], CFG["token"]) + "".join("Requires-Dist: %s\n" % r for r in CFG["requires_dist"])


def _imports():
    for m in CFG["imports"]:
        __import__(m)


def get_requires_for_build_wheel(config_settings=None):
    return CFG["late_requires"]


def _prepare(directory, config_settings=None):
    _log("metadata")
    _imports()
    if (bad := _trouble("metadata", directory)) is not None:
        return bad
    d = os.path.join(directory, _info())
    os.makedirs(d)
    with open(os.path.join(d, "METADATA"), "w") as f:
        f.write(_metadata())
    with open(os.path.join(d, "WHEEL"), "w") as f:
        f.write("Wheel-Version: 1.0\nGenerator: t (1)\nRoot-Is-Purelib: true\nTag: py3-none-any\n")
    return _info()


if CFG["meta_hook"]:
    prepare_metadata_for_build_wheel = _prepare


def build_wheel(directory, config_settings=None, metadata_directory=None):
    _log("wheel")
    _imports()
    if (bad := _trouble("wheel", directory)) is not None:
        return bad
    with zipfile.ZipFile(os.path.join(directory, _wheel_name()), "w") as z:
        rec = ""
        for n, c in {CFG["module"] + ".py": "TOKEN = %r\n" % CFG["token"], _info() + "/METADATA": _metadata(),
                     _info() + "/WHEEL": "Wheel-Version: 1.0\nGenerator: t (1)\nRoot-Is-Purelib: true\nTag: py3-none-any\n"}.items():
            z.writestr(n, c)
            h = base64.urlsafe_b64encode(hashlib.sha256(c.encode()).digest()).decode().rstrip("=")
            rec += "%s,sha256=%s,%d\n" % (n, h, len(c.encode()))
        z.writestr(_info() + "/RECORD", rec + _info() + "/RECORD,,\n")
    return _wheel_name()
'''


def write_sdist(directory: Path, cfg: dict, requires=(), filename=None) -> Path:
    """cfg: name, version, token (what the wheel has in it), log, [trouble, trouble_in, heals], meta_hook, requires_dist, imports, late_requires"""
    esc = lambda s: re.sub("[-_.]+", "_", s)
    cfg = {"requires_dist": [], "imports": [], "late_requires": [], "meta_hook": True, "module": esc(cfg["name"]).lower(), "file_name": f"{esc(cfg['name'])}-{cfg['version']}", **cfg}
    top = f"{esc(cfg['name'])}-{cfg['version']}"
    pyproject = (f"[project]\nname = {json.dumps(cfg['name'])}\nversion = {json.dumps(cfg['version'])}\n"
                 f"[build-system]\nrequires = {json.dumps(list(requires))}\nbuild-backend = \"bk\"\nbackend-path = [\".\"]\n")
    raw = io.BytesIO()
    with tarfile.open(fileobj=raw, mode="w") as tar:
        for name, text in {"pyproject.toml": pyproject, "bk.py": BACKEND, "cfg.json": json.dumps(cfg), "PKG-INFO": f"Metadata-Version: 2.1\nName: {cfg['name']}\nVersion: {cfg['version']}\n"}.items():
            ti = tarfile.TarInfo(f"{top}/{name}")
            ti.size = len(data := text.encode())
            tar.addfile(ti, io.BytesIO(data))
    directory.mkdir(parents=True, exist_ok=True)
    path = directory / (filename or f"{top}.tar.gz")
    path.write_bytes(gzip.compress(raw.getvalue(), mtime=0))
    return path
