"""Pretends to be another python version: run as `python fakepython.py VERSION EXECUTABLE [-c code | script]` by the fake interpreters of C49."""
import hashlib, json, importlib.machinery, site, struct  # noqa: loaded before the changes below
import os
import platform
import re
import sys
import sysconfig

version, executable, rest = sys.argv[1], sys.argv[2], sys.argv[3:]
release = [int(x) for x in re.match(r"\d+(\.\d+)*", version)[0].split(".")] + [0, 0]
pre = re.search(r"(a|b|rc)(\d+)", version)
info = (*release[:3], {"a": "alpha", "b": "beta", "rc": "candidate"}[pre[1]] if pre else "final", int(pre[2]) if pre else 0)
short = f"{info[0]}.{info[1]}"
sys.executable = executable
sys.version_info = info
platform.python_version = lambda: version
platform.python_version_tuple = lambda: tuple(str(x) for x in info[:3])
prefix = os.path.dirname(os.path.dirname(executable))
if not os.path.exists(os.path.join(prefix, "pyvenv.cfg")):
    prefix = os.path.dirname(os.path.realpath(executable))
sys.prefix = sys.exec_prefix = prefix
sysconfig._PREFIX = sysconfig._EXEC_PREFIX = prefix
sysconfig._PY_VERSION, sysconfig._PY_VERSION_SHORT, sysconfig._PY_VERSION_SHORT_NO_DOT = version, short, short.replace(".", "")
sysconfig._CONFIG_VARS = None
sysconfig._CONFIG_VARS_INITIALIZED = False
sysconfig.get_default_scheme = lambda: "venv"
sysconfig.get_paths = (lambda f: lambda scheme="venv", *a, **k: f(scheme, *a, **k))(sysconfig.get_paths)


class Implementation:
    name = "cpython"
    version = info
    cache_tag = sys.implementation.cache_tag
    _multiarch = getattr(sys.implementation, "_multiarch", "")


sys.implementation = Implementation
if rest[0] == "-c":
    exec(rest[1])
else:
    exec(compile(open(rest[0]).read(), rest[0], "exec"), {"__name__": "__main__"})
