"""C19: configuration files and typed settings. Oracle: the value that was saved (round trip), and independent readers of each format (json, csv, email headers, CPython's pyvenv.cfg reader, importlib.metadata)."""
import copy
import csv
import email.parser
import enum
import importlib.metadata
import json
import pickle
from dataclasses import dataclass
from pathlib import Path
from typing import Any, Dict, List, Mapping

from hypothesis import strategies as st

from vlib import Check
import gen
from pkm.api.dependencies.dependency import Dependency
from pkm.api.distributions.distinfo import EntrypointsConfiguration, WheelFileConfiguration
from pkm.api.environments.environment_builder import PyVEnvConfiguration
from pkm.api.packages.package import PackageDescriptor
from pkm.api.packages.package_installation_info import StoreMode
from pkm.api.versions.version import Version
from pkm.api.versions.version_specifiers import VersionSpecifier
from pkm.config import toml
from pkm.config.configclass import ConfigFile, config, config_field
from pkm.config.configfiles import CSVConfigIO, INIConfigIO, JsonConfigIO, TomlConfigIO, WheelFileConfigIO

CHECK = Check("C19", "values and typed configuration classes (random field types, keys, defaults, nesting, leftover fields) times file kinds, plus hand-written file texts read by another reader; "
                     "non-trivial = more than one entry, or a value with a character that means something to the format", workers=6)

word = st.text("abcXYZ019_-.", min_size=1, max_size=6).filter(lambda s: s.strip(".-") == s and s != "DEFAULT")
special = st.sampled_from(["a:b", "a: b", "=", "a = b", "#x", "a #b", ";x", "%s", "%(x)s", "${x}", "[x]", "x]", '"q"', "'", "a,b", "é ü", "日本", "a\tb", "true", "False", "1", "1.0", "", "C:\\dir", "http://h:80/p?q=1", "a b", "\\", "a\\nb"])
line = st.one_of(word, special)  # texts of one line without outer blanks
anytext = st.one_of(line, st.sampled_from(["a\nb", " x ", "\r", "a\r\nb", '"', '""', "\n", "x\n\n\ny", "\\u0041", "\x7f", "\u2028", "x\x0cy"]), st.text(max_size=6).filter(lambda s: "\0" not in s and s.encode("utf-8", "ignore").decode() == s))


def is_special(x):
    return any(c in str(x) for c in ':=#;%[]"\',\n\r\\')


# ------------------------------------------------------------------ raw values

json_value = st.recursive(st.one_of(st.none(), st.booleans(), st.integers(-10**20, 10**20), st.floats(allow_nan=False), anytext),
                          lambda c: st.one_of(st.lists(c, max_size=3), st.dictionaries(anytext, c, max_size=3)), max_leaves=8)


@CHECK.test("json", st.dictionaries(anytext, json_value, max_size=4), quick=600, thorough=10000)
def check_json(case, t):
    f = t.scratch() / "f.json"
    JsonConfigIO().write(f, case)
    t.nontrivial(len(case) > 1 or is_special(case))
    t.eq(JsonConfigIO().read(f), case, "the value read back", key="json")
    t.eq(json.loads(f.read_text("utf-8")), case, "the value another reader finds", key="json")
    f.write_text(json.dumps(case, ensure_ascii=False, indent=2), "utf-8")
    t.eq(JsonConfigIO().read(f), case, "the value of a file written by another program", key="json")


ini_key = st.one_of(word, st.sampled_from(["a:b", "Upper", "a b", "é", "a.b-c", "a#b", "a;b", "a[b]", "x y  z", "%x"]))
ini_section = st.one_of(word, st.sampled_from(["pkm.commands", "gui_scripts", "console_scripts", "a b", "a:b", "é", "A", "a"]))


@CHECK.test("ini", st.dictionaries(ini_section, st.dictionaries(ini_key, line, max_size=3), max_size=3), quick=800, thorough=10000)
def check_ini(case, t):
    f = t.scratch() / "f.ini"
    before = copy.deepcopy(case)
    INIConfigIO().write(f, case)
    t.eq(case, before, "the value after it was saved", key="mutated")
    t.nontrivial(len(case) > 1 or is_special(case))
    t.eq(INIConfigIO().read(f), case, "the value read back", key="ini")
    INIConfigIO().write(f, INIConfigIO().read(f))
    t.eq(INIConfigIO().read(f), case, "the value read back after another save", key="ini")


ep_line = st.one_of(st.just(""), st.just("# a comment"), st.just("; a comment"),
                    st.tuples(word, st.sampled_from(["=", " = ", "= ", "  =   "]), st.sampled_from(["m:f", "a.b:c.d", "m", "m:f [x]", "m:f [x,y]", "m : f"])).map("".join))


@CHECK.test("entry point files", st.lists(st.tuples(ini_section.filter(lambda s: ":" not in s), st.lists(ep_line, max_size=4), st.sampled_from(["[{}]", "[{}]\n", " [{}]"])), max_size=3, unique_by=lambda s: s[0]),
            quick=600, thorough=8000)
def check_ep(case, t):
    text = ""
    for section, lines, head in case:
        names = [x.split("=")[0].strip() for x in lines if "=" in x]
        if len(set(names)) < len(names):
            return
        text += head.strip(" ").format(section) + "\n" + "".join(x + "\n" for x in lines)
    f = t.scratch() / "entry_points.txt"
    f.write_text(text, "utf-8")
    want = {}
    for e in importlib.metadata.EntryPoints._from_text("".join(x for x in text.splitlines(True) if not x.startswith(";"))):
        want.setdefault(e.group, {})[e.name] = e.value
    got = {k: v for k, v in INIConfigIO().read(f).items() if v}
    t.nontrivial(len(want) > 0)
    t.eq(got, want, f"the entries of {text!r}", key="entry points file")
    eps = EntrypointsConfiguration.load(f)
    t.eq({(e.group, e.name) for e in eps.entrypoints}, {(g, n) for g in want for n in want[g]}, "the loaded entry points", key="entry points file")


csv_rows = st.lists(st.lists(anytext.filter(lambda s: "\0" not in s), min_size=3, max_size=3), max_size=4)


@CHECK.test("csv", csv_rows, quick=800, thorough=10000)
def check_csv(case, t):
    f = t.scratch() / "f.csv"
    io = CSVConfigIO("x", "y", "z")
    records = [dict(zip("xyz", r)) for r in case]
    io.write(f, {"records": [{k: v for k, v in r.items() if v or i % 2} for i, r in enumerate(records)]})
    t.nontrivial(len(case) > 1 or is_special(case))
    t.eq(io.read(f), {"records": records}, "the records read back", key="csv")
    with f.open(newline="", encoding="utf-8") as fd:
        t.eq([r for r in csv.reader(fd)], case, "the rows another reader finds", key="csv")
    # rows by another writer: fewer columns, line ends, blank lines at the end
    for end in ("\n", "\r\n"):
        with f.open("w", newline="", encoding="utf-8") as fd:
            csv.writer(fd, lineterminator=end).writerows(case)
        t.eq(io.read(f), {"records": records}, "the records of a file written by another program", key="csv")


header_key = st.one_of(st.text("abcXYZ019_-", min_size=1, max_size=8), st.sampled_from(["Tag", "Build", "Root-Is-Purelib"]))
header_value = line.filter(lambda s: s)


@CHECK.test("wheel header", st.tuples(st.dictionaries(header_key, header_value, max_size=4), st.sampled_from([": ", ":", ":  ", " : ", ":\t"]), st.sampled_from(["\n", "\r\n"]), st.booleans()), quick=800, thorough=10000)
def check_wheel(case, t):
    data, delim, end, blank = case
    f = t.scratch() / "WHEEL"
    io = WheelFileConfigIO()
    io.write(f, data)
    t.nontrivial(len(data) > 1 or is_special(list(data.values())))
    t.eq(io.read(f), data, "the value read back", key="wheel")
    t.eq(dict(email.parser.HeaderParser().parsestr(f.read_text("utf-8")).items()), data, "the value another reader finds", key="wheel")
    f.write_bytes("".join(f"{k}{delim}{v}{end}" for k, v in data.items()).encode() + (end.encode() if blank else b""))
    t.eq(io.read(f), data, "the value of a file written by another program", key="wheel")


@CHECK.test("wheel file", st.tuples(st.sampled_from(["1.0", "1.9", "1.0.1"]), line.filter(lambda s: s), st.booleans(), st.dictionaries(header_key, header_value, max_size=3), st.integers(0, 2)), quick=300, thorough=3000)
def check_wheelfile(case, t):
    version, generator, pure, rest, tags = case
    rest = {k: v for k, v in rest.items() if k not in ("Wheel-Version", "Generator", "Root-Is-Purelib", "Tag")}
    f = t.scratch() / "WHEEL"
    f.write_text(f"Wheel-Version: {version}\nGenerator: {generator}\nRoot-Is-Purelib: {str(pure).lower()}\n" + "".join(f"Tag: py3-none-p{i}\n" for i in range(tags)) + "".join(f"{k}: {v}\n" for k, v in rest.items()), "utf-8")
    t.nontrivial(tags > 1 or is_special(generator) or is_special(rest))
    w = WheelFileConfiguration.load(f)
    t.eq((str(w.version), w.generator, w.root_is_purelib), (version, generator, pure), "the settings of the wheel file", key="wheel file")
    w.generator = "me: 1.0"
    w.save()
    w = WheelFileConfiguration.load(f)
    t.eq((str(w.version), w.generator, w.root_is_purelib), (version, "me: 1.0", pure), "the settings of the saved wheel file", key="wheel file")
    got = dict(email.parser.HeaderParser().parsestr(f.read_text("utf-8")).items())
    t.eq({k: got.get(k) for k in rest}, rest, "the fields that this program does not know, after a save", key="unknown fields")


# how the interpreter itself reads pyvenv.cfg (Lib/site.py and Modules/getpath.py)
def cpython_pyvenv(text):
    out = {}
    for x in text.splitlines():
        if "=" in x:
            k, _, v = x.partition("=")
            out[k.strip().lower()] = v.strip()
    return out


@CHECK.test("pyvenv.cfg", st.tuples(st.sampled_from(["/usr/bin", "/opt/my python/bin", "/x=y/bin", "/c:d/bin"]), st.sampled_from(["3.8.1", "3.12.3", "3.13.0rc1"]), st.booleans(),
                                     st.dictionaries(st.sampled_from(["executable", "command", "prompt", "uv"]), st.sampled_from(["/usr/bin/python3 -m venv /x", "'a'", "0.1", "a=b", "x: y"]), max_size=3),
                                     st.sampled_from([" = ", "=", "= "])), quick=300, thorough=3000)
def check_pyvenv(case, t):
    home, version, system, rest, delim = case
    f = t.scratch() / "pyvenv.cfg"
    t.nontrivial(True)
    c = PyVEnvConfiguration.load(f)
    c.home, c.version, c.include_system_site_packages = Path(home), Version.parse(version), system
    c.save()
    want = {"home": home, "version": version, "include-system-site-packages": str(system).lower()}
    t.eq(cpython_pyvenv(f.read_text("utf-8")), want, "what the interpreter reads", key="pyvenv")
    # a file made by the venv module
    f.write_text("".join(f"{k}{delim}{v}\n" for k, v in {**want, **rest}.items()), "utf-8")
    c = PyVEnvConfiguration.load(f)
    t.eq((c.home, str(c.version), c.include_system_site_packages), (Path(home), version, system), "the settings of a file of the venv module", key="pyvenv")
    c.include_system_site_packages = not system
    c.save()
    t.eq(cpython_pyvenv(f.read_text("utf-8")), {**want, **rest, "include-system-site-packages": str(not system).lower()}, "what the interpreter reads after a change", key="pyvenv")


# ------------------------------------------------------------------ typed configurations

class Color(enum.Enum):
    RED = "r"
    Green = 2
    RED_ISH = "red"


SCALARS = {
    "str": (str, anytext, lambda x: x), "int": (int, st.integers(-10**9, 10**9), lambda x: x), "bool": (bool, st.booleans(), lambda x: x),
    "path": (Path, st.sampled_from(["a", "/a/b", "../x", "a b/c:d", "."]), Path),
    "version": (Version, st.sampled_from(["1.0", "1!2.0rc1.post2.dev3+l.1", "0", "some-legacy"]), Version.parse),
    "spec": (VersionSpecifier, st.sampled_from([">=1.0", "<2,>=1", "==1.*", "!=1.0", "*", "~=1.4.2", "===x"]), VersionSpecifier.parse),
    "dep": (Dependency, st.sampled_from(["a", "a >=1.0", "a[x,y] <2.0 ; python_version >= '3.8'", "a @ https://h/x-1.0.zip"]), Dependency.parse),
    "enum": (Color, st.sampled_from(["RED", "Green", "RED_ISH"]), lambda x: Color[x]),
    "mode": (StoreMode, st.sampled_from(["COPY", "AUTO", "EDITABLE"]), lambda x: StoreMode[x]),
    "pkg": (PackageDescriptor, st.tuples(st.sampled_from(["a", "my-pkg", "ab.c", "x1"]), st.sampled_from(["1.0", "2.0.dev1"])), lambda x: PackageDescriptor(x[0], Version.parse(x[1]))),
}


@dataclass(eq=True)
@config
class Nested:
    name: str
    path: Path = None
    flags: List[bool] = config_field(default_factory=list)
    rest: Dict[str, Any] = config_field(leftover=True)


SCALARS_FOR = {"toml": list(SCALARS), "json": list(SCALARS), "wheel": ["str", "int", "bool", "path", "version", "spec", "enum", "mode"], "csv": ["str", "int", "bool", "path", "version", "spec", "enum"]}


@st.composite
def typed_case(draw):
    io = draw(st.sampled_from(["toml", "toml", "json", "wheel", "csv"]))
    fields = []
    for i in range(draw(st.integers(1, 4))):
        kind = draw(st.sampled_from(SCALARS_FOR[io]))
        shape = draw(st.sampled_from(["one", "one", "list", "dict", "nested", "list nested", "dict nested"])) if io in ("toml", "json") else "one"
        val = SCALARS[kind][1]
        if io == "wheel" and kind == "str":
            val = header_value
        keys = draw(st.sampled_from(["plain", "plain", "key", "dotted"])) if io in ("toml", "json") else draw(st.sampled_from(["plain", "key"])) if io == "wheel" else "plain"
        key = {"plain": None, "key": f"The-Key-{i}", "dotted": draw(st.sampled_from([f"group.k{i}", f"a.b.k{i}", f"a.k{i}"]))}[keys]
        nested = st.tuples(anytext, st.sampled_from([None, "x", "/y"]), st.lists(st.booleans(), max_size=2), st.dictionaries(st.sampled_from(["u1", "u 2"]), st.sampled_from(["x", 1, True, [1], {"d": 1}]), max_size=2))
        values = {"one": val, "list": st.lists(val, max_size=3), "dict": st.dictionaries(line.filter(lambda s: s), val, max_size=3), "nested": nested, "list nested": st.lists(nested, max_size=2),
                  "dict nested": st.dictionaries(word, nested, max_size=2)}[shape]
        need = draw(st.sampled_from(["optional", "optional", "required", "default", "factory"]))
        value = draw(st.one_of(values, values, st.just("absent"))) if need != "required" and (io != "csv" or kind in ("str", "int", "path")) else draw(values)
        fields.append((kind, shape, key, need, value, draw(values)))
    leftover = draw(st.booleans())
    unknown = {}
    if leftover and io in ("toml", "json"):
        unknown = draw(st.dictionaries(st.sampled_from(["zz", "other", "a.q", "group.q", "b c", "n.m"]), st.sampled_from(["x", 1, True, [1, 2], {"d": {"e": 1}}, {}]), max_size=3))
    elif leftover and io == "wheel":
        unknown = draw(st.dictionaries(st.sampled_from(["Tag", "Build", "X-y"]), header_value, max_size=2))
    rows = draw(st.integers(0, 3)) if io == "csv" else 0
    return io, tuple(fields), leftover, unknown, rows


def py(kind, shape, v):
    make = SCALARS[kind][2]
    if v == "absent":
        return None
    n = lambda x: _nested(x)
    return {"one": lambda: make(v), "list": lambda: [make(x) for x in v], "dict": lambda: {k: make(x) for k, x in v.items()}, "nested": lambda: n(v), "list nested": lambda: [n(x) for x in v],
            "dict nested": lambda: {k: n(x) for k, x in v.items()}}[shape]()


def _nested(x):
    r = Nested(x[0], x[1] and Path(x[1]), list(x[2]))
    r.rest = copy.deepcopy(x[3])
    return r


def type_of(kind, shape):
    T = SCALARS[kind][0]
    return {"one": T, "list": List[T], "dict": Dict[str, T], "nested": Nested, "list nested": List[Nested], "dict nested": Dict[str, Nested]}[shape]


def build_class(io, fields, leftover):
    ann, ns = {}, {}
    for i, (kind, shape, key, need, value, other) in enumerate(fields):
        ann[f"f{i}"] = type_of(kind, shape)
        kw = dict(key=key)
        if need == "required":
            kw["required"] = True
        elif need == "default":
            kw["default"] = py(kind, shape, other)
        elif need == "factory":
            kw["default_factory"] = lambda k=kind, s=shape, o=other: py(k, s, o)
        ns[f"f{i}"] = config_field(**kw)
    if leftover:
        ann["more"] = Dict[str, Any]
        ns["more"] = config_field(leftover=True)
    return type("Typed", (ConfigFile,), {**ns, "__annotations__": ann, "__module__": __name__}), io


def nest(unknown):
    out = {}
    for k, v in unknown.items():
        where = out
        *tables, last = k.split(".")
        for x in tables:
            where = where.setdefault(x, {})
        where[last] = copy.deepcopy(v)
    return out


def same(a, b):
    if isinstance(a, Nested) and isinstance(b, Nested):
        return (a.name, a.path, a.flags, a.rest or {}) == (b.name, b.path, b.flags, b.rest or {})
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(map(same, a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, Dependency):
        return str(a) == str(b)
    return type(a) is type(b) and a == b if isinstance(a, (bool, int, str)) else a == b


@CHECK.test("typed settings", typed_case(), quick=1500, thorough=25000)
def check_typed(case, t):
    io_name, fields, leftover, unknown, rows = case
    d = t.scratch()
    f = d / "sub" / "config"
    cls, _ = build_class(io_name, fields, leftover)
    values = [py(k, s, v) for k, s, _, _, v, _ in fields]
    expected = [v if v is not None else py(k, s, o) if need in ("default", "factory") else None for (k, s, _, need, _, o), v in zip(fields, values)]
    t.nontrivial(len(fields) > 1 or is_special(fields))
    t.label(io_name)
    if io_name == "csv":
        row = config(cls)
        table = type("Table", (ConfigFile,), {"__annotations__": {"records": List[row]}, "records": config_field(default_factory=list), "__module__": __name__})
        table = config(table, io=CSVConfigIO(*[f"f{i}" for i in range(len(fields))]))
        o = table()
        o.records = []
        for i in range(rows):
            r = row()
            for n, v in enumerate(values):
                setattr(r, f"f{n}", v)
            if leftover:
                r.more = {}
            o.records.append(r)
        o.save(f)
        back = table.load(f)
        t.eq(len(back.records), rows, "the number of records", key="csv records")
        for r in back.records:
            for n, v in enumerate(values):
                g = getattr(r, f"f{n}")
                want = v
                if v is None or v == "":
                    t.check(g in (None, "") or same(g, expected[n]), f"the field {fields[n]} is {g!r} after the round trip", key="typed csv")
                else:
                    t.check(same(g, want), f"the field {fields[n]} is {g!r} after the round trip", key="typed csv")
        return
    io = {"toml": TomlConfigIO, "json": JsonConfigIO, "wheel": WheelFileConfigIO}[io_name]()
    cls = config(cls, io=io)
    o = cls()
    for n, v in enumerate(values):
        setattr(o, f"f{n}", v)
    if leftover:
        o.more = nest(unknown)

    def verify(back, what):
        for n, v in enumerate(expected):
            g = getattr(back, f"f{n}")
            t.check(same(g, v), f"{what}, the field {n} {fields[n]} is {g!r} instead of {v!r}", key="typed")

    def rest(back, what):
        if leftover and unknown:
            got = {k: v for k, v in (back.to_config()).items()}
            for k, v in unknown.items():
                g = got
                for x in k.split("."):
                    g = g.get(x) if isinstance(g, Mapping) else None
                t.check(g == v, f"{what}, the unknown setting {k} is {g!r} instead of {v!r}", key="unknown")

    o.save(f)
    text = f.read_bytes()
    back = cls.load(f)
    t.eq(back.path, f, "the path", key="path")
    verify(back, "after a round trip")
    rest(back, "after a round trip")
    back.save()
    again = cls.load(f)
    verify(again, "after a second save")
    rest(again, "after a second save")
    # the raw configuration, without a file, is not consumed
    raw = o.to_config()
    kept = copy.deepcopy(raw)
    parsed = cls.from_config(copy.deepcopy(raw), f)
    verify(parsed, "built from its raw form")
    t.eq(o.to_config(), kept, "the raw form asked for again", key="raw")
    # changing one setting keeps the others
    n = len(text) % len(fields)
    kind, shape, key, need, value, other = fields[n]
    setattr(again, f"f{n}", py(kind, shape, other))
    again.save()
    changed = cls.load(f)
    for m, v in enumerate(expected):
        g = getattr(changed, f"f{m}")
        v = py(kind, shape, other) if m == n else v
        t.check(same(g, v), f"after a change of field {n}, the field {m} {fields[m]} is {g!r} instead of {v!r}", key="typed edit")
    rest(changed, "after a change of another setting")
    back.reload()
    for m, v in enumerate(expected):
        v = py(kind, shape, other) if m == n else v
        t.check(same(getattr(back, f"f{m}"), v), f"reloaded, the field {m} {fields[m]} is {getattr(back, f'f{m}')!r} instead of {v!r}", key="reload")
    # a missing file means the defaults, unless a setting is required
    required = any(x[3] == "required" for x in fields)
    try:
        empty = cls.load(d / "missing")
        t.check(not required, "a required setting is missing, and nothing is reported", key="required")
        for m, (k, s, _, need_, _, o_) in enumerate(fields):
            w = py(k, s, o_) if need_ in ("default", "factory") else None
            t.check(same(getattr(empty, f"f{m}"), w), f"without a file, the field {m} {fields[m]} is {getattr(empty, f'f{m}')!r}", key="defaults")
    except ValueError as e:
        t.check(required, f"settings without a required field cannot be missing: {e}", key="required")


WRONG = {"version": [1, True, []], "spec": [1, {}], "dep": ["a >=", "", 1], "enum": ["red", "GREEN", "", 0], "list": [1, True], "dict": ["x", [1]], "nested": ["x", 3]}


class Strict(ConfigFile):
    version: Version
    spec: VersionSpecifier
    dep: Dependency
    enum: Color
    list: List[Version]
    dict: Dict[str, str]
    nested: Nested


Strict = config(Strict, io=JsonConfigIO())


@CHECK.test("wrong types", st.sampled_from([(k, w) for k, ws in WRONG.items() for w in ws]), quick=60, thorough=60)
def check_wrong(case, t):
    f = t.scratch() / "f.json"
    key, value = case
    f.write_text(json.dumps({key: value}))
    t.nontrivial(True)
    try:
        got = Strict.load(f)
    except ValueError as e:
        t.check(key in str(e), f"the report {e} does not name the field", key="wrong type")
    else:
        t.fail(f"the value {value!r} of {key} was read as {getattr(got, key)!r}", key="wrong type")
