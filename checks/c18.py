"""C18: writing TOML. Oracle: tomllib for the values; the comments and the order of keys of what an edit did not touch are compared with the source."""
import copy
import re
import tomllib

from hypothesis import strategies as st

import importlib
from vlib import Check
from pkm.config import toml
from pkm.config.configfiles import TomlConfigIO

c17 = importlib.import_module("checks.c17")
same, convert = c17.same, c17.convert

CHECK = Check("C18", "configuration trees written and read back, and loaded documents that are edited and saved; non-trivial = the tree nests a table in a list "
                     "or in another table, or an edit changes a document that has comments", workers=6)

keys = st.one_of(st.sampled_from(["a", "b", "c", "d", "a.b", "", "a b", "é", "1", "-", '"', "'", "\n", "#", "k\\", "[x]", "A", "=", "\x00", "\x7f", "2020-01-01", "true"]), st.text("ab.\"'\\#=\n\t é", max_size=4))
texts = st.one_of(st.text(max_size=6).filter(lambda s: not any(0xd800 <= ord(c) < 0xe000 for c in s)), st.text("ab\"'\\\n\r\t\x00\x1b\x7f\x85#[]{}=,é", max_size=8),
                  st.sampled_from(["", '"""', "'''", "\\u0041", "\r\n", "x" * 50, "2020-01-01", "1", "true", "# c", "inf"]))
numbers = st.one_of(st.integers(-10, 10), st.sampled_from([2 ** 63, -2 ** 63, 10 ** 20]), st.floats(allow_nan=True), st.sampled_from([0.0, -0.0, 1.0, 1e16, 1e22, 1e-7, float("inf"), -float("inf")]), st.booleans())
moments = st.sampled_from(["1979-05-27", "07:32:00", "1979-05-27T07:32:00Z", "1979-05-27 07:32:00.5+01:00"]).map(lambda s: ("time", s))
leaf = st.one_of(texts, numbers, numbers, moments)
tree = st.recursive(leaf, lambda v: st.one_of(st.lists(v, max_size=4), st.dictionaries(keys, v, max_size=4), st.lists(st.dictionaries(keys, v, max_size=3), max_size=3),
                                              st.dictionaries(keys, st.dictionaries(keys, v, max_size=3), max_size=3)), max_leaves=12)
config = st.dictionaries(keys, tree, max_size=6)


def build(value):
    """the configuration value that a case describes"""
    if isinstance(value, tuple):
        return toml.TimeLiteral(value[1])
    if isinstance(value, dict):
        return {k: build(v) for k, v in value.items()}
    if isinstance(value, list):
        return [build(v) for v in value]
    return value


def depth(value):
    if isinstance(value, dict):
        return 1 + max([depth(v) for v in value.values()], default=0)
    if isinstance(value, list):
        return 1 + max([depth(v) for v in value], default=0)
    return 0


def reads_back(text, value, t, origin):
    expected = convert(value)
    try:
        again = tomllib.loads(text)
    except ValueError as e:
        t.fail(f"{origin}: {value!r} is written as a document that is not legal toml ({e}): {text!r}", key="illegal")
        return
    t.check(same(again, expected), f"{origin}: {value!r} is written as {text!r}, which holds {again!r}", key="value")
    try:
        mine = toml.loads(text)[0]
    except ValueError as e:
        t.fail(f"{origin}: {value!r} is written as {text!r}, which cannot be read back: {e}", key="unreadable")
        return
    t.check(same(convert(mine), expected), f"{origin}: {value!r} is written as {text!r}, which reads back as {mine!r}", key="readback")


@CHECK.test("dump", config, quick=4000, thorough=80000)
def check_dump(value, t):
    t.nontrivial(depth(value) >= 3)
    value = build(value)
    before = copy.deepcopy(value)
    reads_back(toml.dumps(value), value, t, "dumps")
    t.check(same(before, value), "writing changed the written value")


@CHECK.test("file", config, quick=400, thorough=8000)
def check_file(value, t):
    """through the configuration file reader, on disk"""
    t.nontrivial(depth(value) >= 2)
    value = build(value)
    path = t.scratch() / "x.toml"
    io = TomlConfigIO()
    io.write(path, value)
    reads_back(path.read_bytes().decode("utf-8"), value, t, "file")
    again = io.read(path)
    t.check(same(convert(again), convert(value)), f"the file written for {value!r} is read as {again!r}", key="file")
    again["extra"] = 1
    io.write(path, again)
    reads_back(path.read_bytes().decode("utf-8"), {**value, "extra": 1}, t, "file edit")


# edits: a path is a list of indices, resolved modulo the size of the container it reaches
step = st.integers(0, 7)
where = st.lists(step, max_size=4)
edit = st.one_of(
    st.tuples(st.just("set"), where, step, tree), st.tuples(st.just("set"), where, step, tree), st.tuples(st.just("add"), where, keys, tree), st.tuples(st.just("add"), where, keys, tree),
    st.tuples(st.just("remove"), where, step), st.tuples(st.just("append"), where, tree), st.tuples(st.just("clear"), where), st.tuples(st.just("move"), where, where, keys),
    st.tuples(st.just("reorder"), where))


def container(data, path):
    for i in path:
        items = list(data.values()) if isinstance(data, dict) else data
        items = [v for v in items if isinstance(v, (dict, list))]
        if not items:
            break
        data = items[i % len(items)]
    return data


def apply(data, e):
    kind, path, *rest = e
    c = container(data, path)
    if kind == "set":
        if c:
            k = (list(c) if isinstance(c, dict) else list(range(len(c))))[rest[0] % len(c)]
            c[k] = build(rest[1])
    elif kind == "add":
        if isinstance(c, dict):
            c[rest[0]] = build(rest[1])
        else:
            c.insert(0, build(rest[1]))
    elif kind == "remove":
        if c:
            k = (list(c) if isinstance(c, dict) else list(range(len(c))))[rest[0] % len(c)]
            del c[k]
    elif kind == "append":
        if isinstance(c, list):
            c.append(build(rest[0]))
    elif kind == "clear":
        c.clear()
    elif kind == "move":
        target = container(data, rest[0])
        moved = copy.deepcopy(c)
        if isinstance(target, dict):
            target[rest[1]] = moved
        else:
            target.append(moved)
    elif kind == "reorder":
        if isinstance(c, dict):
            for k in sorted(c):
                c[k] = c.pop(k)
        else:
            c.reverse()


# documents that carry numbered comments, so that what became of each is visible
@st.composite
def documents(draw):
    lines, n = [], 0
    for _ in range(draw(st.integers(0, 8))):
        n += 1
        kind = draw(st.integers(0, 5))
        if kind == 0:
            lines.append(f"# C{n}")
        elif kind == 1:
            lines.append("")
        elif kind == 2:
            k = draw(c17.header_key)
            lines.append((f"[{k}]" if draw(st.booleans()) else f"[[{k}]]") + (f" # C{n}" if draw(st.booleans()) else ""))
        else:
            v = draw(c17.value)
            lines.append(f"{draw(c17.key)} = {v}" + (f" # C{n}" if draw(st.booleans()) else ""))
    return "\n".join(lines) + draw(st.sampled_from(["", "\n"]))


def valid(text):
    try:
        tomllib.loads(text)
        return True
    except ValueError:
        return False


@CHECK.test("edit", st.tuples(documents().filter(valid), st.lists(edit, max_size=4)), quick=2500, thorough=60000)
def check_edit(case, t):
    text, edits = case
    t.nontrivial(depth(tomllib.loads(text)) >= 2 and len(edits) > 0)
    data, dump = toml.loads(text)
    for e in edits:
        apply(data, e)
        reads_back(dump(data), data, t, f"after {e!r} of the document {text!r}")


def comments(text):
    return re.findall(r"# C\d+", text)


@CHECK.test("no-edit", documents().filter(valid), quick=2000, thorough=40000)
def check_no_edit(text, t):
    """saving without an edit: the values, every comment and the order of everything"""
    t.nontrivial(len(comments(text)) >= 2)
    data, dump = toml.loads(text)
    out = dump(data)
    reads_back(out, data, t, f"no edit of {text!r}")
    t.check(sorted(comments(out)) == sorted(comments(text)), f"saving {text!r} without an edit gives {out!r}, its comments are not the same", key="comments")
    again, dump2 = toml.loads(out)
    t.eq(dump2(again), out, f"saving {out!r} a second time changes it", key="stable")


# a flat layout, as users write: sections of commented assignments. An edit touches one assignment, all the other lines stay.
name = st.sampled_from(["a", "b", "c", "d", "e", "long-name", '"quoted key"', "x.y", "x.z", "w.q.r"])
section = st.tuples(st.lists(st.tuples(name, c17.value.filter(lambda v: "\n" not in v and "\r" not in v and "{" not in v and valid("a=" + v)), st.booleans(), st.booleans()), max_size=4, unique_by=lambda x: x[0]))


@st.composite
def sections(draw):
    """lines: (section, key text, full line text); a line above an assignment may be its comment"""
    out, n = [], 0
    for s in draw(st.lists(st.sampled_from(["", "s", "s.t", "u", "v.w", "u.x", "[L]", "[L]", "L.sub"]), max_size=4, unique_by=lambda x: x if x != "[L]" else object())):
        if s == "L.sub" and "[L]" not in [o[0] for o in out]:
            continue
        if s == "" and out:
            continue
        n += 1
        head = [f"# C{n}00"] if s and draw(st.booleans()) else []
        body = []
        for i, (k, v, above, beside) in enumerate(draw(section)[0]):
            body.append(([f"# C{n}1{i}"] if above else []) + [f"{k} = {v}" + (f" # C{n}2{i}" if beside else "")])
        out.append((s, head + ([f"[{s}]"] if s else []), body))
    return out


@CHECK.test("untouched", st.tuples(sections(), step, step, st.sampled_from([123456, -0.125, True, "a brand new value", 'with "quotes"\nand lines']), st.booleans()), quick=1500, thorough=30000)
def check_untouched(case, t):
    layout, si, ki, new, add = case
    text = "".join("\n".join([*head, *[x for b in body for x in b]]) + "\n\n" for _, head, body in layout)
    if not valid(text):
        return
    candidates = [i for i, (s, _, body) in enumerate(layout) if not any(s2.startswith(s) for s2, _, _ in layout[:i] if s2 and s2 != "[L]") and (body or add)]
    t.nontrivial(bool(candidates) and len(comments(text)) >= 2)
    if not candidates:
        return
    i = candidates[si % len(candidates)]
    s, head, body = layout[i]
    data, dump = toml.loads(text)
    unedited = dump(data)
    table = data
    if s == "[L]":
        table = data["L"][sum(1 for s2, _, _ in layout[:i] if s2 == "[L]")]
    elif s:
        for part in s.split("."):
            table = table[part]
            if isinstance(table, list):
                table = table[sum(1 for s2, _, _ in layout[:i] if s2 == "[L]") - 1]
    gone = []
    if add:
        table["brand-new"] = build(new)
    else:
        k = body[ki % len(body)][-1].split(" = ")[0]
        gone = body[ki % len(body)]
        parts = [k.strip('"')] if '"' in k else k.split(".")
        for part in parts[:-1]:
            table = table[part]
        table[parts[-1]] = build(new)
    out = dump(data)
    reads_back(out, data, t, f"edit of {text!r}")
    t.eq(sorted(line for line in unedited.split("\n") if line), sorted(line for line in text.split("\n") if line), f"saving {text!r} without an edit, the lines", key="lines")
    # sections that the document has out of order may be grouped, hence the order is compared with that of saving without an edit
    expected = [line for line in unedited.split("\n") if line and line not in gone]
    kept = [line for line in out.split("\n") if line in expected]
    t.eq(kept, expected, f"after an edit of {gone or 'a new key'} the document {text!r} became {out!r}; its other lines", key="lines")
    if gone:  # the comment above an edited assignment is kept as well
        for line in gone[:-1]:
            t.check(line in out.split("\n"), f"the comment {line!r} above an edited value of {text!r} was lost: {out!r}", key="above")
