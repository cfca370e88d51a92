"""C32: command lines. Oracle: the values a line was written from (the line is derived from a generated definition and chosen values), for legal lines;
an injected mistake, for illegal ones."""
import copy

from hypothesis import strategies as st

from vlib import Check
from pkm.utils.commons import MISSING
from pkm_cli.api.dynamic_cli.command_parser import (
    CommandParsingError, CommandDef, DynamicCommandLine, ArgumentsBuffer, ChoicesReader, command, flag, option, positional, dynamic, dynamic_commands,
    command_definitions_from)
from pkm_cli.api.dynamic_cli.help_generator import generate_arguments_overview, generate_usage
from pkm_cli.api.dynamic_cli.method_parser import command_definition_from_method, fields_from_method

CHECK = Check("C32", "command trees (options with short and long names, flags, repeatable, mutually exclusive, with fields, typed; positionals with fixed, optional and unbounded counts; nested commands), and "
                     "lines written from chosen values in any legal spelling and order, or with one mistake; non-trivial = at least three arguments are given in the line, or it has a mistake", workers=6)

CHOICES = ["red", "green", "b=c"]
WORDS = ["alpha", "beta", "x y", "a=b", "=", "Über", "7", "+1", "-5", "--opt", "-a", "", " pad ", "red", "sub", "é,ß", "a\nb", "@task", "-"]
SAFE = [w for w in WORDS if not w.startswith(("-", "+"))] + ["-"]
LONGS = ["name", "dry-run", "out", "out-dir", "level", "ab", "x2", "no_cache"]
SHORTS = list("abxyzNV")
FIELDS = ["user", "pass-word", "n"]


def value_of(kind, words=WORDS):
    if kind == "int":
        return st.sampled_from(["7", "0", "123", "-5", "+3"]) if "-5" in words else st.sampled_from(["7", "0", "123"])
    if kind == "choice":
        return st.sampled_from(CHOICES)
    if kind == "bool":
        return st.sampled_from(["true", "false", "no", "yes", "True", "0"])
    return st.sampled_from(words)


def read(kind, text):
    if kind == "int":
        return int(text)
    if kind == "bool":
        return text.lower() in ("true", "yes")
    return text


kinds = st.sampled_from(["str", "str", "str", "int", "choice", "bool"])


@st.composite
def fields_def(draw):
    names = draw(st.lists(st.sampled_from(FIELDS), min_size=1, max_size=3, unique=True))
    out = []
    for n in names:
        flag_ = draw(st.integers(0, 3)) == 0
        rep = not flag_ and draw(st.integers(0, 4)) == 0
        out.append({"name": "+" + n, "flag": flag_, "rep": rep, "kind": "flag" if flag_ else draw(kinds), "default": False if flag_ else draw(st.sampled_from(["required", None, "dflt"]))})
    return out


@st.composite
def node_def(draw, depth, name):
    has_def = depth == 0 or draw(st.integers(0, 3)) > 0
    opts, pos = [], []
    if has_def:
        longs = draw(st.permutations(LONGS))
        shorts = draw(st.permutations(SHORTS))
        for i in range(draw(st.integers(0, 5))):
            forms = draw(st.sampled_from(["both", "both", "long", "short", "two longs"]))
            if forms == "two longs" and i < 3:
                names = ["--" + longs[i], "--alias-" + longs[i]]
            elif forms == "long":
                names = ["--" + longs[i]]
            elif forms == "short":
                names = ["-" + shorts[i]]
            else:
                names = ["-" + shorts[i], "--" + longs[i]]
                if draw(st.booleans()):
                    names.reverse()
            kind = draw(st.sampled_from(["flag", "flag", "str", "str", "int", "choice", "bool"]))
            fields = draw(fields_def()) if draw(st.integers(0, 4)) == 0 else None
            opts.append({"names": names, "kind": kind, "rep": kind != "flag" and draw(st.integers(0, 3)) == 0, "fields": fields, "provided": bool(fields) and draw(st.booleans()),
                         "default": False if kind == "flag" else draw(st.sampled_from(["required", None, None, "dflt"])), "mutex": None})
        free = [o for o in opts if o["default"] != "required"]
        if len(free) >= 2 and draw(st.integers(0, 2)) == 0:
            for o in free[:draw(st.integers(2, len(free)))]:
                o["mutex"] = "group"
        npos = draw(st.integers(0, 3))
        optional_from = draw(st.integers(0, npos))
        for i in range(npos):
            last = i == npos - 1
            n = draw(st.sampled_from([1, 1, 2, 3] + (["*", "*"] if last else [])))
            fields = draw(fields_def()) if draw(st.integers(0, 5)) == 0 else None
            pos.append({"name": ["first", "the-second", "third"][i], "n": n, "kind": draw(kinds), "fields": fields, "provided": bool(fields) and draw(st.booleans()),
                        "default": draw(st.sampled_from([None, "dflt"])) if i >= optional_from else "required"})
    children = []
    if depth < 3:
        for cname in draw(st.lists(st.sampled_from(["sub", "add", "rm", "sub-cmd"]), max_size=2, unique=True)):
            children.append(draw(node_def(depth + 1, cname)))
    if not has_def and not children:
        children.append(draw(node_def(3, "leaf")))
    return {"name": name, "def": has_def, "opts": opts, "pos": pos, "children": children}


def field_name(names):
    base = next((n for n in sorted(names, key=len) if n.startswith("--")), None) or sorted(names, key=len)[0]
    return "".join(c if c.isalnum() or c == "_" else "_" for c in base.lstrip("-+"))


@st.composite
def fields_given(draw, fields):
    """(arguments, expected values) of the fields after a value"""
    args, exp = [], {}
    for f in draw(st.permutations(fields)):
        key = field_name([f["name"]])
        if f["default"] == "required" or draw(st.booleans()):
            for _ in range(draw(st.integers(1, 3)) if f["rep"] else 1):
                if f["flag"]:
                    args.append([f["name"]])
                    exp[key] = True
                    continue
                v = draw(value_of(f["kind"]))
                args.append([f["name"] + "=" + v] if draw(st.booleans()) else [f["name"], v])
                if f["rep"]:
                    exp.setdefault(key, []).append(read(f["kind"], v))
                else:
                    exp[key] = read(f["kind"], v)
        else:
            exp[key] = f["default"]
    return args, exp


@st.composite
def value_given(draw, arg, words):
    """(text, arguments after it, expected)"""
    v = None if arg["kind"] == "flag" else draw(value_of(arg["kind"], words))
    exp = True if arg["kind"] == "flag" else read(arg["kind"], v)
    after = []
    if arg["fields"]:
        after, fexp = draw(fields_given(arg["fields"]))
        exp = {"value": exp, **fexp}
    return v, [a for g in after for a in g], exp


def no_child(words, node):
    names = {c["name"] for c in node["children"]}
    return [w for w in words if w not in names]


@st.composite
def node_line(draw, node, last):
    """arguments for one command of the path: (items, expected values); an item is a list of arguments which belong together"""
    exp, opts_items = {}, []
    used_mutex = False
    combinable = []
    for o in node["opts"]:
        key = field_name(o["names"])
        give = o["default"] == "required" or draw(st.booleans())
        if give and o["mutex"]:
            give, used_mutex = not used_mutex, True
        if not give:
            exp[key] = o["default"]
            continue
        if o["rep"]:
            exp[key] = []
        for _ in range(draw(st.integers(1, 3)) if o["rep"] else 1):
            v, after, e = draw(value_given(o, WORDS))
            name = draw(st.sampled_from(o["names"]))
            if o["kind"] == "flag":
                item = [name]
                if not after and len(name) == 2 and not o["fields"]:
                    combinable.append(len(opts_items))
                if not o["fields"] and draw(st.integers(0, 6)) == 0:  # a flag may be set twice
                    opts_items.append([draw(st.sampled_from(o["names"]))])
            else:
                item = [f"{name}={v}"] if draw(st.booleans()) else [name, v]
            opts_items.append(item + after)
            if o["rep"]:
                exp[key].append(e)
            else:
                exp[key] = e
    # combine short flags with each other and with a following short option
    if len(combinable) > 0 and draw(st.booleans()):
        group = "".join(opts_items[i][0][1:] for i in combinable)
        rest = [it for i, it in enumerate(opts_items) if i not in combinable]
        shorts = [i for i, it in enumerate(rest) if it[0].startswith("-") and not it[0].startswith("--") and it[0][:2] in
                  [n for o in node["opts"] if o["kind"] != "flag" and not o["rep"] for n in o["names"]]]
        if shorts and draw(st.booleans()):
            i = draw(st.sampled_from(shorts))
            rest[i] = ["-" + group + rest[i][0][1:], *rest[i][1:]]
        else:
            rest.append(["-" + group])
        opts_items = rest
    before, middle, star = [], [], None
    stop = False
    for p in node["pos"]:
        key = field_name([p["name"]])
        give = not stop and (p["default"] == "required" or draw(st.integers(0, 2)) > 0)
        if p["n"] == "*" and not last:
            give = False
        if not give:
            stop = True
            exp[key] = p["default"]
            continue
        n = draw(st.integers(1, 4)) if p["n"] == "*" else p["n"]
        item, values = [], []
        for i in range(n):
            words = no_child(SAFE, node) if i == 0 else WORDS
            if p["fields"] and i:
                words = [w for w in words if not w.startswith("+")]
            v, after, e = draw(value_given(p, words))
            if i and p["fields"] and v.startswith("+"):
                v, e = "7", ({"value": 7, **{k: x for k, x in e.items() if k != "value"}})
            item += [v, *after]
            values.append(e)
        exp[key] = values[0] if p["n"] == 1 else values
        if p["n"] == "*":
            star = item
        else:
            middle.append(item)
    # options anywhere between the positionals, in any order
    opts_items = list(draw(st.permutations(opts_items))) if len({o["kind"] for o in node["opts"] if o["rep"]}) == 0 else opts_items
    items = list(middle)
    places = sorted(draw(st.integers(0, len(middle))) for _ in opts_items)
    for place, item in reversed(list(zip(places, opts_items))):
        items.insert(place, item)
    if star:
        items.append(star)
    return items, exp


def paths(node, prefix=()):
    if node["def"]:
        yield prefix
    for i, c in enumerate(node["children"]):
        # an unbounded required positional leaves no place for the commands below it
        if not any(p["n"] == "*" and p["default"] == "required" for p in node["pos"]):
            yield from paths(c, (*prefix, i))


@st.composite
def lines(draw):
    tree = draw(node_def(0, "prog"))
    all_paths = list(paths(tree))
    path = draw(st.sampled_from(all_paths))
    node, chain = tree, [tree]
    for i in path:
        node = node["children"][i]
        chain.append(node)
    expected, items = [], []
    for i, n in enumerate(chain):
        node_items, exp = draw(node_line(n, i == len(chain) - 1)) if n["def"] else ([], {})
        items.append([n["name"]])
        items += node_items
        expected.append(exp)
    return {"tree": tree, "path": list(path), "line": [a for it in items for a in it], "expected": expected, "given": len(items) - len(chain)}


# ---- the definitions, for the code

class Provider:
    def __init__(self, fn):
        self.provide = fn


def make_fields(fields):
    return [flag(f["name"]) if f["flag"] else option(f["name"], default=MISSING if f["default"] == "required" else f["default"], repeatable=f["rep"], reader=reader(f["kind"])) for f in fields]


def reader(kind):
    return {"str": None, "int": int, "bool": bool, "choice": ChoicesReader(CHOICES)}[kind]


def subs(a):
    if not a["fields"]:
        return {}
    if not a["provided"]:
        return {"fields": make_fields(a["fields"])}

    def provider(cmd, arg, value):
        if a["kind"] != "flag" and not isinstance(value, (str, int, bool)):
            raise AssertionError(f"provider called with {value!r}")
        return iter(make_fields(a["fields"]))

    return {"fields_provider": Provider(provider)}


def definitions(node, log, prefix=()):
    out = []
    path = (*prefix, node["name"])
    if node["def"]:
        args = []
        for o in node["opts"]:
            names = ", ".join(o["names"])
            if o["kind"] == "flag":
                args.append(flag(names, mutex_group=o["mutex"], **subs(o)))
            else:
                args.append(option(names, default=MISSING if o["default"] == "required" else o["default"], repeatable=o["rep"], mutex_group=o["mutex"], reader=reader(o["kind"]), **subs(o)))
        for p in node["pos"]:
            args.append(positional(p["name"], n_values=p["n"], default=MISSING if p["default"] == "required" else p["default"], reader=reader(p["kind"]), **subs(p)))

        if node["children"]:
            def run(cmd):
                log.append(("enter", path))
                yield
                log.append(("leave", path))
        else:
            def run(cmd):
                log.append(("run", path))
                return "result"

        out.append(command(" ".join(path), *args)(run))
    for c in node["children"]:
        out += definitions(c, log, path)
    return out


def parse(case, log, line=None):
    defs = command_definitions_from(definitions(case["tree"], log))
    line = list(case["line"] if line is None else line)
    before = list(line)
    cmd = DynamicCommandLine.create(defs, line).parse()
    return cmd, line == before


@CHECK.test("legal lines", lines(), quick=5000, thorough=300000)
def legal(case, t):
    t.nontrivial(case["given"] >= 3)
    log = []
    cmd, untouched = parse(case, log)
    if cmd.parse_error:
        t.fail(f"{case['line']!r} is refused: {type(cmd.parse_error).__name__}: {cmd.parse_error}", key="refused")
    names = [case["tree"]["name"]]
    node = case["tree"]
    chain = [node]
    for i in case["path"]:
        node = node["children"][i]
        names.append(node["name"])
        chain.append(node)
    t.eq(list(cmd.path), names, f"the command of {case['line']!r}", key="other command")
    cmds = [c for c in [*cmd.parents(), cmd] if c.path]
    t.eq(len(cmds), len(chain), "the commands on the path", key="other command")
    for c, n, exp in zip(cmds, chain, case["expected"]):
        got = {k: v for k, v in c.arguments.items() if k != "help"}
        t.eq(got, exp, f"the arguments of {' '.join(c.path)} in {case['line']!r}", key="other values")
        t.eq(c.arguments.get("help"), False, "the help flag", key="other values")
        for o in n["opts"] + n["pos"]:
            t.label(f"{o['kind']}{' rep' if o.get('rep') else ''}{' fields' if o['fields'] else ''}")
    t.check(untouched, "the list of arguments given by the caller was changed", key="caller list changed")
    for c, n in zip(cmds, chain):  # help texts can be generated for every command
        generate_usage(c), generate_arguments_overview(c)
    # the contexts of the parents are open while the command runs
    result = cmd.execute()
    want = [("enter", tuple(names[:i + 1])) for i, n in enumerate(chain[:-1]) if n["def"]]
    own = []
    if not chain[-1]["children"]:
        own = [("run", tuple(names))]
        t.eq(result, "result", "the result of the command", key="execution")
    else:
        for _ in result:
            pass
        # a command with sub commands that is run itself is a context without anything inside of it; its own part is the driver of the test
        own = [("enter", tuple(names)), ("leave", tuple(names))]
    exp_log = want + own + [("leave", p) for _, p in reversed(want)] if not chain[-1]["children"] else None
    if exp_log is not None:
        t.eq(log, exp_log, "the order in which the command and the contexts of its parents run", key="execution")


@st.composite
def mistakes(draw):
    case = draw(lines())
    kind = draw(st.sampled_from(["unknown long", "unknown short", "unknown in group", "extra positional", "repeat", "flag value", "no value", "mutex", "drop required option", "drop positional", "bad int",
                                 "bad choice", "bad bool", "field first", "unknown field", "repeat field", "drop required field", "no command", "mutex in groups"]))
    return {**case, "kind": kind, "pick": draw(st.integers(0, 100)), "word": draw(st.sampled_from(["zzz", "other", "9"]))}


class Line:
    """rewrites the last command of a legal line, so that it has exactly one mistake"""

    def __init__(self, case):
        self.case = case
        self.chain = [case["tree"]]
        for i in case["path"]:
            self.chain.append(self.chain[-1]["children"][i])
        self.node = self.chain[-1]

    def prefix(self):
        """required arguments of the parents, in their simplest form"""
        out = []
        for n in self.chain[:-1]:
            out.append(n["name"])
            out += self.simplest(n) if n["def"] else []
        return [*out, self.node["name"]]

    def texts(self, kind):
        return {"int": "7", "choice": "red", "bool": "yes"}.get(kind, "text")

    def fields(self, a, without=None):
        return [x for f in a["fields"] or () if f["default"] == "required" and f is not without for x in self.field(f)]

    def field(self, f):
        return [f["name"]] if f["flag"] else [f["name"], self.texts(f["kind"])]

    def opt(self, o, name=None):
        name = name or o["names"][0]
        return [name, *([] if o["kind"] == "flag" else [self.texts(o["kind"])]), *self.fields(o)]

    def pos(self, p, n=None, text=None):
        n = n if n is not None else (1 if p["n"] == "*" else p["n"])
        return [x for _ in range(n) for x in (text or self.texts(p["kind"]), *self.fields(p))]

    def simplest(self, n, skip=None):
        out = [x for o in n["opts"] if o["default"] == "required" and o is not skip for x in self.opt(o)]
        return out + [x for p in n["pos"] if p["default"] == "required" and p is not skip for x in self.pos(p)]


def with_mistake(case):
    L = Line(case)
    n, kind, pick, word = L.node, case["kind"], case["pick"], case["word"]

    def choose(xs):
        return xs[pick % len(xs)] if xs else None

    opts = [x for o in n["opts"] if o["default"] == "required" for x in L.opt(o)]
    pos = [x for p in n["pos"] if p["default"] == "required" for x in L.pos(p)]
    base = L.prefix()
    if kind == "unknown long":
        return base + ["--zzz"] + opts + pos
    if kind == "unknown short":
        return base + opts + ["-Q"] + pos
    if kind == "unknown in group":
        f = choose([o for o in n["opts"] if o["kind"] == "flag" and not o["fields"] and any(len(x) == 2 for x in o["names"])])
        return f and base + ["-" + next(x for x in f["names"] if len(x) == 2)[1] + "Q"] + opts + pos
    if kind == "extra positional":
        if any(p["n"] == "*" for p in n["pos"]):
            return None
        return base + opts + [x for p in n["pos"] for x in L.pos(p)] + [word]
    if kind == "repeat":
        o = choose([o for o in n["opts"] if o["kind"] != "flag" and not o["rep"] and not o["mutex"]])
        return o and base + L.opt(o, o["names"][-1]) + [x for q in n["opts"] if q["default"] == "required" and q is not o for x in L.opt(q)] + L.opt(o) + pos
    if kind == "flag value":
        o = choose([o for o in n["opts"] if o["kind"] == "flag"])
        return o and base + [choose(o["names"]) + "=" + word, *L.fields(o)] + opts + pos
    if kind == "no value":
        o = choose([o for o in n["opts"] if o["kind"] != "flag" and (o["default"] != "required" or True) and not any(p["n"] == "*" for p in n["pos"])])
        return o and base + [x for q in n["opts"] if q["default"] == "required" and q is not o for x in L.opt(q)] + pos + [choose(o["names"])]
    if kind in ("mutex", "mutex in groups"):
        group = [o for o in n["opts"] if o["mutex"]]
        if kind == "mutex in groups":
            group = [o for o in group if o["kind"] == "flag" and not o["fields"] and any(len(x) == 2 for x in o["names"])]
            if len(group) < 2:
                return None
            return base + ["-" + "".join(next(x for x in o["names"] if len(x) == 2)[1] for o in group)] + opts + pos
        if len(group) < 2:
            return None
        a, b = group[pick % len(group)], group[(pick + 1) % len(group)]
        return base + L.opt(a) + opts + L.opt(b) + pos
    if kind == "drop required option":
        o = choose([o for o in n["opts"] if o["default"] == "required"])
        return o and base + L.simplest(n, skip=o)
    if kind == "drop positional":
        required = [p for p in n["pos"] if p["default"] == "required"]
        if not required:
            return None
        p = required[-1]
        short = [] if p["n"] in (1, "*") else L.pos(p, n=1 + pick % (p["n"] - 1))
        return base + opts + [x for q in required[:-1] for x in L.pos(q)] + short
    if kind in ("bad int", "bad choice", "bad bool"):
        o = choose([o for o in n["opts"] + n["pos"] if o["kind"] == kind[4:]])
        if not o:
            return None
        if "names" in o:
            return base + [choose(o["names"]), "nope", *L.fields(o)] + [x for q in n["opts"] if q["default"] == "required" and q is not o for x in L.opt(q)] + pos
        return base + opts + [x for p in n["pos"] for x in L.pos(p, text="nope" if p is o else None)]
    if kind == "field first":
        return base + ["+user=x"] + opts + pos
    withf = [(o, f) for o in n["opts"] if o["fields"] for f in o["fields"]]
    if kind in ("unknown field", "repeat field", "drop required field"):
        if kind == "repeat field":
            withf = [(o, f) for o, f in withf if not f["flag"] and not f["rep"]]
        if kind == "drop required field":
            withf = [(o, f) for o, f in withf if f["default"] == "required"]
        if not withf:
            return None
        o, f = choose(withf)
        head = [o["names"][0], *([] if o["kind"] == "flag" else [L.texts(o["kind"])])]
        rest = [x for q in n["opts"] if q["default"] == "required" and q is not o for x in L.opt(q)] + pos
        if kind == "unknown field":
            return base + head + L.fields(o) + ["+zzz=1"] + rest
        if kind == "repeat field":
            return base + head + L.fields(o, without=f) + L.field(f) + L.field(f) + rest
        return base + head + L.fields(o, without=f) + rest
    if kind == "no command":
        bad = [(i, c) for i, c in enumerate(L.chain) if not c["def"]]
        if not bad:
            return None
        i, c = bad[0]
        L.node = c
        L.chain = L.chain[:i + 1]
        return L.prefix()


@CHECK.test("lines with a mistake", mistakes(), quick=4000, thorough=250000)
def wrong(case, t):
    line = with_mistake(case)
    if not line:
        return t.label("mistake does not apply")
    t.nontrivial(True)
    t.label(case["kind"])
    log = []
    try:
        cmd, _ = parse(case, log, line)
    except CommandParsingError as e:
        t.fail(f"{line!r} ({case['kind']}): parse() raised instead of returning a command with the error: {e}", key="error escapes")
    t.check(isinstance(cmd.parse_error, CommandParsingError), lambda: f"{line!r} ({case['kind']}) is accepted as {cmd.path} {cmd.arguments}", key=f"accepted: {case['kind']}")
    try:
        cmd.execute()
    except CommandParsingError:
        pass
    else:
        t.fail(f"{line!r} ({case['kind']}) was executed", key="executed")
    t.eq(log, [], "what was run for a line with a mistake", key="executed")


# ---- commands made of functions

PARAMS = ["name", "path", "count", "dry_run", "x", "other_name", "n"]


@st.composite
def functions(draw):
    names = draw(st.permutations(PARAMS))
    n = draw(st.integers(0, 3))
    ndef = draw(st.integers(0, n))

    def param(name, default):
        type_ = draw(st.sampled_from(["str", "int", "bool", "Optional[int]", "Optional[str]", None]))
        d = None
        if default:
            d = {"str": "'dflt'", "int": "3", "bool": draw(st.sampled_from(["True", "False"])), "Optional[int]": "None", "Optional[str]": "'o'", None: "'untyped'"}[type_]
        return {"name": name, "type": type_, "default": d}

    pos = [param(names[i], i >= n - ndef) for i in range(n)]
    var = draw(st.sampled_from([None, None, {"name": "rest", "type": "str", "default": None}, {"name": "all_rest", "type": "int", "default": None}]))
    kw = [param(names[n + i], draw(st.booleans())) for i in range(draw(st.integers(0, 3)))]
    vals = {}

    def val(p):
        kind = {"Optional[int]": "int", "Optional[str]": "str", None: "str"}.get(p["type"], p["type"])
        return draw(value_of(kind, SAFE)), kind

    given_pos, stop = [], False
    for p in pos:
        if p["default"] and (stop or draw(st.booleans())):
            stop = True
            continue
        given_pos.append((p["name"], *val(p)))
    rest = [val(var) for _ in range(draw(st.integers(0, 3)))] if var and not stop else []
    given_kw = [(p["name"], *val(p), draw(st.booleans())) for p in kw if not p["default"] or draw(st.booleans())]
    return {"pos": pos, "var": var, "kw": kw, "given_pos": given_pos, "rest": rest, "given_kw": list(draw(st.permutations(given_kw)))}


def source(case):
    def p(x):
        return x["name"] + (f": {x['type']}" if x["type"] else "") + (f" = {x['default']}" if x["default"] else "")

    params = [p(x) for x in case["pos"]]
    if case["var"]:
        params.append("*" + case["var"]["name"] + ": " + case["var"]["type"])
    elif case["kw"]:
        params.append("*")
    params += [p(x) for x in case["kw"]]
    return ("from typing import Optional\n"
            f"def do_it({', '.join(params)}):\n"
            '    """\n    does it\n\n    and more\n    :param name: the name\n    """\n'
            "    return dict(locals())\n")


@CHECK.test("commands of functions", functions(), quick=2500, thorough=120000)
def of_functions(case, t):
    env = {}
    exec(source(case), env)
    fn = env["do_it"]
    t.nontrivial(len(case["given_pos"]) + len(case["rest"]) + len(case["given_kw"]) >= 2)
    want = fn(*[read(k, v) for _, v, k in case["given_pos"]], *[read(k, v) for v, k in case["rest"]], **{n: read(k, v) for n, v, k, _ in case["given_kw"]})
    bare_flags = {p["name"] for p in case["kw"] if p["type"] == "bool" and p["default"] == "False"}
    cdef = command_definition_from_method(fn)
    t.eq(cdef.path, ["do_it"], "the name of the command", key="function command")
    t.eq(cdef.short_desc, "does it", "the short description", key="function command")
    line = ["do_it"]
    for name, v, kind, eq in case["given_kw"]:
        oname = "-" + name if len(name) == 1 else "--" + name.replace("_", "-")
        if name in bare_flags:
            want[name] = True
            line.append(oname)
        else:
            line += [f"{oname}={v}"] if eq else [oname, v]
    line += [v for _, v, _ in case["given_pos"]] + [v for v, _ in case["rest"]]
    cmd = DynamicCommandLine.create([cdef], line).parse()
    if cmd.parse_error:
        t.fail(f"{line!r} for {source(case).splitlines()[1]} is refused: {cmd.parse_error}", key="function command refused")
    t.eq(cmd.execute(), want, f"the call made for {line!r} of {source(case).splitlines()[1]}", key="function command")
    # the same function as a definition of fields: +name fields
    fields = fields_from_method(fn)
    args = []
    for name, v, kind in case["given_pos"]:
        args.append(f"+{name.replace('_', '-')}={v}")
    for v, kind in case["rest"]:
        args += [f"+{case['var']['name'].replace('_', '-')}", v]
    for name, v, kind, _ in case["given_kw"]:
        args.append(f"+{name.replace('_', '-')}" + ("" if name in bare_flags else f"={v}"))
    c2 = command("c", option("-o", fields_provider=Provider(lambda *_: fields)))(lambda cmd: cmd)
    got = DynamicCommandLine.create(command_definitions_from([c2]), ["c", "-o", "value", *args]).parse()
    if got.parse_error:
        t.fail(f"{args!r} as fields of {source(case).splitlines()[1]} are refused: {got.parse_error}", key="fields of function refused")
    values = dict(got.o)
    t.eq(values.pop("value"), "value", "the value", key="fields of function")
    norm = {k: list(v) if isinstance(v, (tuple, list)) else v for k, v in values.items()}
    t.eq(norm, {k: list(v) if isinstance(v, tuple) else v for k, v in want.items()}, f"the values of the fields {args!r} of {source(case).splitlines()[1]}", key="fields of function")


# ---- definitions that depend on what was parsed already

@st.composite
def dynamics(draw):
    names = draw(st.lists(st.sampled_from(["one", "two", "three"]), max_size=3, unique=True))
    return {"names": names, "values": [draw(st.sampled_from(SAFE)) for _ in names], "option": draw(st.booleans()), "given": draw(st.booleans()), "first_default": draw(st.booleans()),
            "skip_first": draw(st.booleans()), "sub": draw(st.sampled_from(["x", "y", "unknown", None])), "arg": draw(st.sampled_from(SAFE)), "drop": draw(st.booleans())}


@CHECK.test("dynamic definitions", dynamics(), quick=800, thorough=30000)
def dynamic_definitions(case, t):
    seen = []
    skip = case["first_default"] and case["skip_first"] and (not case["names"])

    def provider(cmd):
        seen.append(cmd.spec)
        return [positional(n) for n in cmd.spec.split()] + ([option("-o, --opt", default="d")] if case["option"] else [])

    spec = " ".join(case["names"])
    c = command("cmd", positional("spec", default="" if case["first_default"] else MISSING), dynamic(provider))(lambda cmd: cmd)
    drop = case["drop"] and case["names"]
    line = ["cmd"] + ([] if skip else [spec]) + (["--opt", "v"] if case["option"] and case["given"] and not skip else []) + case["values"][:-1 if drop else None]
    t.nontrivial(len(line) > 3)
    cmd = DynamicCommandLine.create(command_definitions_from([c]), line).parse()
    if drop:
        t.check(isinstance(cmd.parse_error, CommandParsingError), f"{line!r} misses an argument", key="dynamic: missing argument")
    else:
        if cmd.parse_error:
            t.fail(f"{line!r} is refused: {cmd.parse_error}", key="dynamic refused")
        t.eq(seen, [spec], "the arguments the provider has seen", key="dynamic")
        want = {"spec": spec, "help": False, **dict(zip(case["names"], case["values"]))}
        if case["option"]:
            want["opt"] = "v" if case["given"] and not skip else "d"
        t.eq(dict(cmd.arguments), want, f"the values of {line!r}", key="dynamic")
    # commands that depend on the rest of the line
    peeked = []

    @dynamic_commands("prog run")
    def run(cmd, rest: ArgumentsBuffer):
        peeked.append(rest.peek_or_none())
        if rest.peek_or_none() == "@":
            return command_definitions_from([command("", positional("all", n_values="*"))(lambda cmd: ("all", cmd.all))])
        return command_definitions_from([command("x", positional("a"))(lambda cmd: ("x", cmd.a)), command("y", flag("-f"))(lambda cmd: ("y", cmd.f))])

    @command("prog", flag("-v"))
    def prog(cmd):
        yield

    defs = command_definitions_from([run, prog])
    sub, arg = case["sub"], case["arg"]
    line = ["prog", "-v", "run"]
    if sub is None:
        line += ["@", arg]
        want = ("all", ["@", arg])
    elif sub == "x":
        line += ["x", arg]
        want = ("x", arg)
    elif sub == "y":
        line += ["y", "-f"]
        want = ("y", True)
    else:
        line += ["unknown", arg]
        want = None
    cmd = DynamicCommandLine.create(defs, line).parse()
    t.eq(peeked, [line[3]], "the argument after a dynamic command", key="dynamic command")
    if want is None:
        t.check(isinstance(cmd.parse_error, CommandParsingError), f"{line!r} is accepted", key="dynamic command: unknown accepted")
    else:
        if cmd.parse_error:
            t.fail(f"{line!r} is refused: {cmd.parse_error}", key="dynamic command refused")
        t.eq(cmd.execute(), want, f"the command of {line!r}", key="dynamic command")
        t.eq(cmd.v, True, "an argument of the parent command", key="dynamic command")
