"""C06: environment markers. Oracle: the generated expression tree evaluated with PEP 508 semantics (packaging versions / python strings)."""
from types import SimpleNamespace

from hypothesis import strategies as st
from packaging.version import Version as Ref, InvalidVersion

import gen
import specmodel
from vlib import Check
from pkm.api.dependencies.dependency import Dependency
from pkm.api.dependencies.env_markers import EnvironmentMarker

CHECK = Check("C06", "marker expression trees x environments x requested extras; non-trivial = at least two atoms joined by and/or and both outcomes "
                     "of the atoms occur",
              assumptions=["ordered version comparisons are generated for final versions without post/local parts, where PEP 440 leaves no choice"])

VERSION_VARS = ["python_version", "python_full_version", "implementation_version", "platform_release", "platform_version"]
STR_VARS = ["os_name", "sys_platform", "platform_machine", "platform_python_implementation", "platform_system", "implementation_name"]
WORDS = ["linux", "linux2", "win32", "Windows", "posix", "x86_64", "aarch64", "CPython", "PyPy", "Darwin", "5.4.0-generic", "5.4.0-26-aws", "#1 SMP Fri", "JIT",
         "3.8foo", "it's", "", "1.0-SNAPSHOT", "cpython"]
word = st.sampled_from(WORDS)
ver = st.tuples(st.integers(2, 3), st.sampled_from([0, 1, 6, 7, 8, 9, 10, 11, 12]), st.sampled_from([None, None, 0, 1, 10])).map(
    lambda p: ".".join(str(x) for x in p if x is not None))
value = st.one_of(ver, word)
EXTRAS = ["dev", "test", "Foo_Bar", "foo-bar", "docs", "FOO.bar", "x1"]


@st.composite
def envs(draw):
    m = {v: draw(st.one_of(ver, ver, word)) for v in VERSION_VARS}
    m["python_version"], m["python_full_version"] = draw(ver), draw(ver)
    m.update({v: draw(st.one_of(word, word, ver)) for v in STR_VARS})
    return m


@st.composite
def atom(draw):
    """('cmp', left, op, right); a side is ('var', name) or ('str', text)"""
    if draw(st.integers(0, 3)) == 0:
        sides = [("var", "extra"), ("str", draw(st.sampled_from(EXTRAS)))]
        op = draw(st.sampled_from(["==", "==", "==", "!="]))
    else:
        var = draw(st.sampled_from(VERSION_VARS * 2 + STR_VARS))
        val = draw(value)
        sides = [("var", var), ("str", val)]
        op = draw(st.sampled_from(["<", "<=", ">", ">=", "==", "!=", "==", "!=", "in", "not in", "==="]))
        if op in ("in", "not in"):
            if draw(st.booleans()):
                sides[1] = ("str", draw(st.sampled_from(["3.6 3.7 3.8", "2.7, 3.10", "linux linux2", "CPython", "win", "", "x"])))
        elif draw(st.integers(0, 6)) == 0 and op in ("==", "!=") and val[:1].isdigit() and val not in WORDS:
            sides[1] = ("str", val + ".*")
            return ("cmp", sides[0], op, sides[1])
        elif draw(st.integers(0, 8)) == 0:
            var = draw(st.sampled_from(["python_version", "python_full_version"]))
            return ("cmp", ("var", var), "~=", ("str", draw(ver)))
    if op not in ("===",) and draw(st.integers(0, 3)) == 0:
        sides.reverse()
    return ("cmp", sides[0], op, sides[1])


def tree():
    return st.recursive(atom(), lambda c: st.tuples(st.sampled_from(["and", "or"]), c, c), max_leaves=6)


def side_text(s, q):
    if s[0] == "var":
        return s[1]
    q = '"' if "'" in s[1] else q
    return q + s[1] + q


@st.composite
def text_of(draw, e, parent=None):
    if e[0] == "cmp":
        q = draw(st.sampled_from("'\""))
        w = st.sampled_from([" ", "  "]) if e[2] in ("in", "not in") else st.sampled_from(["", " ", "  "])
        op = e[2] if e[2] != "not in" else "not" + draw(st.sampled_from([" ", "  "])) + "in"
        s = side_text(e[1], q) + draw(w) + op + draw(w) + side_text(e[3], q)
        return f"({s})" if draw(st.integers(0, 9)) == 0 else s
    a, b = draw(text_of(e[1], e[0])), draw(text_of(e[2], e[0]))
    s = a + draw(st.sampled_from([" ", "  "])) + e[0] + draw(st.sampled_from([" ", "\t"])) + b
    need = (e[0] == "or" and parent == "and")
    if need or draw(st.integers(0, 4)) == 0:
        w = draw(st.sampled_from(["", " "]))
        s = f"({w}{s}{w})"
    return s


def as_version(s):
    try:
        return Ref(s)
    except InvalidVersion:
        return None


def compare(a, op, b):
    if op == "in":
        return a in b
    if op == "not in":
        return a not in b
    if op == "===":
        return a == b
    star = b.endswith(".*") and op in ("==", "!=")
    va, vb = as_version(a), as_version(b[:-2] if star else b)
    if va is not None and vb is not None:
        return specmodel.clause_allows(f"{op}{b}", a)
    return {"==": a == b, "!=": a != b, "<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[op]


def evaluate(e, env, extras, atoms):
    if e[0] == "cmp":
        _, l, op, r = e
        if ("var", "extra") in (l, r):
            lit = l[1] if r == ("var", "extra") else r[1]
            has = gen.canonical_name(lit) in {gen.canonical_name(x) for x in extras}
            res = has == (op == "==")
        else:
            res = compare(*[env[s[1]] if s[0] == "var" else s[1] for s in (l,)], op, *[env[s[1]] if s[0] == "var" else s[1] for s in (r,)])
        atoms.append(res)
        return res
    a, b = evaluate(e[1], env, extras, atoms), evaluate(e[2], env, extras, atoms)
    return (a and b) if e[0] == "and" else (a or b)


def undefined(e, env):
    """~= on something that is no version is an error by PEP 508; a one-number ~= is illegal"""
    if e[0] == "cmp":
        if e[2] == "~=":
            return any(as_version(env[s[1]] if s[0] == "var" else s[1]) is None for s in (e[1], e[3]))
        if e[2] == "===":
            a, b = env[e[1][1]], e[3][1]
            va, vb = as_version(a), as_version(b)
            return va is not None and va == vb and a != b
        return False
    return undefined(e[1], env) or undefined(e[2], env)


case = tree().flatmap(lambda e: st.tuples(st.just(e), text_of(e), envs(), st.lists(st.sampled_from(EXTRAS), max_size=3)))


@CHECK.test("evaluation", case, quick=9000, thorough=200000)
def evaluation(c, t):
    e, text, env, extras = c
    if undefined(e, env):
        t.label("undefined")
        return
    atoms = []
    want = evaluate(e, env, extras, atoms)
    t.nontrivial(len(atoms) > 1 and len(set(atoms)) == 2)
    t.label(want)
    m = EnvironmentMarker.parse_pep508(text)
    stub = SimpleNamespace(markers=env)
    got = m.evaluate_on(stub, list(extras))
    t.eq(bool(got), want, f"{text!r} with extras {extras}")
    t.eq(bool(EnvironmentMarker.parse_pep508(str(m)).evaluate_on(stub, list(extras))), want, f"printed marker {str(m)!r} with extras {extras}")
    d = Dependency.parse(f"pkg >=1 ; {text}")
    t.eq(bool(d.is_applicable_for(stub, list(extras))), want, f"applicability of {str(d)!r}")
    t.check(Dependency.parse("pkg>=1").is_applicable_for(stub, list(extras)), "a requirement without a marker is not applicable")
