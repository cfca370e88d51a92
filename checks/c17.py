"""C17: reading TOML. Oracle: Python's own TOML 1.0 reader (tomllib), on documents generated from the grammar and on near misses of them."""
import math
import tomllib
from datetime import date, datetime, time

from hypothesis import strategies as st

from vlib import Check
from pkm.config import toml

CHECK = Check("C17", "documents composed of every kind of value, key, table and comment, with and without a corruption; non-trivial = the document has at "
                     "least three tables or values of different kinds, or it is rejected by exactly one rule (a corrupted valid document)", workers=6)


def convert(value):
    """a pkm value in terms of tomllib's values, the types kept"""
    if isinstance(value, toml.TimeLiteral):
        try:
            return tomllib.loads(f"x = {value}")["x"]
        except ValueError:
            return ("malformed time literal", str(value))
    if isinstance(value, dict):
        return {k: convert(v) for k, v in value.items()}
    if isinstance(value, list):
        return [convert(v) for v in value]
    return value


def same(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, float):
        return math.isnan(a) and math.isnan(b) or (a == b and math.copysign(1, a) == math.copysign(1, b))
    return type(a) is type(b) and a == b


def pick(*xs):
    return st.sampled_from(xs)


ws = pick("", "", "", " ", "  ", "\t")
nl = pick("\n", "\n", "\n", "\n\n", "\r\n", " \n", "\n  ")
COMMENT = "# " + "a comment"
comment = st.one_of(pick("# c", "#", "# [x]", "# a = 1", '# "', "#\tt", "# é", "#'''", "# \\"), st.text("ab#='\"[]\\ ", max_size=6).map(lambda s: "#" + s))
ws_nl_c = st.one_of(ws, ws, nl, st.tuples(nl, comment, nl).map("".join), st.tuples(ws, comment, nl).map("".join))

plain = st.text("abcXYZ019 _-.=#[]{},:/é☃\U0001f600\t", max_size=8)
escape = pick(r"\n", r"\t", r"\\", r"\"", r"\b", r"\f", r"\r", r"\u00e9", r"\u0041", r"\U0001F600", r"\u0000", r"\U0010ffff", r"\ud7ff")
bad_escape = pick(r"\x41", r"\e", r"\u12", r"\ud800", r"\U00110000", r"\'", r"\0", r"\N{BULLET}", r"\a", r"\ ", r"\uDFFF", r"\U0001F60")
basic = st.lists(st.one_of(plain, escape, pick("'")), max_size=4).map(lambda p: '"' + "".join(p) + '"')
literal = st.lists(st.one_of(plain, pick("\\", '"', "\\n", "\\u12", '"""')), max_size=4).map(lambda p: "'" + "".join(p) + "'")
ml_part = st.one_of(plain, pick("\n", "\n", "\r\n", "\n\n"))
ml_basic = st.tuples(pick("", "\n", "\r\n"), st.lists(st.one_of(ml_part, escape, pick("\\\n", "\\\n  \n\t", "\\  \n ", "'", '"', '""', "'''", '\\"""', '\\\r\n  ')), max_size=5), pick("", "", '"', '""')).map(
    lambda p: '"""' + p[0] + "".join(p[1]) + p[2] + '"""')
ml_literal = st.tuples(pick("", "\n", "\r\n"), st.lists(st.one_of(ml_part, pick("\\", "\\\n", '"', "'", "''", '"""')), max_size=5), pick("", "", "'", "''")).map(
    lambda p: "'''" + p[0] + "".join(p[1]) + p[2] + "'''")
string = st.one_of(basic, basic, literal, ml_basic, ml_literal)

digits = st.one_of(pick("0", "1", "12", "1_000", "9_9_9", "99999999999999999999", "5_349_221"), st.integers(0, 10 ** 7).map(str))
sign = pick("", "", "+", "-")
integer = st.one_of(st.tuples(sign, digits).map("".join), pick("0xdead_beef", "0xDEADBEEF", "0o755", "0o01234567", "0b1101_0110", "0x0", "0b0", "-0", "+0"))
exponent = st.tuples(pick("e", "E"), sign, pick("0", "10", "06", "1_0", "3")).map("".join)
fraction = pick(".0", ".5", ".125_5", ".1_2", ".000")
real = st.one_of(st.tuples(sign, digits, fraction).map("".join), st.tuples(sign, digits, exponent).map("".join), st.tuples(sign, digits, fraction, exponent).map("".join),
                 pick("inf", "+inf", "-inf", "nan", "+nan", "-nan", "-0.0", "0e0", "6.626e-34"))
d = pick("1979-05-27", "2000-02-29", "0001-01-01", "9999-12-31", "2021-12-01")
t = st.tuples(pick("00:00:00", "07:32:00", "23:59:59"), pick("", "", ".5", ".999999", ".123")).map("".join)
moment = st.one_of(d, t, st.tuples(d, pick("T", "t", " "), t, pick("", "", "Z", "z", "+00:00", "-07:00", "+23:59")).map("".join))
scalar = st.one_of(string, string, integer, real, moment, pick("true", "false"))

bare = st.one_of(pick("a", "b", "c", "a", "b", "c", "d", "1", "1-2", "_x", "-", "true", "nan", "2020-01-01", "A"), st.text("abcXY01_-", min_size=1, max_size=4))
quoted = st.one_of(pick('"a"', "'a'", '"b"', '""', "''", '"a.b"', "'a b'", r'"\u0061"', "'\"'", '"é"', r'"\""', "'#'", '"="', "']'"), basic, literal)
simple = st.one_of(bare, bare, bare, bare, quoted)
dot = st.tuples(pick("", "", " "), pick("", "", " ", "\t")).map(lambda p: p[0] + "." + p[1])
key = st.one_of(simple, simple, st.tuples(simple, dot, simple).map("".join), st.tuples(simple, dot, simple, dot, simple).map("".join))


def array_text(parts):
    items, trailing, closing = parts
    return "[" + ",".join(a + v + b for a, v, b in items) + (("," + closing) if trailing and items else closing) + "]"


def table_text(items):
    return "{" + ",".join("".join(p) for p in items) + "}"


value = st.recursive(scalar, lambda v: st.one_of(
    st.tuples(st.lists(st.tuples(ws_nl_c, v, ws_nl_c), max_size=4), st.booleans(), ws_nl_c).map(array_text),
    st.lists(st.tuples(ws, key, ws, pick("="), ws, v, ws), max_size=3).map(table_text)), max_leaves=6)
end = st.one_of(nl, nl, nl, st.tuples(ws, comment, nl).map("".join))
assignment = st.tuples(ws, key, ws, pick("="), ws, value, end).map("".join)
header_key = st.one_of(pick("a", "b", "c", "a.b", "a.b.c", "b.c", "a . b", "c.a.b"), key)
header = st.one_of(st.tuples(ws, pick("["), ws, header_key, ws, pick("]"), end).map("".join),
                   st.tuples(ws, pick("[["), ws, header_key, ws, pick("]]"), end).map("".join))
line = st.one_of(assignment, assignment, header, header, st.tuples(ws, comment, nl).map("".join), nl)
document = st.tuples(st.lists(line, max_size=9), st.booleans()).map(lambda p: "".join(p[0]) if p[1] else "".join(p[0]).rstrip("\r\n"))

JUNK = ["=", "[", "]", "[[", "]]", "{", "}", ",", ".", "#", '"', "'", '"""', "'''", "\n", "\r", "\x00", "\x1f", "\x7f", "\x0b", "\x0c", "\xa0", "\u2028", " ", "\\", "_", "-", "+", "0", "e", "x", "true", "a", "é",
        "\t", ":", "\r\n", "\ufeff", "nan", "''", '""', "\u0663", "²"]
bad_scalar = pick("01", "1__0", "_1", "1_", "+0x1", "0xg", "0o8", "0b2", "1.", ".5", "1.e5", "1_.5", "1._5", "e5", "1e", "1e+", "--1", "+ 1", "True", "FALSE", "Inf", "NaN", "infinity", "1979-13-01", "1979-02-30", "24:00:00", "07:32",
                  "1979-05-27T", "1979-05-27T07:32", "1979-05-27 07:60:00", "1979-05-27T07:32:00+25:00", "07:32:00Z", "07:32:00.", "1979-5-27", "2020-01-01 x", "a", "truefalse", "tru", "1 2", "0X1", "0B1", "- 1", "1,2", "", "nul",
                  "1979-05-27  07:32:00", "١", "+", "-", "0x", "0_1", "-01", "00", "1e1_", "1979-05-27T07:32:00+1:00", "in", "i", "n", "f", "t", "[1,,2]", "[,]", "[,1]", "[1 2]", "{,}", "{a=1,}", "{a=1,,b=2}", "{a=1 b=2}", "{a=1\n}", "{a}", "{a=}",
                  "{a=1,a=2}", "{a={},a.b=1}", "{a.b=1,a={}}", "{a=1 # c\n}", "[", "{", "[1", "{a=1", '"a\nb"', "'a\nb'", '"a', "'a", '"""a', "'''a''", '"""a"""b', '"a" "b"', '""""""""', "''''''''", "[1]]", "{}}", "\"\\x41\"")
PAIRS = ["a=1\na=2\n", "[a]\n[a]\n", "a=1\n[a]\n", "[a]\nb=1\n[a.b]\n", "a={}\n[a.b]\n", "a={}\na.b=1\n", "a=[]\n[[a]]\n", "[[a]]\n[a]\n", "[a]\n[[a]]\n", "a.b=1\n[a]\n", "a.b=1\na.b.c=2\n", "a.b.c=1\na.b=2\n", "[a.b]\n[a]\nb.c=1\n",
         "[a.b.c]\n[a]\nb.x=1\n", "[[a.b]]\n[a]\nb.y=2\n", "[a]\nb.c=1\n[a.b]\n", "[a]\nb.c=1\n[[a.b]]\n", "a=[{}]\n[a.b]\n", "a=[{b=1}]\n[[a]]\n", "[[a]]\n[[a.b]]\n[a.b]\n", "[[a]]\nb={}\n[a.b.c]\n", "[a]\nb={}\n[[a.b]]\n", "[[a]]\n[a.b]\n[a.b]\n",
         "[a\nb]\n", "[a]b=1\n", "[[a] ]\n", "[ [a]]\n", "[]\n", "[[]]\n", "[a.]\n", "[.a]\n", "[a..b]\n", "=1\n", "a\n", "a=\n", "a=\n1\n", "a\n=1\n", "a b=1\n", "a=1 b=2\n", "a=1,\n", '"""a"""=1\n', "'''a'''=1\n", "a.=1\n", ".a=1\n", "a..b=1\n", "é=1\n", "a=1]\n", "[a]]\n",
         "[[a]\n", "[a] [b]\n", "[[a.b]]\n[[a]]\n", "[a]\n[a.b]\n[[a.b.c]]\n[a.b.c.d]\n[a.b.c]\n", '"a\n"=1\n', "a=1\rb=2\n", "'a\\'=1\n'a\\'=2\n", "\"a\"=1\n'a'=2\n", "1.2=3\n1.4=5\n1=2\n", "{a=1}\n", "1\n", '"a"\n', "[a]\n=1\n",
         # legal ones
         "[a.b]\n[a]\n", "[a.b]\n[a]\nc=1\n", "a.b=1\na.c=2\n", "a.b=1\n[a.c]\n", "[a]\nb.c=1\n[a.b.d]\n", "[[a]]\n[a.b]\n[[a]]\n[a.b]\n", "[[a]]\n[[a.b]]\n[[a.b]]\n[[a]]\n[[a.b]]\n", "[a.b.c]\n[a.b]\n[a]\n", "[a]\n[b]\n[a.c]\n", "[[a.b]]\n[a]\nc=1\n",
         "1.2=3\n1.4=5\n", "a.b.c=1\na.b.d=2\na.e=3\n", "[[a]]\nb.c=1\nb.d=2\n", "[ a . 'b' ]\n", "[[ a ]]\n", "a={b.c=1,b.d=2}\n"]
pair = pick(*PAIRS)
near_miss = st.one_of(
    st.tuples(document, st.integers(0, 400), st.sampled_from(JUNK)).map(lambda p: p[0][:p[1]] + p[2] + p[0][p[1]:] if p[1] < len(p[0]) else p[0] + p[2]),
    st.tuples(document, st.integers(0, 400), st.integers(1, 4)).map(lambda p: p[0][:p[1] % (len(p[0]) + 1)] + p[0][p[1] % (len(p[0]) + 1) + p[2]:]),
    st.tuples(document, st.integers(0, 400)).map(lambda p: p[0][:p[1] % (len(p[0]) + 1)]),
    st.tuples(st.lists(line, max_size=3).map("".join), key, bad_scalar, st.lists(line, max_size=2).map("".join)).map(lambda p: f"{p[0]}{p[1]} = {p[2]}\n{p[3]}"),
    st.tuples(st.lists(line, max_size=2).map("".join), pair, st.lists(line, max_size=2).map("".join)).map("".join),
    st.tuples(pair, pair).map("".join),
    st.tuples(key, bad_escape, pick('"', '"""')).map(lambda p: f"{p[0]} = {p[2]}a{p[1]}b{p[2]}\n"),
)


def reference(text):
    try:
        return tomllib.loads(text), None
    except ValueError as e:
        return None, str(e)


def kinds(value):
    if isinstance(value, dict):
        return {"table"}.union(*(kinds(v) for v in value.values()))
    if isinstance(value, list):
        return {"array"}.union(*(kinds(v) for v in value))
    return {type(value).__name__}


def verify(text, t):
    expected, error = reference(text)
    t.label("valid" if error is None else "invalid")
    try:
        actual = toml.loads(text)[0]
    except ValueError as e:
        t.check(error is not None, f"the valid document {text!r} is rejected: {str(e)[:80]}", key="rejected")
        return
    except RecursionError:
        t.fail(f"reading {text!r} recurses endlessly", key="recursion")
        return
    t.check(error is None, f"the invalid document {text!r} ({error}) is read as {actual!r}", key="misread")
    t.check(same(convert(actual), expected), f"the document {text!r} is read as {actual!r} instead of {expected!r}", key="value")


@CHECK.test("document", document, quick=2500, thorough=60000)
def check_document(text, t):
    expected, error = reference(text)
    t.nontrivial(error is None and len(kinds(expected)) >= 4)
    verify(text, t)


@CHECK.test("near-miss", near_miss, quick=3500, thorough=80000)
def check_near_miss(text, t):
    t.nontrivial(reference(text)[1] is not None)
    verify(text, t)


@CHECK.test("value", st.tuples(value, ws, end).map(lambda p: f"k ={p[1]}{p[0]}{p[2]}z=1"), quick=2500, thorough=60000)
def check_value(text, t):
    expected, error = reference(text)
    t.nontrivial(error is None and len(kinds(expected)) >= 3)
    verify(text, t)


@CHECK.test("pairs", cases=lambda tier: [a + b for a in PAIRS for b in ["", *PAIRS]])
def check_pairs(text, t):
    t.nontrivial(True)
    verify(text, t)
