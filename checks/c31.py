"""C31: collection helpers. Oracle: the list, dictionary or string expression each helper stands for."""
import random
from types import SimpleNamespace

from hypothesis import strategies as st

from vlib import Check
from pkm.utils import commons, dicts, iterators, sequences, sets, strings
from pkm.utils.commons import NoSuchElementException
from pkm.utils.seqs import Seq, seq

CHECK = Check("C31", "generated lists (with duplicates, Nones, mixed equal values and falsy values) given to every helper as a list, a one-shot iterator and a generator; "
                     "non-trivial = the list has at least two elements", workers=4)

item = st.one_of(st.integers(-2, 4), st.none(), st.sampled_from(["", "a", "b", True, 0.0, (), (1,)]))
items = st.lists(item, max_size=8)
ints = st.lists(st.integers(-3, 3), max_size=8)
KEYS = {"id": lambda x: x, "type": lambda x: type(x).__name__, "len": lambda x: len(str(x)), "const": lambda x: None, "even": lambda x: isinstance(x, int) and x % 2 == 0}
PREDS = {"truthy": bool, "none": lambda x: x is None, "int": lambda x: isinstance(x, int), "never": lambda x: False, "always": lambda x: True, "falsy value": lambda x: [] if x else 0, "big": lambda x: [1] if isinstance(x, int) and x > 1 else ""}


class Source:
    """an iterator that counts what was taken from it"""

    def __init__(self, data):
        self.data, self.taken = list(data), 0

    def __iter__(self):
        return self

    def __next__(self):
        if self.taken >= len(self.data):
            self.taken = len(self.data) + 1
            raise StopIteration
        self.taken += 1
        return self.data[self.taken - 1]


def outcome(f):
    try:
        return "value", f()
    except StopIteration:
        return "error", "StopIteration"
    except Exception as e:
        return "error", type(e).__name__


def sameish(a, b):
    """equal, with equal types (1, True and 1.0 are told apart)"""
    if type(a) != type(b):
        return False
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(map(sameish, a, b))
    if isinstance(a, dict):
        return sameish(list(a.items()), list(b.items()))
    return a == b


def expect(t, name, got, want, detail=""):
    t.check(sameish(got, want), f"{name}{detail}: got {got!r}, expected {want!r}", key=name)


def distinct(xs, key=lambda x: x):
    out, seen = [], []
    for x in xs:
        if key(x) not in seen:
            seen.append(key(x))
            out.append(x)
    return out


def groups(xs, key):
    out = {}
    for x in xs:
        out.setdefault(key(x), []).append(x)
    return out


def single(xs, default):
    return xs[0] if len(xs) == 1 else default


def first_match(xs, p, default):
    return next((x for x in xs if p(x)), default)


def up_to(xs, p):
    """how many elements have to be looked at to find a match"""
    return next((i + 1 for i, x in enumerate(xs) if p(x)), len(xs) + 1)


@CHECK.test("iterators", st.tuples(items, st.sampled_from(sorted(KEYS)), st.sampled_from(sorted(PREDS)), item), quick=2000, thorough=30000)
def check_iterators(case, t):
    xs, k, p, d = case
    key, pred = KEYS[k], PREDS[p]
    t.nontrivial(len(xs) > 1)
    for make in (list, iter, Source, lambda l: (x for x in l)):
        def on(f):
            return outcome(lambda: f(make(xs)))

        expect(t, "groupby", on(lambda i: iterators.groupby(i, key)), ("value", groups(xs, key)), f"({xs}, {k})")
        expect(t, "find_first", on(lambda i: iterators.find_first(i, pred, d)), ("value", first_match(xs, pred, d)), f"({xs}, {p})")
        expect(t, "partition", on(lambda i: iterators.partition(i, pred)), ("value", ([x for x in xs if pred(x)], [x for x in xs if not pred(x)])), f"({xs}, {p})")
        expect(t, "single_or", on(lambda i: iterators.single_or(i, d)), ("value", single(xs, d)), f"({xs})")
        expect(t, "single_or_raise", on(iterators.single_or_raise), ("value", xs[0]) if len(xs) == 1 else ("error", "ValueError"), f"({xs})")
        expect(t, "distinct", on(lambda i: list(iterators.distinct(i))), ("value", distinct(xs)), f"({xs})")
        expect(t, "distinct", on(lambda i: list(iterators.distinct(i, key))), ("value", distinct(xs, key)), f"({xs}, {k})")
        expect(t, "without", on(lambda i: list(iterators.without(i, pred))), ("value", [x for x in xs if not pred(x)]), f"({xs}, {p})")
        expect(t, "without_nones", on(lambda i: list(iterators.without_nones(i))), ("value", [x for x in xs if x is not None]), f"({xs})")
        expect(t, "first", on(lambda i: iterators.first(i, d)), ("value", xs[0] if xs else d), f"({xs})")
        expect(t, "first_or_none", on(iterators.first_or_none), ("value", xs[0] if xs else None), f"({xs})")
        expect(t, "first_or_raise", on(iterators.first_or_raise), ("value", xs[0]) if xs else ("error", "NoSuchElementException"), f"({xs})")
        expect(t, "strs", on(lambda i: list(iterators.strs(i))), ("value", [str(x) for x in xs]), f"({xs})")
        for type_ in (int, str, tuple):
            expect(t, "filter_type", on(lambda i: list(iterators.filter_type(i, type_))), ("value", [x for x in xs if isinstance(x, type_)]), f"({xs}, {type_})")
    # no more is taken than needed, and the lazy ones take nothing in advance
    for name, f, n in (("first", lambda i: iterators.first(i, d), 1), ("first_or_none", iterators.first_or_none, 1), ("find_first", lambda i: iterators.find_first(i, pred), up_to(xs, pred)), ("single_or", iterators.single_or, 2),
                       ("distinct", iterators.distinct, 0), ("without", lambda i: iterators.without(i, pred), 0), ("strs", iterators.strs, 0), ("filter_type", lambda i: iterators.filter_type(i, int), 0)):
        s = Source(xs)
        f(s)
        t.check(s.taken <= min(n, len(xs) + 1), f"{name}({xs}) took {s.taken} elements, {n} are needed", key="consumed " + name)


STEPS = ["map", "flatmap", "map_not_none", "filter", "chain", "unique_by", "unique_by key", "without_first", "limit"]
step = st.tuples(st.sampled_from(STEPS), st.sampled_from(sorted(KEYS)), st.sampled_from(sorted(PREDS)), items, st.integers(0, 5))


def to_list_of(x):
    return [x, x] if isinstance(x, int) else [] if x is None else list(x) if isinstance(x, (str, tuple)) else [x]


def opt(x):
    return None if x in ("", 0, 1) else x


@CHECK.test("seqs", st.tuples(items, st.lists(step, max_size=4), item, items), quick=3000, thorough=40000)
def check_seqs(case, t):
    xs, steps, d, into = case

    def build(i):
        s = seq(i)
        for name, k, p, ys, n in steps:
            if name == "map":
                s = s.map(KEYS[k])
            elif name == "flatmap":
                s = s.flatmap(to_list_of)
            elif name == "map_not_none":
                s = s.map_not_none(opt)
            elif name == "filter":
                s = s.filter(PREDS[p])
            elif name == "chain":
                s = s.chain(iter(ys) if n % 2 else ys)
            elif name == "unique_by":
                s = s.unique_by()
            elif name == "unique_by key":
                s = s.unique_by(KEYS[k])
            elif name == "without_first":
                s = s.without_first(ys[0] if ys else None)
            elif name == "limit":
                s = s.limit(n)
        return s

    ws = list(xs)
    for name, k, p, ys, n in steps:
        if name == "map":
            ws = [KEYS[k](x) for x in ws]
        elif name == "flatmap":
            ws = [y for x in ws for y in to_list_of(x)]
        elif name == "map_not_none":
            ws = [opt(x) for x in ws if opt(x) is not None]
        elif name == "filter":
            ws = [x for x in ws if PREDS[p](x)]
        elif name == "chain":
            ws = ws + ys
        elif name == "unique_by":
            ws = distinct(ws)
        elif name == "unique_by key":
            ws = distinct(ws, KEYS[k])
        elif name == "without_first":
            y = ys[0] if ys else None
            if y in ws:
                i = ws.index(y)
                ws = ws[:i] + ws[i + 1:]
        elif name == "limit":
            ws = ws[:n]
    t.nontrivial(len(xs) > 1 and bool(steps))
    what = f" of {xs} {[(s[0],) for s in steps]}"
    k, p = (steps[0][1], steps[0][2]) if steps else ("type", "int")
    key, pred = KEYS[k], PREDS[p]

    src = Source(xs)
    build(src)
    t.eq(src.taken, 0, "elements taken by building a lazy sequence" + what, key="lazy")
    if not any(s[0] == "chain" for s in steps):
        it = build(iter(xs))
        t.check(iter(it) is it, "a Seq is not an iterator", key="iter")
    same_list = list(into)
    r = build(iter(xs)).to_list(same_list)
    expect(t, "to_list into", r, into + ws, what)
    t.check(r is same_list, f"to_list did not use the given list {into}", key="to_list into")
    expect(t, "to_list", build(iter(xs)).to_list(), ws, what)
    expect(t, "to_list", list(build(xs)), ws, what)
    same_set = set(into)
    r = build(iter(xs)).to_set(same_set)
    t.check(r is same_set and r == set(into) | set(ws), f"to_set into {into}: {r}", key="to_set into")
    t.eq(build(iter(xs)).to_set(), set(ws), "to_set" + what, key="to_set")
    seen = []
    t.eq(build(iter(xs)).for_each(seen.append), None, "for_each")
    expect(t, "for_each", seen, ws, what)
    expect(t, "str_join", build(iter(xs)).str_join("-"), "-".join(map(str, ws)), what)
    expect(t, "reduce", build(iter(xs)).reduce(lambda a, x: a + [x], []), ws, what)
    expect(t, "first_or", build(iter(xs)).first_or(d), ws[0] if ws else d, what)
    expect(t, "first_or_none", build(iter(xs)).first_or_none(), ws[0] if ws else None, what)
    expect(t, "find_or", build(iter(xs)).find_or(pred, d), first_match(ws, pred, d), what)
    expect(t, "find_or_none", build(iter(xs)).find_or_none(pred), first_match(ws, pred, None), what)
    expect(t, "partition_by", build(iter(xs)).partition_by(pred), ([x for x in ws if pred(x)], [x for x in ws if not pred(x)]), what)
    expect(t, "partition_by_type", build(iter(xs)).partition_by_type(int), ([x for x in ws if isinstance(x, int)], [x for x in ws if not isinstance(x, int)]), what)
    at = next((i for i, x in enumerate(ws) if pred(x)), None)
    expect(t, "index_of_matching_or_none", build(iter(xs)).index_of_matching_or_none(pred), at, what)
    expect(t, "index_of_matching", outcome(lambda: build(iter(xs)).index_of_matching(pred)), ("value", at) if at is not None else ("error", "NoSuchElementException"), what)
    size = KEYS["len"]
    expect(t, "min_by", outcome(lambda: build(iter(xs)).min_by(size)), ("value", sorted(ws, key=size)[0]) if ws else ("error", "ValueError"), what)
    expect(t, "max_by", outcome(lambda: build(iter(xs)).max_by(size)), ("value", next(x for x in ws if size(x) == max(map(size, ws)))) if ws else ("error", "ValueError"), what)
    expect(t, "min_by_or_none", build(iter(xs)).min_by_or_none(size), sorted(ws, key=size)[0] if ws else None, what)
    expect(t, "max_by_or_none", build(iter(xs)).max_by_or_none(size), next(x for x in ws if size(x) == max(map(size, ws))) if ws else None, what)
    expect(t, "max", outcome(lambda: build(iter(xs)).map(lambda x: len(str(x))).max()), ("value", max(len(str(x)) for x in ws)) if ws else ("error", "ValueError"), what)


@CHECK.test("dicts", st.tuples(st.dictionaries(st.sampled_from(["a", "b", "", "c", 0]), item, max_size=4), st.sampled_from(["a", "b", "", "x", 0]), item, st.sampled_from(sorted(PREDS)), st.lists(st.sampled_from(["a", "", "x", 0]), max_size=3)), quick=1500, thorough=15000)
def check_dicts(case, t):
    d, k, v, p, keys = case
    pred = PREDS[p]
    t.nontrivial(len(d) > 1)

    class Boom(Exception):
        pass

    def run(f, also=None):
        c = dict(d)
        calls = []
        r = outcome(lambda: f(c, lambda: calls.append(1) or v))
        return r, c, len(calls)

    there = k in d
    expect(t, "put_if_absent", run(lambda c, _: dicts.put_if_absent(c, k, v)), (("value", not there), d if there else {**d, k: v}, 0), f"({d}, {k!r}, {v!r})")
    expect(t, "get_or_put", run(lambda c, f: dicts.get_or_put(c, k, f)), (("value", d[k] if there else v), d if there else {**d, k: v}, 0 if there else 1), f"({d}, {k!r})")
    expect(t, "get_or_compute", run(lambda c, f: dicts.get_or_compute(c, k, f)), (("value", d[k] if there else v), d, 0 if there else 1), f"({d}, {k!r})")
    expect(t, "get_or_raise", run(lambda c, f: dicts.get_or_raise(c, k, lambda: Boom())), (("value", d[k]) if there else ("error", "Boom"), d, 0), f"({d}, {k!r})")
    expect(t, "without_keys", run(lambda c, _: dicts.without_keys(c, *keys)), (("value", {a: b for a, b in d.items() if a not in keys}), d, 0), f"({d}, {keys})")
    left = {a: b for a, b in d.items() if b is not None}
    r, c, _ = run(lambda c, _: dicts.remove_none_values(c))
    expect(t, "remove_none_values", (r, c), (("value", left), left), f"({d})")
    c = dict(d)
    t.check(dicts.remove_none_values(c) is c, "remove_none_values gives another dictionary", key="remove_none_values")
    left = {a: b for a, b in d.items() if not b == v}
    expect(t, "remove_by_value", run(lambda c, _: dicts.remove_by_value(c, v))[:2], (("value", left), left), f"({d}, {v!r})")
    left = {a: b for a, b in d.items() if not pred(b)}
    expect(t, "remove_by_value", run(lambda c, _: dicts.remove_by_value(c, match=pred))[:2], (("value", left), left), f"({d}, {p})")
    s = set(d)
    expect(t, "add_if_absent", sets.add_if_absent(s, k), not there, f"({d}, {k!r})")
    t.eq(s, {*d, k}, "the set after add_if_absent", key="add_if_absent")
    calls = []
    expect(t, "unone", commons.unone(v, lambda: calls.append(1) or "default"), "default" if v is None else v, f"({v!r})")
    t.eq(len(calls), int(v is None), "calls of the default of unone", key="unone")
    expect(t, "unone_raise", outcome(lambda: commons.unone_raise(v)), ("error", "ValueError") if v is None else ("value", v), f"({v!r})")
    expect(t, "take_if", commons.take_if(v, pred), v if pred(v) else None, f"({v!r}, {p})")
    for b in (True, False):
        expect(t, "take_if", commons.take_if(v, b), v if b else None, f"({v!r}, {b})")
    for type_ in (int, str):
        expect(t, "as_instance", commons.as_instance(v, type_), v if isinstance(v, type_) else None, f"({v!r}, {type_})")


@CHECK.test("sequences", st.tuples(items, ints, st.integers(-9, 9), st.integers(0, 9), items, item, st.booleans()), quick=1500, thorough=20000)
def check_sequences(case, t):
    xs, ns, i, n, ys, d, as_tuple = case
    t.nontrivial(len(xs) > 1)
    sq = tuple(xs) if as_tuple else list(xs)
    prefix = xs[:n] if i % 2 else ys
    expect(t, "startswith", sequences.startswith(sq, prefix), xs[:len(prefix)] == list(prefix), f"({xs}, {prefix})")
    if n <= len(xs):
        expect(t, "subiter", list(sequences.subiter(sq, n)), xs[n:], f"({xs}, {n})")
        m = min(abs(i), len(xs) - n)
        expect(t, "subiter", list(sequences.subiter(sq, n, m)), xs[n:n + m], f"({xs}, {n}, {m})")
    if ns:
        expect(t, "argmin", sequences.argmin(ns, None), ns.index(min(ns)), f"({ns})")
        expect(t, "argmax", sequences.argmax(ns, None), ns.index(max(ns)), f"({ns})")
        ks = [x * x for x in ns]
        expect(t, "argmin", sequences.argmin(ns, lambda x: x * x), ks.index(min(ks)), f"({ns}, square)")
        expect(t, "argmax", sequences.argmax(ns, lambda x: x * x), ks.index(max(ks)), f"({ns}, square)")
    expect(t, "index_of_or_none", sequences.index_of_or_none(sq, d), xs.index(d) if d in xs else None, f"({xs}, {d!r})")
    expect(t, "sequences.single_or_raise", outcome(lambda: sequences.single_or_raise(sq)), ("value", xs[0]) if len(xs) == 1 else ("error", "ValueError"), f"({xs})")
    expect(t, "get_or_default", outcome(lambda: sequences.get_or_default(sq, i, d)), ("value", xs[i] if -len(xs) <= i < len(xs) else d), f"({xs}, {i}, {d!r})")
    expect(t, "sequences.strs", sequences.strs(sq), [str(x) for x in xs], f"({xs})")
    stack = list(xs)
    expect(t, "pop_or_none", (sequences.pop_or_none(stack), stack), (xs[-1] if xs else None, xs[:-1]), f"({xs})")


text = st.text("ab.", max_size=6)


@CHECK.test("strings", st.tuples(text, text, st.lists(text, max_size=4)), quick=800, thorough=5000)
def check_strings(case, t):
    s, a, many = case
    t.nontrivial(len(s) > 1 and bool(a))
    expect(t, "without_suffix", strings.without_suffix(s + a, a), s if a else s + a, f"({s + a!r}, {a!r})")
    expect(t, "without_prefix", strings.without_prefix(a + s, a), s, f"({a + s!r}, {a!r})")
    expect(t, "without_suffix", strings.without_suffix(s, a), s[:len(s) - len(a)] if s.endswith(a) else s, f"({s!r}, {a!r})")
    expect(t, "without_prefix", strings.without_prefix(s, a), s[len(a):] if s.startswith(a) else s, f"({s!r}, {a!r})")
    for make in (list, tuple, iter):
        expect(t, "endswith_any", strings.endswith_any(s, make(many)), first_match(many, s.endswith, None), f"({s!r}, {many})")
        expect(t, "startswith_any", strings.startswith_any(s, make(many)), first_match(many, s.startswith, None), f"({s!r}, {many})")
