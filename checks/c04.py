"""C04: the algebra of specifiers is the algebra of the sets they denote. Oracle: pointwise boolean evaluation of the expression
over reference membership (packaging order) on versions at, between and next to all bounds."""
from hypothesis import strategies as st

import gen
import specmodel
from vlib import Check
from pkm.api.versions.version import Version
from pkm.api.versions.version_specifiers import VersionSpecifier, AllowAllVersions, RestrictAllVersions

CHECK = Check("C04", "expression trees over parsed specifiers whose bounds come from a small pool, evaluated on all versions at and between the "
                     "bounds; non-trivial = the expression has an operator and splits the probe versions into allowed and not allowed",
              assumptions=["probe versions are neither post-releases nor local (pkm's ranges deliberately exclude post-releases unless the lower bound is one)"])

point = st.tuples(st.none(), st.tuples(st.integers(1, 3), st.integers(0, 3)).map(lambda p: p[:1] if p[1] == 3 else p),
                  st.one_of(st.none(), st.none(), st.none(), st.tuples(st.sampled_from(["a", "rc"]), st.integers(0, 1))),
                  st.none(), st.one_of(st.none(), st.none(), st.none(), st.sampled_from([1, 3])), st.none()).map(gen.vstr)


@st.composite
def atoms(draw, pool, exotic):
    k = draw(st.integers(0, 11))
    v = st.sampled_from(pool)
    if k <= 3:
        return draw(st.sampled_from([">", ">=", "<", "<="])) + draw(v)
    if k <= 5:
        a, b = draw(v), draw(v)
        return draw(st.sampled_from([">", ">="])) + a + "," + draw(st.sampled_from(["<", "<="])) + b
    if k <= 7:
        return "==" + draw(v)
    if k <= 9:
        return "!=" + draw(v)
    if k == 10:
        clauses = draw(st.lists(st.tuples(st.sampled_from([">=", "<", "!=", "!=", "<=", ">"]), v).map("".join), min_size=1, max_size=4))
        return ",".join(clauses)
    if exotic:
        return draw(st.sampled_from(["===foo", "===bar", "*", "<none>"]))
    w = draw(v)
    base = ".".join(map(str, specmodel.R(w).release))
    if draw(st.booleans()):
        return draw(st.sampled_from(["==", "!="])) + base + ".*"
    return "~=" + base + (".0" if "." not in base else "")


def trees(atom):
    return st.recursive(atom.map(lambda a: ("p", a)), lambda c: st.one_of(
        st.tuples(st.sampled_from(["and", "or", "or", "sub"]), c, c), st.tuples(st.just("not"), c)), max_leaves=6)


@st.composite
def standard_case(draw):
    pool = draw(st.lists(point, min_size=2, max_size=5, unique=True))
    exotic = draw(st.integers(0, 3)) == 0
    tree = trees(atoms(pool, exotic))
    return pool, draw(tree), draw(tree)


def parse(a):
    if a == "<none>":
        return RestrictAllVersions
    return VersionSpecifier.parse(a)


def build(e):
    if e[0] == "p":
        return parse(e[1])
    if e[0] == "not":
        return build(e[1]).inverse()
    a, b = build(e[1]), build(e[2])
    return a.intersect_with(b) if e[0] == "and" else a.union_with(b) if e[0] == "or" else a.difference_from(b)


def truth(e, v):
    if e[0] == "p":
        if e[1] == "<none>":
            return False
        if e[1].startswith("==="):
            return e[1][3:] == v
        return specmodel.spec_allows(e[1], v)
    if e[0] == "not":
        return not truth(e[1], v)
    a, b = truth(e[1], v), truth(e[2], v)
    return (a and b) if e[0] == "and" else (a or b) if e[0] == "or" else (a and not b)


def leaves(e):
    return [e[1]] if e[0] == "p" else [x for s in e[1:] for x in leaves(s)]


def well_formed(e):
    """bounds of every 'lower, upper' atom form a range or an empty set; always true for the model, parse must cope"""
    return True


def probes(exprs, pool):
    """every bound, a version between any two neighbouring bounds, and both ends"""
    vs = {specmodel.R(v) for v in pool}
    for e in exprs:
        for a in leaves(e):
            for c in ([] if a.startswith(("===", "<none")) else a.split(",")):
                m = specmodel.CLAUSE.match(c)
                if m:
                    vs.add(specmodel.R(m[2]))
                    if m[3] or m[1] == "~=":
                        vs.add(specmodel.next_prefix(m[2], 0 if m[3] else 1))
    out = {str(v) for v in vs}
    for v in vs:
        e = f"{v.epoch}!" if v.epoch else ""
        r = ".".join(map(str, v.release))
        # just above v, just below v
        out.add(f"{e}{r}.0.0.1" if not v.pre and v.dev is None else f"{e}{r}{''.join(map(str, v.pre)) if v.pre else ''}" + (f".dev{v.dev + 1}" if v.dev is not None else ""))
        if v.dev is None:
            out.add(f"{e}{r}{''.join(map(str, v.pre)) if v.pre else ''}.dev5")
        elif v.dev:
            out.add(f"{e}{r}{''.join(map(str, v.pre)) if v.pre else ''}.dev{v.dev - 1}")
        if v.pre:
            out.add(f"{e}{r}{v.pre[0]}{v.pre[1] + 1}")
    out |= {"0.dev0", "999"}
    return sorted(out, key=specmodel.R)


def snapshot(s):
    return str(s)


@CHECK.test("pointwise", standard_case(), quick=7000, thorough=200000)
def pointwise(case, t):
    pool, e1, e2 = case
    ps = probes([e1, e2], pool)
    a, b = build(e1), build(e2)
    sa, sb = str(a), str(b)
    inter, union, diff, inv = a.intersect_with(b), a.union_with(b), a.difference_from(b), a.inverse()
    all_, any_ = a.allows_all(b), a.allows_any(b)
    t.eq((str(a), str(b)), (sa, sb), "operands changed by a set operation")
    seen = set()
    t.label(e1[0])
    for v in ps:
        pv = Version.parse(v)
        ta, tb = truth(e1, v), truth(e2, v)
        seen.add((ta, tb))
        t.eq(bool(a.allows_version(pv)), ta, f"A={e1} as {a} allows {v}")
        t.eq(bool(b.allows_version(pv)), tb, f"B={e2} as {b} allows {v}")
        t.eq(bool(inter.allows_version(pv)), ta and tb, f"[{a}] and [{b}] = [{inter}] allows {v}")
        t.eq(bool(union.allows_version(pv)), ta or tb, f"[{a}] or [{b}] = [{union}] allows {v}")
        t.eq(bool(diff.allows_version(pv)), ta and not tb, f"[{a}] minus [{b}] = [{diff}] allows {v}")
        t.eq(bool(inv.allows_version(pv)), not ta, f"not [{a}] = [{inv}] allows {v}")
        if all_:
            t.check(ta or not tb, f"[{a}] claims to allow all of [{b}], but not {v}")
        if not any_:
            t.check(not (ta and tb), f"[{a}] claims to allow none of [{b}], but both allow {v}")
    t.check(a.allows_all(a) or not any(x for x, _ in seen), f"[{a}] claims not to allow all of itself")
    t.nontrivial(e1[0] != "p" and len({x for x, _ in seen}) == 2)
    if (True, True) not in seen and not leaves_exotic(e1, e2):
        # no version (at, between or beyond the bounds) is in both
        t.label("disjoint")
        t.check(not any_, f"[{a}] claims to allow some of [{b}]")


def leaves_exotic(*es):
    return any(l.startswith("===") for e in es for l in leaves(e))


any_kind = st.sampled_from(["1.0", "1.1", "2.0a1", "foo", "bar", "https://h/a.whl", "git+https://h/R"])


@st.composite
def match_atoms(draw):
    v = draw(any_kind)
    neg = draw(st.booleans())
    return ("!" if neg else "=", v)


def mtrees():
    return st.recursive(match_atoms(), lambda c: st.one_of(
        st.tuples(st.sampled_from(["and", "or", "sub"]), c, c), st.tuples(st.just("not"), c)), max_leaves=6)


def mspec(v):
    if "://" in v:
        return VersionSpecifier.parse("@ " + v)
    if v[0].isalpha():
        return VersionSpecifier.parse("===" + v)
    return VersionSpecifier.parse("==" + v)


def mbuild(e):
    if e[0] in "!=":
        s = mspec(e[1])
        return s.inverse() if e[0] == "!" else s
    if e[0] == "not":
        return mbuild(e[1]).inverse()
    a, b = mbuild(e[1]), mbuild(e[2])
    return a.intersect_with(b) if e[0] == "and" else a.union_with(b) if e[0] == "or" else a.difference_from(b)


def mtruth(e, v):
    if e[0] in "!=":
        return (v == e[1]) == (e[0] == "=")
    if e[0] == "not":
        return not mtruth(e[1], v)
    a, b = mtruth(e[1], v), mtruth(e[2], v)
    return (a and b) if e[0] == "and" else (a or b) if e[0] == "or" else (a and not b)


@CHECK.test("exact matches of any kind", st.tuples(mtrees(), mtrees()), quick=4000, thorough=60000)
def matches(case, t):
    e1, e2 = case
    a, b = mbuild(e1), mbuild(e2)
    all_, any_ = a.allows_all(b), a.allows_any(b)
    both = False
    for v in ["1.0", "1.1", "2.0a1", "3.0", "foo", "bar", "other", "https://h/a.whl", "git+https://h/R", "https://h/b.whl"]:
        pv = Version.parse(v)
        ta, tb = mtruth(e1, v), mtruth(e2, v)
        both |= ta and tb
        t.eq(bool(a.allows_version(pv)), ta, f"A={e1} as {a} allows {v}")
        t.eq(bool(b.allows_version(pv)), tb, f"B={e2} as {b} allows {v}")
        if all_:
            t.check(ta or not tb, f"[{a}] claims to allow all of [{b}], but not {v}")
        if not any_:
            t.check(not (ta and tb), f"[{a}] claims to allow none of [{b}], but both allow {v}")
    t.eq(bool(any_), both, f"[{a}] allows any of [{b}]")
    t.nontrivial(e1[0] not in "!=" and both)


def local_cases(tier):
    bounds = [b + w for w in ("1.0", "0.9", "7") for b in ("<=", ">=", "<", ">", "==", "!=")] + ["==1.0+loc", "!=1.0+loc", "==1.0+abc", "!=1.0+abc"]
    return [(a, b, x, "1.0") for a in ("==1.0", "!=1.0", "==1.0+loc", "!=1.0+loc") for b in bounds
            for x in ("1.0", "1.0+loc", "0.5", "0.9", "1.1", "7", "7.1", "7.0+loc")]


@CHECK.test("local builds next to a bound", cases=local_cases)
def local_builds(case, t):
    a_, b_, v, base = case
    a, b, pv = VersionSpecifier.parse(a_), VersionSpecifier.parse(b_), Version.parse(v)
    ta, tb = specmodel.spec_allows(a_, v), specmodel.spec_allows(b_, v)
    t.nontrivial(v.startswith(base + "+"))
    t.eq(bool(a.allows_version(pv)), ta, f"[{a}] allows {v}")
    t.eq(bool(b.allows_version(pv)), tb, f"[{b}] allows {v}")
    wrong = []
    for op, want, got in [("and", ta and tb, a.intersect_with(b)), ("or", ta or tb, a.union_with(b)), ("minus", ta and not tb, a.difference_from(b))]:
        if bool(got.allows_version(pv)) != want:
            wrong.append(f"[{a}] {op} [{b}] = [{got}] allows {v}: {not want}")
    if wrong:
        t.fail("; ".join(wrong), key=f"{a_} with {b_} on {v}")
