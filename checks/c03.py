"""C03: specifier texts vs versions. Oracle: specmodel (per clause comparison in packaging's version order, prefix and compatible-release
intervals, pkm's rule on post-releases)."""
import re

from hypothesis import strategies as st

import gen
import specmodel
from packaging.version import Version as Ref
from vlib import Check
from pkm.api.versions.version import Version
from pkm.api.versions.version_specifiers import VersionSpecifier

CHECK = Check("C03", "specifier texts x versions at and next to their bounds; non-trivial = two or more clauses, or a clause with a prefix match, ~=, "
                     "pre/dev/local bound",
              assumptions=["ordered clauses compare in plain PEP 440 order (pkm filters pre-releases later, when candidates are listed)"])

bound = st.tuples(st.one_of(st.none(), st.none(), st.none(), st.sampled_from([0, 1])), gen.release,
                  st.one_of(st.none(), st.none(), gen.pre), st.none(), st.one_of(st.none(), st.none(), st.none(), gen.num), st.none())
plain = st.tuples(st.none(), gen.release, st.none(), st.none(), st.none(), st.none())
ws = st.sampled_from(["", "", "", " ", "  "])


@st.composite
def clause(draw, base, with_local=False, with_post=False):
    """returns (canonical text, spelled text)"""
    k = draw(st.integers(0, 9))
    v = draw(gen.related(base, with_local)) if draw(st.booleans()) else base
    if not with_local:
        v = v[:5] + (None,)
    if not with_post:
        v = v[:3] + (None,) + v[4:]
    star = ""
    if k <= 4:
        op = draw(st.sampled_from([">", ">=", "<", "<="]))
        v = v[:5] + (None,)
    elif k <= 7:
        op = draw(st.sampled_from(["==", "!="]))
        if draw(st.integers(0, 2)) == 0:
            v, star = (v[0], v[1], None, None, None, None), ".*"
    else:
        op = "~="
        v = (v[0], v[1] if len(v[1]) > 1 else v[1] + (0,), v[2], v[3], None, None)
    canon = gen.vstr(v)
    text = draw(gen.spelling(v)).strip() if not star else canon
    return op + canon + star, draw(ws) + op + draw(ws) + text + star + draw(ws)


@st.composite
def near(draw, base, with_local, with_post):
    vs = [base]
    for _ in range(draw(st.integers(2, 6))):
        v = draw(gen.related(draw(st.sampled_from(vs)), with_local))
        vs.append(v)
    out = []
    for v in vs:
        if not with_local:
            v = v[:5] + (None,)
        if not with_post:
            v = v[:3] + (None,) + v[4:]
        out.append(gen.vstr(v))
    return out


@st.composite
def multi(draw):
    base = draw(st.one_of(bound, plain))
    cs = draw(st.lists(clause(base), min_size=1, max_size=4))
    canon = [c for c, _ in cs]
    text = ",".join(s for _, s in cs)
    perm = draw(st.permutations([s for _, s in cs]))
    if draw(st.integers(0, 3)) == 0:
        text = "(" + text + ")"
    return canon, text, ",".join(perm), draw(near(base, False, False))


def rich(canon):
    return len(canon) > 1 or bool(re.search(r"\*|~=|[a-z+]", canon[0]))


@CHECK.test("clauses", multi(), quick=8000, thorough=200000)
def clauses(case, t):
    canon, text, permuted, vs = case
    s1, s2 = VersionSpecifier.parse(text), VersionSpecifier.parse(permuted)
    t.nontrivial(rich(canon))
    got = set()
    for v in vs:
        want = all(specmodel.clause_allows(c, v) for c in canon)
        got.add(want)
        pv = Version.parse(v)
        t.eq(bool(s1.allows_version(pv)), want, f"{text!r} (clauses {canon}, read as {s1}) allows {v}")
        t.eq(bool(s2.allows_version(pv)), want, f"{permuted!r} (clauses {canon}, read as {s2}) allows {v}")
    t.label(f"answers {sorted(got)}")


@st.composite
def single(draw):
    base = draw(gen.version_parts)
    c, text = draw(clause(base, True, True))
    return c, text, draw(near(base, True, True))


@CHECK.test("one clause, any version", single(), quick=6000, thorough=150000)
def one_clause(case, t):
    canon, text, vs = case
    s = VersionSpecifier.parse(text)
    t.nontrivial(rich([canon]))
    op, b, star = specmodel.CLAUSE.match(canon).groups()
    ref = specmodel.R(b)
    for v in vs:
        x = specmodel.R(v)
        want = specmodel.clause_allows(canon, v)
        if x.post is not None and (star or op not in ("==", "!=")):
            if star and op == "!=":
                continue
            # a range admits a post-release only when its lower bound is one, or when it names that very version
            lower_is_post = op in (">", ">=", "~=") and ref.post is not None
            named = x == ref and op in (">=", "<=", "~=")
            want = want and (lower_is_post or named)
        t.eq(bool(s.allows_version(Version.parse(v))), want, f"{text!r} (clause {canon}, read as {s}) allows {v}")


@st.composite
def bounded_post(draw):
    base = draw(plain)
    lo = base[:3] + (draw(st.one_of(st.none(), gen.num)), None, None)
    hi = (None, (base[1][0] + draw(st.integers(0, 2)),) + base[1][1:], None, None, None, None)
    return draw(st.sampled_from([">", ">="])) + gen.vstr(lo), draw(st.sampled_from(["<", "<="])) + gen.vstr(hi), draw(near(base, False, True))


@CHECK.test("post releases in a range", bounded_post(), quick=3000, thorough=60000)
def post(case, t):
    lo, hi, vs = case
    s = VersionSpecifier.parse(lo + "," + hi)
    lref, href = specmodel.R(lo.strip("<=>")), specmodel.R(hi.strip("<=>"))
    if not lref < href:
        return
    for v in vs:
        x = specmodel.R(v)
        want = specmodel.clause_allows(lo, v) and specmodel.clause_allows(hi, v)
        if x.post is not None:
            t.nontrivial()
            want = want and (lref.post is not None or x in (lref, href))
        t.eq(bool(s.allows_version(Version.parse(v))), want, f"{lo},{hi} (read as {s}) allows {v}")


words = st.sampled_from(["foo", "Foo", "master", "2004d", "1.0-SNAPSHOT", "x.y"])


@CHECK.test("arbitrary equality and urls", st.tuples(words, words, st.booleans()), quick=300, thorough=1000)
def arbitrary(case, t):
    a, b, url = case
    t.nontrivial(a != b)
    if url:
        a, b = f"https://h.org/{a}", f"https://h.org/{b}"
        s = VersionSpecifier.parse(f"@ {a}")
    else:
        s = VersionSpecifier.parse(f"==={a}")
    t.eq(bool(s.allows_version(Version.parse(b))), a == b, f"specifier {s} allows {b}")
    t.check(not s.allows_version(Version.parse("1.0")), f"{s} allows 1.0")
    for bound in (">=1.0", "<=1.0", "<1.0", ">0.1", "==1.0", "~=1.2", "!=1.*", "<1.0,>=0.1"):
        t.check(not VersionSpecifier.parse(bound).allows_version(Version.parse(b)), lambda: f"{bound} allows {b}")


@CHECK.test("star and empty", gen.versions, quick=300, thorough=1000)
def star(case, t):
    t.nontrivial()
    t.check(VersionSpecifier.parse("*").allows_version(Version.parse(case)), f"* refuses {case}")
    t.check(VersionSpecifier.parse("===" + case).allows_version(Version.parse(case)), f"==={case} refuses {case}")


@st.composite
def illegal(draw):
    canon, text, _, _ = draw(multi())
    v = draw(gen.versions)
    k = draw(st.integers(0, 9))
    tail = draw(st.sampled_from([" and more", ") ", " ;", "; python_version > '3'", "]", " # comment", " !", " ~=", " =1.0", " 1.0", " <", ",>", ",==", " || >=1", "; >=1", ",,>=1", " @ x", ", 1.0", ", =1.0", ", => 1", ", <>1.0", ", >=x", ", ~=1", ", ==", "(", " >=99, <100", " <0"]))
    if k >= 3:
        return text + tail
    return draw(st.sampled_from([v, "=" + v, "=>" + v, "=<" + v, "<>" + v, "!" + v, "~" + v, "> =" + v, ">=" + v + " " + v, ">=" + v.split("+")[0] + ".x", "<=latest", ">=", "(" + text, text + ")", "^" + v, ">=1.0.*.2", "==*", "~=1", ">=1..2", "==1.", "==1.*.*", "==.1", ">=1.0-", "<v"]))


@CHECK.test("texts that are no specifiers", illegal(), quick=1500, thorough=40000)
def illegal_texts(case, t):
    t.nontrivial()
    try:
        s = VersionSpecifier.parse(case)
    except ValueError:
        return
    t.fail(f"{case!r} was read as {s}")


@CHECK.test("text of a specifier", multi(), quick=4000, thorough=100000)
def text_form(case, t):
    canon, text, _, vs = case
    if any("!=" in c and "*" in c for c in canon):
        t.label("excluded prefix: printed as a union, which only pkm's requirement text supports")
        return
    s = VersionSpecifier.parse(text)
    again = VersionSpecifier.parse(str(s))
    t.nontrivial(rich(canon))
    t.check(again == s, f"{text!r} is printed as {str(s)!r}, which reads as {str(again)!r}")
    for v in vs:
        pv = Version.parse(v)
        t.eq(again.allows_version(pv), s.allows_version(pv), f"{str(s)!r} allows {v}")


@CHECK.test("pre-releases of an excluded bound",
            cases=lambda tier: [(s, v) for s in ("<3.0", "~=2.0", "==2.*", "~=2.9.1", ">=1.0,<3.0", "<3.0rc1", "<=3.0", "==2.9.*")
                                for v in ("3.0.dev1", "3.0a1", "3.0rc1", "2.9.1.dev1", "2.9.1", "2.10.dev1", "3.0", "2.10")])
def bound_prerelease(case, t):
    """PEP 440: an exclusive upper bound that is no pre-release does not admit its own pre-releases"""
    from packaging.specifiers import SpecifierSet
    s, v = case
    want = SpecifierSet(s).contains(v, prereleases=True)
    t.nontrivial(Ref(v).is_prerelease)
    t.eq(VersionSpecifier.parse(s).allows_version(Version.parse(v)), want, f"{s} admits {v}", key=f"{s} {v}")
