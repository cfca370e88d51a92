"""C05: PEP 508 requirements. Oracle: the generated structure (parts in, parts out), reference membership of specifiers, parse/print/parse
equality; packaging.requirements decides which mutated texts are illegal."""
import re

from hypothesis import strategies as st
from packaging.requirements import Requirement, InvalidRequirement

import gen
import specmodel
from checks.c03 import clause, near, plain, bound
from vlib import Check
from pkm.api.dependencies.dependency import Dependency
from pkm.api.versions.version import Version
from pkm.api.versions.version_specifiers import VersionSpecifier

CHECK = Check("C05", "requirements generated from the PEP 508 grammar; non-trivial = has at least two of: extras, version clauses / url, marker",
              assumptions=["packaging.requirements decides legality of mutated texts"])

ws = st.sampled_from(["", "", " ", "  ", "\t"])
ident = st.one_of(gen.package_names(), st.sampled_from(["a", "A", "7zip", "2to3", "zope.interface", "Foo_Bar", "x-y.z", "3d"]))
url = st.builds(lambda s, u, h, p, f: f"{s}{u}{h}/{p}{f}", st.sampled_from(["https://", "http://", "git+https://", "git+ssh://", "file:///"]),
                st.sampled_from(["", "", "user@", "user:pw@"]), st.sampled_from(["host.org", "h:8080", "EXAMPLE.com"]),
                st.sampled_from(["a.whl", "Path/To/Pkg-1.0.tar.gz", "r.git@v1.0", "x?q=1&r=A"]), st.sampled_from(["", "#egg=Foo", "#sha256=00Ff"]))
MV = ["os_name", "sys_platform", "platform_machine", "python_version", "python_full_version", "implementation_name", "platform_python_implementation",
      "platform_release", "platform_system", "platform_version", "implementation_version"]
STR = st.sampled_from(["linux", "3.8", "x86_64", "Linux", "Jython", "a b", "it's", "JIT", "posix", "#1 SMP (x)", "1.0.0", "é"])


@st.composite
def quoted(draw, s):
    q = "'" if '"' in s else '"' if "'" in s else draw(st.sampled_from("'\""))
    return q + s + q


@st.composite
def markers(draw, depth=2):
    if depth and draw(st.integers(0, 2)) == 0:
        a, b = draw(markers(depth - 1)), draw(markers(depth - 1))
        op = draw(st.sampled_from([" and ", " or ", "  and\t"]))
        s = a + op + b
        return f"({s})" if draw(st.booleans()) else s
    if draw(st.integers(0, 4)) == 0:
        w = draw(ws)
        return f"extra{w}=={draw(ws)}" + draw(quoted(draw(st.sampled_from(["dev", "test", "Foo_Bar"]))))
    var = draw(st.sampled_from(MV))
    val = draw(quoted(draw(STR)))
    if draw(st.integers(0, 3)) == 0:
        op = draw(st.sampled_from(["in", "not in", "not  in"]))
        return f"{var} {op} {val}" if draw(st.booleans()) else f"{val} {op} {var}"
    op = draw(st.sampled_from(["<=", "<", "!=", "==", ">=", ">", "~=", "==="] if re.match(r".\d", val) else ["==", "!="]))
    l, r = draw(st.permutations([var, val]))
    return l + draw(ws) + op + draw(ws) + r


@st.composite
def requirement(draw):
    name = draw(ident)
    extras = draw(st.one_of(st.just([]), st.lists(st.one_of(ident, st.just("dev_x")), min_size=1, max_size=3)))
    canon, u, vs = [], None, []
    text = draw(ws) + name + draw(ws)
    if extras:
        w = st.sampled_from(["", "", " "])
        text += "[" + ",".join(draw(w) + e + draw(w) for e in extras) + "]" + draw(ws)
    k = draw(st.integers(0, 5))
    if k == 0:
        u = draw(url)
        text += "@" + draw(ws) + u
    elif k > 1:
        base = draw(st.one_of(bound, plain))
        cs = draw(st.lists(clause(base), min_size=1, max_size=3))
        canon = [c for c, _ in cs]
        spec = ",".join(s for _, s in cs)
        text += f"({spec})" if draw(st.booleans()) else spec
        vs = draw(near(base, False, False))
    marker = draw(st.one_of(st.none(), markers()))
    if marker:
        text += (" " if u else draw(ws)) + ";" + draw(ws) + marker
    text += draw(ws)
    return text, name, extras, canon, u, marker, vs


def norm_marker(m):
    return None if m is None else str(m).strip()


@CHECK.test("parts and round trip", requirement(), quick=8000, thorough=200000)
def parts(case, t):
    text, name, extras, canon, u, marker, vs = case
    t.nontrivial(bool(extras) + bool(canon or u) + bool(marker) >= 2)
    d = Dependency.parse(text)
    texts = [text, str(d)]
    again = Dependency.parse(str(d))
    for x, what in ((d, f"{text!r}"), (again, f"{text!r} printed as {str(d)!r}")):
        t.eq(gen.canonical_name(x.package_name), gen.canonical_name(name), f"package of {what}")
        t.eq([gen.canonical_name(e) for e in x.extras or []], [gen.canonical_name(e) for e in extras], f"extras of {what}")
        t.eq(str(x.required_url()) if x.required_url() else None, u, f"url of {what}")
        t.eq(norm_marker(x.env_marker), marker, f"marker of {what}")
        if not u:
            for v in vs:
                want = all(specmodel.clause_allows(c, v) for c in canon)
                t.eq(bool(x.version_spec.allows_version(Version.parse(v))), want, f"{what}: {x.version_spec} allows {v}")
    t.check(again == d, f"{text!r} printed as {str(d)!r} reads as a different requirement: {str(again)!r}")
    t.check(Dependency.parse(text) == d, f"two readings of {text!r} differ")
    t.eq(str(again), str(d), "second print")


@st.composite
def broken(draw):
    text = draw(requirement())[0]
    k = draw(st.integers(0, 6))
    i = draw(st.integers(0, len(text)))
    if k == 0:
        return text + draw(st.sampled_from([" foo", " 1.0", " >", "]", " ; ", ";", ",", " ;python_version>'3' x", " )"]))
    if k == 1:
        return text[:i]
    if k == 2:
        return text.replace(draw(st.sampled_from(["[", "]", "(", ")", ",", "==", ">=", "'", '"', ";", " and ", " or "])), "", 1)
    if k == 3:
        return draw(st.sampled_from(["", "[a]", ">=1", "@ https://x", ";os_name=='a'", "-x", "_x", "a-", "a b", "a 1.0", "a =1.0", "a ===", "a >=", "a[", "a[x", "a[x,,y]", "a (>=1"]))
    if k == 4:
        return text[:i] + draw(st.sampled_from(["!", " ", "$", "[", "(", "'", ";;"])) + text[i:]
    return text + draw(st.sampled_from([" and", " garbage ; os_name=='a'"]))


@CHECK.test("illegal texts are rejected", broken(), quick=4000, thorough=100000)
def illegal(case, t):
    try:
        Requirement(case)
        legal = True
    except InvalidRequirement:
        legal = False
    t.label("legal" if legal else "illegal")
    try:
        d = Dependency.parse(case)
    except ValueError:
        return
    if legal:
        return
    if re.search(r",\s*($|;|\))", case) or case.rstrip().endswith(";") or case.strip().startswith("_"):
        t.label("lenient on purpose: trailing comma, empty marker, leading underscore")
        return
    if re.search(r"[=<>~]\s*[('\"]", case.partition(";")[0]):
        t.label("lenient on purpose: wrapped version")
        return
    marker = re.sub(r"'[^']*'|\"[^\"]*\"", " ", str(d.env_marker)) if d.env_marker else ""
    if set(re.findall(r"[A-Za-z_]+", marker)) - {*MV, "extra", "and", "or", "in", "not"}:
        t.label("lenient on purpose: unknown environment variables are reported on evaluation")
        return
    if d.required_url() and "://" not in case:
        t.label("lenient on purpose: local path")
        return
    t.nontrivial()
    t.fail(f"illegal requirement {case!r} was read as {str(d)!r}")
