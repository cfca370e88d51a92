"""C08: resolve_dependencies on whole requirements (extras, markers, overrides, spellings of names).
Oracle: exhaustive search over the version assignments of the packages that the requirements reach."""
from types import SimpleNamespace

from hypothesis import strategies as st
from packaging.version import Version as Ref

import gen
import specmodel
from vlib import Check
from pkm.api.dependencies.dependency import Dependency
from pkm.api.packages.package import PackageDescriptor
from pkm.api.packages.standard_package import AbstractPackage, PackageArtifact
from pkm.api.repositories.repository import AbstractRepository
from pkm.api.versions.version import Version
from pkm.resolution.dependency_resolver import resolve_dependencies
from pkm.resolution.pubgrub import UnsolvableProblemException

CHECK = Check("C08", "universes of 2-6 packages with extras, markers, overrides and differently spelled names; non-trivial = the result depends on an extra, "
                     "a marker, an override or a respelled name (resolving without it gives another answer) or a wish had to be given up", workers=7)

PKGS = ["foo", "my-pkg", "bar-x", "zed", "a-b-c", "qux"]
SPELL = {"foo": ["foo", "Foo", "FOO"], "my-pkg": ["my-pkg", "My_Pkg", "my.pkg", "MY-PKG", "my__pkg"], "bar-x": ["bar-x", "bar_x", "Bar.X"],
         "zed": ["zed", "ZED"], "a-b-c": ["a-b-c", "a_b_c", "a.b-c", "A_b.C", "a-_b.c"], "qux": ["qux", "Qux"]}
VERS = ["0.9", "1.0", "1.1", "1.5", "2.0", "3.0"]
EXTRAS = ["x", "y", "Full"]
MARKERS = {  # text -> (holds without extras, extra it needs)
    "": (True, None), 'python_version >= "3.6"': (True, None), 'sys_platform == "win32"': (False, None),
    'sys_platform == "linux" or os_name == "nt"': (True, None), 'python_version < "3.8" and sys_platform == "linux"': (False, None),
    **{f'extra == "{e}"': (True, e) for e in EXTRAS},
    **{f'extra == "{e}" and sys_platform == "linux"': (True, e) for e in EXTRAS},
    **{f'"{e}" == extra and sys_platform == "darwin"': (False, e) for e in EXTRAS},
    **{f'(python_version > "3") and extra == "{e}"': (True, e) for e in EXTRAS[:2]},
}
ENV = SimpleNamespace(markers={"python_version": "3.10", "python_full_version": "3.10.4", "sys_platform": "linux", "os_name": "posix"},
                      interpreter_version=Version.parse("3.10.4"), compatibility_tag_score=lambda tag: 1)
TARGET = SimpleNamespace(env=ENV)


@st.composite
def specs(draw):
    k = draw(st.integers(0, 8))
    v = draw(st.sampled_from(VERS))
    if k <= 2:
        return ""
    return draw(st.sampled_from([">=", "<=", "<", ">", "==", "!=", ">=", "<="])) + v


@st.composite
def requirement(draw, names, plain=()):
    p = draw(st.sampled_from(names))
    extras = []
    if p not in plain and draw(st.integers(0, 2)) == 0:
        extras = draw(st.lists(st.sampled_from(EXTRAS), min_size=1, max_size=2, unique=True))
    marker = draw(st.sampled_from([""] * 6 + list(MARKERS) * 1))
    return (p, draw(st.sampled_from(SPELL[p])), extras, draw(specs()), marker)


@st.composite
def cases(draw):
    n = draw(st.integers(2, 6))
    names = PKGS[:n]
    overrides = {}
    if draw(st.integers(0, 2)) == 0:
        p = draw(st.sampled_from(names))
        overrides[p] = (draw(st.sampled_from(SPELL[p])), draw(specs()))
    pk = {}
    for p in names:
        vs = sorted(draw(st.lists(st.sampled_from(VERS), min_size=1, max_size=3, unique=True)), key=Ref, reverse=True)
        deps, out = None, []
        for v in vs:
            if deps is None or draw(st.integers(0, 2)):
                deps = draw(st.lists(requirement(names, overrides), min_size=0, max_size=3))
                deps = [d for d in deps if d[0] != p or d[2]]
            out.append((v, deps))
        pk[p] = (draw(st.sampled_from(SPELL[p])), out)
    root = draw(st.lists(requirement(names, overrides), min_size=1, max_size=3))
    root_extras = draw(st.sampled_from([[], [], ["x"], ["x", "y"]]))
    return {"packages": pk, "root": root, "root_extras": root_extras, "overrides": overrides}


def norm(e):
    return e.lower()


def req_text(r):
    p, spelling, extras, spec, marker = r
    return spelling + (f"[{','.join(extras)}]" if extras else "") + spec + (f"; {marker}" if marker else "")


def applicable(r, extras):
    holds, extra = MARKERS[r[4]]
    return holds and (extra is None or norm(extra) in {norm(x) for x in extras})


def deps_of(case, p, v, extras):
    deps = case["root"] if p == "root" else dict(case["packages"][p][1])[v]
    out = []
    for r in deps:
        if applicable(r, extras):
            spec = case["overrides"][r[0]][1] if r[0] in case["overrides"] else r[3]
            out.append((r[0], tuple(r[2]), spec))
    return out


def closure(case, assign):
    """needed packages, or (a package without a version yet), or None if a requirement is violated"""
    seen, todo = set(), [("root", frozenset(case["root_extras"]))]
    while todo:
        node = todo.pop()
        if node in seen:
            continue
        seen.add(node)
        p, extras = node
        if p not in assign:
            return p
        for q, ex, spec in deps_of(case, p, assign[p], extras):
            if q in assign and spec and not specmodel.spec_allows(spec, assign[q]):
                return None
            todo.append((q, frozenset(ex)))
    return {p for p, _ in seen}


def solvable(case, assign=None):
    assign = assign or {"root": "1.0"}
    c = closure(case, assign)
    if c is None:
        return None
    if isinstance(c, set):
        return {p: assign[p] for p in c}
    for v, _ in case["packages"].get(c, (None, []))[1]:
        if (s := solvable(case, {**assign, c: v})) is not None:
            return s
    return None


class Pkg(AbstractPackage):
    def __init__(self, spelling, version, deps):
        super().__init__(PackageDescriptor(spelling, Version.parse(version)), [PackageArtifact(f"{spelling}-{version}-py3-none-any.whl")])
        self._deps = [Dependency.parse(req_text(r)) for r in deps]

    def _retrieve_artifact(self, artifact):
        raise AssertionError("artifact requested")

    def _unfiltered_dependencies(self, environment):
        return list(self._deps)


class Repo(AbstractRepository):
    def __init__(self, case):
        super().__init__("fake")
        self.packages = {p: [Pkg(sp, v, d) for v, d in vs] for p, (sp, vs) in case["packages"].items()}
        self.packages["root"] = [Pkg("root", "1.0", case["root"])]

    def _do_match(self, dependency, env):
        key = canonical(dependency.package_name)
        return [p for p in self.packages.get(key, []) if dependency.version_spec.allows_version(p.version)]


def canonical(name):
    import re
    return re.sub(r"[-_.]+", "-", name).lower()


def resolve(case):
    over = {sp: Dependency.parse(sp + spec) for sp, spec in case["overrides"].values()}
    root = Dependency.parse("root" + (f"[{','.join(case['root_extras'])}]" if case["root_extras"] else ""))
    try:
        return resolve_dependencies(root, TARGET, Repo(case), over)
    except UnsolvableProblemException as e:
        return str(e)


@CHECK.test("requirements", cases(), quick=5000, thorough=60000)
def requirements(case, t):
    want = solvable(case)
    got = resolve(case)
    t.label("solvable" if want else "unsolvable")
    interesting = False
    for variant in ({**case, "overrides": {}}, {**case, "root_extras": []},
                    {**case, "root": [(a, b, c, d, "") for a, b, c, d, e in case["root"]]},
                    {**case, "root": [(a, b, [], d, e) for a, b, c, d, e in case["root"]]},
                    {**case, "packages": {p: (s, [(v, [(a, b, [], d, e) for a, b, c, d, e in ds]) for v, ds in vs]) for p, (s, vs) in case["packages"].items()}}):
        if variant != case and (solvable(variant) is None) != (want is None):
            interesting = True
    if want is None:
        t.nontrivial(interesting or any(len(p[1]) > 1 for p in case["packages"].values()))
        t.check(isinstance(got, str), lambda: f"no choice of versions satisfies the requirements, yet got {got}")
        return
    t.check(not isinstance(got, str), lambda: f"{want} satisfies the requirements, yet resolution failed: {got[-300:]}")
    sol = {canonical(p.name): str(p.version) for p in got}
    t.eq(len(sol), len(got), f"packages listed more than once under different spellings in {got}")
    c = closure(case, sol)
    t.check(isinstance(c, set), lambda: f"{sol} breaks a requirement" if c is None else f"{sol} lacks {c}")
    t.eq(sorted(sol), sorted(c), "packages in the solution versus packages needed")
    greedy = {p: vs[0][0] for p, (_, vs) in case["packages"].items()}
    respelled = any(r[1] != r[0] for r in case["root"])
    t.nontrivial(interesting or respelled and len(sol) > 2 or any(sol[p] != greedy.get(p, sol[p]) for p in sol))


@CHECK.test("explicitly requested pre-releases",
            cases=lambda tier: [(s, f, d) for s in ("==2.0a1", ">=2.0a1", "~=2.0rc1", "==3.0.dev1", ">1.0,<=2.0b1") for f in (False, True) for d in (False, True)])
def prerelease(case, t):
    spec, finals, direct = case
    vs = ["3.0.dev1", "2.1rc1", "2.0rc1", "2.0b1", "2.0a1"] + (["1.5", "1.0"] if finals else [])
    allowed = [v for v in vs if specmodel.spec_allows(spec, v)]
    req = ("foo", "foo", [], spec, "")
    uni = {"packages": {"foo": ("foo", [(v, []) for v in vs]), "zed": ("zed", [("1.0", [req])])}, "root_extras": [], "overrides": {},
           "root": [req] if direct else [("zed", "zed", [], "", "")]}
    t.nontrivial(finals and bool(allowed))
    got = resolve(uni)
    t.check(not isinstance(got, str), lambda: f"foo {spec} admits {allowed} explicitly, yet resolution failed",
            key=f"pre-release {spec} {finals} {direct}")
    v = {p.name: str(p.version) for p in got}["foo"]
    t.check(v in allowed, lambda: f"{v} was chosen for foo {spec}")
