"""C07: the pubgrub solver. Oracle: exhaustive search over all assignments of the (small) package universe, and a validity check of the answer;
constraints are decided by specmodel, not by pkm."""
from functools import cmp_to_key, lru_cache

from hypothesis import strategies as st
from packaging.version import Version as Ref

import specmodel
from vlib import Check
from pkm.api.versions.version import Version, NamedVersion, UrlVersion
from pkm.api.versions.version_specifiers import VersionSpecifier
from pkm.resolution.pubgrub import Problem, Solver, Term, UnsolvableProblemException, MalformedPackageException

CHECK = Check("C07", "package universes (2-7 packages, 1-5 versions, dependency constraints); non-trivial = the preferred versions do not fit together "
                     "(the solver has to reject something), both solvable and unsolvable", workers=7)

RELEASES = ["0.9", "1.0", "1.1", "1.5", "2.0", "2.1", "3.0"]
ODD = ["1.0a1", "2.0rc1", "2.0.dev1", "1.3+loc", "2.4+b2", "1!0.5", "2.0b2.dev3"]
vers = st.one_of(st.sampled_from(RELEASES), st.sampled_from(RELEASES), st.sampled_from(RELEASES), st.sampled_from(ODD))
NAMES = ["a", "b", "c", "d", "e", "f", "g"]


@st.composite
def spec(draw, pool):
    k = draw(st.integers(0, 11))
    v = draw(st.sampled_from(pool)) if draw(st.integers(0, 5)) else draw(st.sampled_from(RELEASES))
    nl = v.split("+")[0]
    if nl != v:  # ranges bounded at the release of a local version are left out: see DESIGN.md
        return draw(st.sampled_from(["==", "==", "!="])) + draw(st.sampled_from([v, nl]))
    if k == 0:
        return "*"
    if k <= 4:
        return draw(st.sampled_from([">=", "<=", "<", ">"])) + nl
    if k <= 6:
        return "==" + v
    if k == 7:
        return "!=" + v
    if k == 8:
        return "~=" + (nl if "." in nl.split("!")[-1] else nl + ".0")
    if k == 9:
        return draw(st.sampled_from(["==", "!="])) + draw(st.sampled_from(["1", "2", "1.0", "0"])) + ".*"
    w = draw(st.sampled_from(RELEASES))
    lo, hi = sorted([nl, w], key=Ref)
    return f">={lo},{draw(st.sampled_from(['<', '<=']))}{hi}" if k == 10 else f">={lo},!={draw(st.sampled_from([x for x in pool if '+' not in x] or RELEASES))}"


@st.composite
def universes(draw, dense):
    n = draw(st.integers(2, 7))
    names = NAMES[:n]
    pools = {p: draw(st.lists(vers, min_size=1, max_size=5, unique_by=lambda v: Ref(v).public)) for p in names}
    for p in names:
        pools[p].sort(key=Ref, reverse=True)
        if draw(st.integers(0, 9)) == 0:  # importance order is up to the repository (locked versions first)
            i = draw(st.integers(0, len(pools[p]) - 1))
            pools[p].insert(0, pools[p].pop(i))
    missing = "ghost"

    def dep():
        q = draw(st.sampled_from(names + ([missing] if draw(st.integers(0, 9)) == 0 else [])))
        return (q, draw(spec(pools.get(q, RELEASES))))

    uni = {}
    for p in names:
        d = []
        for v in pools[p]:
            if d and draw(st.integers(0, 2)) == 0:
                deps = list(d)  # neighbours often have the same dependencies
            else:
                deps = [dep() for _ in range(draw(st.sampled_from([0, 1, 1, 2, 2, 3] if dense else [0, 0, 0, 1, 1, 2])))]
                deps = [x for x in deps if x[0] != p or draw(st.booleans())]
            bad = draw(st.integers(0, 24)) == 0
            uni.setdefault(p, []).append((v, None if bad else deps))
            d = deps
    root = [dep() for _ in range(draw(st.integers(1, 4)))]
    return {"root": root, "packages": uni}


class Prob(Problem):
    def __init__(self, uni, url=None):
        self.uni = {p: [(v, d) for v, d in vs] for p, vs in uni["packages"].items()}
        self.uni["root"] = [("1.0.0", uni["root"])]
        self.asked = 0

    def get_dependencies(self, package, version):
        self.asked += 1
        for v, d in self.uni[package]:
            if Version.parse(v) == version:
                if d is None:
                    raise MalformedPackageException(f"{package} {v}")
                return [Term(q, VersionSpecifier.parse(s)) for q, s in d]
        raise AssertionError(f"dependencies of unknown {package} {version} requested")

    def get_versions(self, package):
        return [Version.parse(v) for v, _ in self.uni.get(package, []) if not v.startswith("http")]

    def has_version(self, package, version):
        return any(Version.parse(v) == version for v, _ in self.uni.get(package, []))


def allows(s, v):
    if s.startswith("@") or v.startswith("http"):
        return s == "*" or s.strip("@ ") == v or s.startswith("!=") and v.startswith("http")
    return specmodel.spec_allows(s, v)


def brute(uni):
    """is there a consistent assignment? depth first over the required packages"""
    pk = uni["packages"]
    steps = 0

    def go(chosen, cons, todo):
        nonlocal steps
        steps += 1
        if steps > 200000:
            raise OverflowError
        while todo and todo[0] in chosen:
            todo = todo[1:]
        if not todo:
            return chosen
        p = todo[0]
        for v, d in pk.get(p, []):
            if d is None or not all(allows(s, v) for q, s in cons if q == p):
                continue
            c2 = {**chosen, p: v}
            if any(q in c2 and not allows(s, c2[q]) for q, s in d):
                continue
            if (r := go(c2, cons + list(d), todo[1:] + [q for q, _ in d])) is not None:
                return r
        return None

    return go({}, list(uni["root"]), [q for q, _ in uni["root"]])


def check_solution(uni, sol, t):
    pk = uni["packages"]
    deps_of = {"root": uni["root"]}
    for p, v in sol.items():
        if p == "root":
            continue
        d = dict(pk.get(p, {})).get(v, "absent")
        if d == "absent":
            t.fail(f"{p} {v} does not exist, solution {sol}")
        if d is None:
            t.fail(f"{p} {v} was chosen though its dependencies cannot be read, solution {sol}")
        deps_of[p] = d
    for p, d in deps_of.items():
        for q, s in d:
            if q == "root":
                continue
            if q not in sol:
                t.fail(f"{p} needs {q} which the solution {sol} lacks")
            if not allows(s, sol[q]):
                t.fail(f"{p} {sol.get(p)} needs {q} {s} but the solution is {sol}")
    reach, todo = set(), ["root"]
    while todo:
        p = todo.pop()
        if p not in reach:
            reach.add(p)
            todo += [q for q, _ in deps_of[p]]
    t.eq(sorted(sol), sorted(reach), "packages of the solution vs packages needed by it")


def run(uni, t):
    try:
        expected = brute(uni)
    except OverflowError:
        t.label("too large")
        return
    # do the preferred versions fit together?
    greedy, ok, todo, cons = {}, True, [q for q, _ in uni["root"]], list(uni["root"])
    while todo:
        p = todo.pop()
        if p in greedy:
            continue
        vs = uni["packages"].get(p)
        if not vs or vs[0][1] is None:
            ok = False
            break
        greedy[p] = vs[0][0]
        cons += vs[0][1]
        todo += [q for q, _ in vs[0][1]]
    ok = ok and all(allows(s, greedy[q]) for q, s in cons)
    t.nontrivial(not ok)
    t.label("solvable" if expected is not None else "unsolvable")
    problem = Prob(uni)
    try:
        got = Solver(problem).solve()
    except UnsolvableProblemException as e:
        if expected is not None:
            t.fail(f"reported as unsolvable, but {expected} is a solution: {e}")
        t.check("Dependency Versions Resolution Failed" in str(e), "no report")
        return
    sol = {p: str(v) for p, v in got.items()}
    t.check(sol.get("root") == "1.0.0", f"root missing from {sol}")
    if expected is None:
        check_solution(uni, sol, t)
        t.fail(f"unsolvable, but the solver gave {sol}")
    check_solution(uni, sol, t)
    if ok:
        t.eq({p: v for p, v in sol.items() if p != "root"}, greedy, "the preferred versions fit together")


@CHECK.test("sparse", universes(False), quick=2500, thorough=60000)
def sparse(uni, t):
    run(uni, t)


@CHECK.test("dense", universes(True), quick=3500, thorough=100000)
def dense(uni, t):
    run(uni, t)


URLS = ["http://h/x", "https://h/y.zip"]


@st.composite
def url_universes(draw):
    uni = draw(universes(False))
    pk = uni["packages"]
    p = draw(st.sampled_from(sorted(pk)))
    u = draw(st.sampled_from(URLS))
    pk[p] = pk[p] + [(u, [(draw(st.sampled_from(sorted(set(pk) - {p}))), draw(st.sampled_from(["*", ">=1.0", "<2"])))])]
    where = draw(st.sampled_from(["root", "root", "dep", "missing"]))
    if where == "missing":
        u += "/gone"
    if where == "dep":
        q = draw(st.sampled_from(sorted(set(pk) - {p})))
        v, d = pk[q][0]
        pk[q][0] = (v, (d or []) + [(p, "@ " + u)])
    else:
        uni["root"] = uni["root"] + [(p, "@ " + u)]
    # how a url compares with the bounds of a range is not specified
    plain = lambda deps: deps and [(q, "*" if q == p and (s[0] in "<>~" or ".*" in s) else s) for q, s in deps]
    return {"root": plain(uni["root"]), "packages": {q: [(v, plain(d)) for v, d in vs] for q, vs in pk.items()}}


@CHECK.test("urls", url_universes(), quick=1200, thorough=30000)
def urls(uni, t):
    # url releases are only candidates if a requirement asks for them: the ones nobody asked for are no choice
    try:
        expected = brute_url(uni)
        asked = {q for q, s in uni["root"] if s.startswith("@")}
        certain = brute_url({**uni, "packages": {p: [(v, d) for v, d in vs if p in asked or not v.startswith("http")] for p, vs in uni["packages"].items()}})
    except OverflowError:
        return
    t.nontrivial()
    t.label("solvable" if expected else "unsolvable")
    try:
        got = Solver(Prob(uni)).solve()
    except UnsolvableProblemException as e:
        # a url that only a dependency names is found only if the solver comes by it
        if certain is not None:
            t.fail(f"reported as unsolvable, but {certain} is a solution: {e}")
        return
    sol = {p: str(v) for p, v in got.items()}
    if expected is None:
        t.fail(f"unsolvable, but the solver gave {sol}")
    check_solution(uni, sol, t)
    cons = list(uni["root"]) + [x for p, v in sol.items() if p != "root" for x in dict(uni["packages"][p])[v]]
    for p, v in sol.items():
        if v.startswith("http"):
            t.check(any(q == p and s == "@ " + v for q, s in cons), f"{p} @ {v} was chosen but nobody asks for it")


def brute_url(uni):
    """as brute, but a url release is chosen only when a requirement on it names the url"""
    pk = uni["packages"]
    steps = 0

    def go(chosen, cons, left):
        nonlocal steps
        steps += 1
        if steps > 100000:
            raise OverflowError
        if not left:
            cs = list(uni["root"]) + [x for p, v in chosen.items() for x in dict(pk[p])[v]]
            if any(v.startswith("http") and not any(q == p and s == "@ " + v for q, s in cs) for p, v in chosen.items()):
                return None
            return chosen
        p = left[0]
        if p in chosen:
            return go(chosen, cons, left[1:])
        for v, d in pk.get(p, []):
            if d is None or not all(allows(s, v) for q, s in cons if q == p):
                continue
            c2 = {**chosen, p: v}
            if any(q in c2 and not allows(s, c2[q]) for q, s in d):
                continue
            if (r := go(c2, cons + list(d), left[1:] + [q for q, _ in d])) is not None:
                return r
        return None

    return go({}, list(uni["root"]), [q for q, _ in uni["root"]])
