"""C01: version ordering is PEP 440's. Oracle: packaging.version (the PEP 440 reference implementation)."""
from hypothesis import strategies as st
from packaging.version import InvalidVersion, Version as Ref

import gen
from vlib import Check
from pkm.api.versions.version import Version

CHECK = Check("C01", "pairs/lists of versions that share most parts; non-trivial = at least two differing versions with the same release (zero padded) "
                     "or versions decided by more than the release numbers", assumptions=["packaging.version implements PEP 440"])


def as_ref(t, v):
    try:
        return Ref(str(v))
    except InvalidVersion:
        t.fail(f"{v!r} prints as {str(v)!r}, which is no version")


def tail_decides(refs):
    return any(a != b and a.epoch == b.epoch and Ref(a.base_version) == Ref(b.base_version) for a in refs for b in refs)


@CHECK.test("pair", gen.version_family(2, 2), quick=8000, thorough=300000)
def pair(case, t):
    a, b = (Version.parse(x) for x in case)
    ra, rb = (Ref(x) for x in case)
    t.nontrivial(tail_decides([ra, rb]))
    got = dict(lt=a < b, gt=a > b, le=a <= b, ge=a >= b, eq=a == b, ne=a != b)
    want = dict(lt=ra < rb, gt=ra > rb, le=ra <= rb, ge=ra >= rb, eq=ra == rb, ne=ra != rb)
    t.label("lt" if want["lt"] else "eq" if want["eq"] else "gt")
    t.eq({k: bool(v) for k, v in got.items()}, want, f"comparisons of {case}")


@CHECK.test("sort", st.tuples(gen.version_family(3, 9), st.randoms(use_true_random=False)).map(
    lambda p: (p[0], p[1].sample(range(len(p[0])), len(p[0])))), quick=4000, thorough=100000)
def sort(case, t):
    texts, perm = case
    want = sorted((Ref(x) for x in texts))
    t.nontrivial(tail_decides(want))
    for order in (texts, [texts[i] for i in perm]):
        got = sorted(Version.parse(x) for x in order)
        t.eq([as_ref(t, x) for x in got], want, f"sorted {order}")
        got = sorted((Version.parse(x) for x in order), reverse=True)
        t.eq([as_ref(t, x) for x in got], want[::-1], f"reverse sorted {order}")


mixed = st.one_of(gen.versions, st.sampled_from(["latest", "foo", "weird_thing", "https://x.y/z", "git+https://x.y/z", "https://x.y/a.whl", "file:///a/b"]))


@CHECK.test("mixed kinds", st.lists(mixed, min_size=3, max_size=3), quick=2000, thorough=40000)
def mixed_kinds(case, t):
    a, b, c = (Version.parse(x) for x in case)
    t.nontrivial(len({type(x) for x in (a, b, c)}) > 1)
    for x in (a, b, c):
        for y in (a, b, c):
            t.eq([bool(x < y), bool(x == y), bool(y < x)].count(True), 1, f"exactly one of <, ==, > for {x} and {y}")
    if a < b and b < c:
        t.check(a < c, f"{a} < {b} < {c} but not {a} < {c}")
