"""C02: version texts. Oracle: packaging.version for validity and value; generated structure for spellings."""
import re

from hypothesis import strategies as st
from packaging.version import InvalidVersion, Version as Ref

import gen
from vlib import Check
from pkm.api.versions.version import Version, StandardVersion

CHECK = Check("C02", "spellings are derived from a known version structure; non-trivial = the spelling differs from the canonical text "
                     "(spelling tests), or is a near miss that PEP 440 rejects (rejection test)",
              assumptions=["packaging.version decides which texts are PEP 440 versions"])

spelled = gen.version_parts.flatmap(lambda p: st.tuples(st.just(gen.vstr(p)), gen.spelling(p), gen.spelling(p)))


def as_ref(t, v):
    try:
        return Ref(str(v))
    except InvalidVersion:
        t.fail(f"{v!r} prints as {str(v)!r}, which is no version")


@CHECK.test("spellings", spelled, quick=8000, thorough=200000)
def spellings(case, t):
    canon, *texts = case
    ref = Ref(canon)
    c = Version.parse(canon)
    for text in texts:
        assert Ref(text) == ref, (text, canon)
        v = Version.parse(text)
        t.nontrivial(text != canon)
        t.check(isinstance(v, StandardVersion), lambda: f"{text!r} was not read as a standard version: {v!r}")
        t.eq(str(as_ref(t, v)), str(Ref(text)), f"value read from {text!r} (text {str(v)!r})")
        t.eq(tuple(v.release), ref.release, f"release of {text!r}")
        t.eq((v.epoch or 0, v.pre_release and tuple(v.pre_release), v.post_release, v.dev_release),
             (ref.epoch, ref.pre, ref.post, ref.dev), f"parts of {text!r}")
        t.check(v == c and not v != c, f"{text!r} and {canon!r} denote the same version but are not equal")
        t.eq(hash(v), hash(c), f"hash of {text!r} vs {canon!r}")
        again = Version.parse(str(v))
        t.check(again == v and hash(again) == hash(v) and str(again) == str(v), f"text of {text!r} is {str(v)!r}, which reads as {again!r}")
        t.eq((v.is_pre_or_dev_release(), v.is_post_release(), v.is_local()), (ref.is_prerelease, ref.is_postrelease, ref.local is not None),
             f"classification of {text!r}")


@CHECK.test("equal implies same hash", gen.version_family(2, 3), quick=4000, thorough=80000)
def hashes(case, t):
    vs = [Version.parse(x) for x in case]
    for a in vs:
        for b in vs:
            if a == b:
                t.nontrivial(str(a) != str(b))
                t.eq(hash(a), hash(b), f"hash of equal versions {a} and {b}")
    t.eq(len(set(vs)), len({Ref(x) for x in case}), f"number of distinct versions in {case}")


CHARS = "0123456789abcdevprostl.-_+!* ()xyz"
noise = st.text(CHARS, min_size=0, max_size=3)


@st.composite
def near_miss(draw):
    s = draw(gen.version_parts.flatmap(gen.spelling)).strip()
    k = draw(st.integers(0, 4))
    i = draw(st.integers(0, len(s)))
    if k == 0:
        return s + draw(noise)
    if k == 1:
        return s[:i] + draw(noise) + s[i:]
    if k == 2:
        return s[:i] + s[i + 1:]
    if k == 3:
        return draw(st.text(CHARS, max_size=8))
    j = draw(st.integers(0, len(s)))
    return s[:i] + s[j:]


@CHECK.test("near misses", near_miss(), quick=8000, thorough=200000)
def near_misses(case, t):
    try:
        ref = Ref(case)
    except InvalidVersion:
        ref = None
    v = Version.parse(case)
    t.label("valid" if ref else "invalid")
    if ref is None:
        t.nontrivial(len(case) > 1)
        if case.startswith(("(", "'", '"')) or case.strip() != case and case.strip()[:1] in "('\"":
            return  # a version wrapped in brackets or quotes is accepted on purpose
        t.check(not isinstance(v, StandardVersion), lambda: f"{case!r} is not a PEP 440 version, but was read as {v!r}")
        t.eq(str(v), case, "text of a non standard version")
    elif re.search(r"[a-z][-_.](?![0-9])", case.lower().partition("+")[0]):
        t.label("dangling separator (accepted by the regular expression of PEP 440, but not by its text)")
    else:
        t.check(isinstance(v, StandardVersion) and as_ref(t, v) == ref, lambda: f"{case!r} was read as {v!r}")
