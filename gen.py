"""Shared strategies and reference models (plain data only)."""
import re
from hypothesis import strategies as st

# ------------------------------------------------------------------ versions (as PEP 440 texts)

small = st.one_of(st.integers(0, 3), st.sampled_from([9, 10, 11, 100, 2022, 20240131]))
release = st.lists(small, min_size=1, max_size=4).map(tuple)
local_seg = st.one_of(st.sampled_from(["1", "2", "10", "9", "0", "01", "a", "b", "ab", "a1", "1a", "cpu", "cu113", "ubuntu", "z"]),
                      st.integers(0, 30).map(str))
local = st.one_of(st.none(), st.lists(local_seg, min_size=1, max_size=3).map(".".join))
rare = lambda s: st.one_of(st.none(), st.none(), s)


def vstr(v):
    e, r, pre, post, dev, loc = v
    s = f"{e}!" if e is not None else ""
    s += ".".join(map(str, r))
    if pre:
        s += f"{pre[0]}{pre[1]}"
    if post is not None:
        s += f".post{post}"
    if dev is not None:
        s += f".dev{dev}"
    if loc:
        s += f"+{loc}"
    return s


num = st.sampled_from([0, 0, 1, 2, 3, 9, 10, 11, 12, 20240131123456])
pre = st.tuples(st.sampled_from(["a", "b", "rc"]), num)
version_parts = st.tuples(rare(st.sampled_from([0, 1, 2])), release, st.one_of(st.none(), pre), st.one_of(st.none(), num),
                          st.one_of(st.none(), num), st.one_of(st.none(), st.none(), local))


@st.composite
def related(draw, parts, with_local=True):
    """a version close to the given one: same with one part changed"""
    e, r, p, po, d, l = parts
    k = draw(st.integers(0, 9))
    if k == 0:
        e = draw(rare(st.sampled_from([0, 1])))
    elif k == 1:
        i = draw(st.integers(0, len(r) - 1))
        r = r[:i] + (max(0, r[i] + draw(st.sampled_from([-1, 1]))),) + r[i + 1:]
    elif k == 2:
        r = r + (0,) * draw(st.integers(1, 2))
    elif k == 3:
        r = r[:-1] or (0,)
    elif k == 4:
        p = draw(st.one_of(st.none(), pre))
    elif k == 5:
        po = draw(st.one_of(st.none(), num))
    elif k == 6:
        d = draw(st.one_of(st.none(), num))
    elif k == 7:
        l = draw(local) if with_local else None
    elif k == 8:
        p = po = d = l = None
    else:
        r = r + (draw(st.integers(0, 1)),)
    return (e, r, p, po, d, l)


@st.composite
def version_family(draw, n_min=2, n_max=2, with_local=True):
    """versions (texts) that share most of their parts, so that every comparison level decides sometimes"""
    base = draw(version_parts)
    if not with_local:
        base = base[:5] + (None,)
    n = draw(st.integers(n_min, n_max))
    out = [base]
    while len(out) < n:
        if draw(st.integers(0, 5)) == 0:
            v = draw(version_parts)
            if not with_local:
                v = v[:5] + (None,)
        else:
            v = draw(related(draw(st.sampled_from(out)), with_local))
            if draw(st.booleans()):
                v = draw(related(v, with_local))
        out.append(v)
    return [vstr(v) for v in out]


versions = version_parts.map(vstr)
plain_versions = st.tuples(st.none(), release, st.none(), st.none(), st.none(), st.none()).map(vstr)

# ------------------------------------------------------------------ spellings of a version

PRE_WORDS = {"a": ["a", "alpha"], "b": ["b", "beta"], "rc": ["rc", "c", "pre", "preview"]}
SEP = st.sampled_from(["", ".", "-", "_"])


@st.composite
def randcase(draw, s):
    if draw(st.integers(0, 2)):
        return s
    return "".join(c.upper() if draw(st.booleans()) else c for c in s)


@st.composite
def spelling(draw, parts):
    e, r, p, po, d, l = parts
    s = draw(st.sampled_from(["", "", "v"]))
    if e is not None:
        s += f"{e}!"
    s += ".".join(("0" * draw(st.sampled_from([0, 0, 0, 1]))) + str(x) for x in r)
    numtxt = lambda n: "" if n == 0 and draw(st.booleans()) else str(n)
    if p:
        w = draw(st.sampled_from(PRE_WORDS[p[0]]))
        n = numtxt(p[1])
        s += draw(SEP) + w + (draw(SEP) if n else "") + n
    if po is not None:
        if draw(st.integers(0, 4)) == 0 and (not p or s[-1].isdigit()):
            s += f"-{po}"
        else:
            n = numtxt(po)
            s += draw(SEP) + draw(st.sampled_from(["post", "rev", "r"])) + (draw(SEP) if n else "") + n
    if d is not None:
        n = numtxt(d)
        s += draw(SEP) + "dev" + (draw(SEP) if n else "") + n
    if l:
        s += "+" + "".join(draw(st.sampled_from(".-_")) if c == "." else c for c in l)
    s = draw(randcase(s))
    pad = st.sampled_from(["", "", "", " ", "  ", "\t"])
    return draw(pad) + s + draw(pad)


# ------------------------------------------------------------------ package names

name_word = st.text("abcxyz019", min_size=1, max_size=4)


@st.composite
def package_names(draw):
    """PEP 508 names: letters, digits, . - _; starts with a letter and ends with a letter or digit"""
    words = draw(st.lists(name_word, min_size=1, max_size=3))
    s = words[0]
    for w in words[1:]:
        s += "".join(draw(st.lists(st.sampled_from("-_."), min_size=1, max_size=2))) + w
    if not s[0].isalpha():
        s = "p" + s
    return draw(randcase(s))


def canonical_name(n):
    return re.sub(r"[-_.]+", "-", n).lower()


@st.composite
def respell_name(draw, name):
    out = ""
    for part in re.split(r"([-_.]+)", name):
        if re.fullmatch(r"[-_.]+", part):
            out += draw(st.sampled_from(["-", "_", ".", "--", "-_"]))
        else:
            out += "".join(draw(st.sampled_from([c.lower(), c.upper()])) for c in part)
    return out
