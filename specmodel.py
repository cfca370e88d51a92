"""Reference semantics of version specifiers, on texts (independent of pkm). Order: packaging.version."""
import re
from functools import lru_cache
from packaging.version import Version as Ref


@lru_cache(100000)
def R(v):
    return Ref(v)


def pad(r, n):
    return tuple(r) + (0,) * (n - len(r))


def rel(text):
    return R(text).release


def next_prefix(v, drop):
    """the first release after all those that share the release prefix of v without its last `drop` numbers"""
    r = R(v).release
    r = r[:len(r) - drop]
    r = r[:-1] + (r[-1] + 1,)
    e = R(v).epoch
    return Ref((f"{e}!" if e else "") + ".".join(map(str, r)))


CLAUSE = re.compile(r"\s*(~=|==|!=|<=|>=|<|>)\s*(\S+?)(\.\*)?\s*$")


def clause_allows(clause, v):
    """v: text of a PEP 440 version"""
    m = CLAUSE.match(clause)
    op, b, star = m.groups()
    x, ref = R(v), R(b)
    if star:
        inside = ref <= x < next_prefix(b, 0)
        return inside if op == "==" else not inside
    if op in ("==", "!="):
        same = (x == ref) if ref.local else (R(x.public) == ref)
        return same if op == "==" else not same
    if op == "~=":
        return ref <= x < next_prefix(b, 1)
    return {"<": x < ref, "<=": x <= ref, ">": x > ref, ">=": x >= ref}[op]


def spec_allows(text, v):
    text = text.strip()
    if text in ("", "*"):
        return True
    return all(clause_allows(c, v) for c in text.split(","))
