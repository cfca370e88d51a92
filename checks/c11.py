"""C11: the lock file. Model: for every kind of environment, the set of versions that were installed when it was last locked."""
from types import SimpleNamespace

from hypothesis import strategies as st

from vlib import Check
from pkm.api.dependencies.dependency import Dependency
from pkm.api.packages.package import Package, PackageDescriptor
from pkm.api.repositories.repository import AbstractRepository
from pkm.api.versions.version import Version
from pkm.resolution.packages_lock import LockPrioritizingRepository, PackagesLock

CHECK = Check("C11", "histories of up to 10 steps over three kinds of environments: install, lock, unlock, save and reload, and resolve with the lock; "
                     "non-trivial = two environments lock different versions of a package, or a reload happens between locking and use", workers=5)

NAMES = {"foo": ["foo", "Foo"], "my-pkg": ["my-pkg", "My_Pkg", "my.pkg"], "ruamel.yaml": ["ruamel.yaml", "ruamel-yaml", "Ruamel_Yaml"], "d0": ["d0"]}
VERS = ["0.9", "1.0", "1.0+cu.11", "1.1", "2.0a1", "2.0", "1!0.1", "3.0.dev2", "1.0.post1"]
EXOTIC = ["https://h.org/a-1.0-py3-none-any.whl", "master", "git+https://h/R@v1#egg=x"]
ENVS = [SimpleNamespace(markers_hash=h) for h in ("aaaa", "bbbb", "0123")]
name = st.sampled_from(sorted(NAMES))
ver = st.one_of(st.sampled_from(VERS), st.sampled_from(VERS), st.sampled_from(VERS), st.sampled_from(EXOTIC))
e = st.integers(0, 2)
op = st.one_of(
    st.tuples(st.just("lock"), e, st.dictionaries(name, st.tuples(st.integers(0, 2), ver), max_size=4)),
    st.tuples(st.just("lock"), e, st.dictionaries(name, st.tuples(st.integers(0, 2), ver), max_size=4)),
    st.tuples(st.just("unlock"), st.lists(st.tuples(name, st.integers(0, 2)), max_size=2)),
    st.tuples(st.just("reload"),),
    st.tuples(st.just("resolve"), e, name, st.integers(0, 2), st.lists(st.sampled_from(VERS), max_size=6, unique=True), st.sampled_from(["", ">=1.0", "==1.0", ">=2.0a1"])),
    st.tuples(st.just("resolve"), e, name, st.integers(0, 2), st.lists(st.sampled_from(VERS), min_size=2, max_size=6, unique=True), st.sampled_from(["", ">=1.0", "==1.0", ">=2.0a1"])),
)


class Pkg(Package):
    def __init__(self, n, v):
        self.d = PackageDescriptor(n, Version.parse(v))

    descriptor = property(lambda self: self.d)

    def dependencies(self, target, extras=None):
        return []

    def is_compatible_with(self, env):
        return True

    def install_to(self, *a, **k):
        raise NotImplementedError


class Repo(AbstractRepository):
    def __init__(self, packages):
        super().__init__("base")
        self.packages = packages

    def _do_match(self, dependency, env):
        return self._sorted_by_version([p for p in self.packages if dependency.version_spec.allows_version(p.version)])


@CHECK.test("histories", st.lists(op, min_size=2, max_size=10), quick=4000, thorough=60000)
def histories(case, t):
    path = t.scratch() / "etc" / "pkm" / "packages-lock.toml"
    lock = PackagesLock.load(path)
    model = {}  # (env, name) -> version
    mixed = False
    saved = {}
    for step in case:
        kind = step[0]
        if kind == "lock":
            i, pk = step[1], step[2]
            packages = [Pkg(NAMES[n][s % len(NAMES[n])], v) for n, (s, v) in pk.items()]
            lock.update_lock(SimpleNamespace(markers_hash=ENVS[i].markers_hash, site_packages=SimpleNamespace(installed_packages=lambda: list(packages))))
            model = {k: v for k, v in model.items() if k[0] != i}
            model.update({(i, n): v for n, (_, v) in pk.items()})
        elif kind == "unlock":
            lock.unlock_packages([NAMES[n][s % len(NAMES[n])] for n, s in step[1]])
            model = {k: v for k, v in model.items() if k[1] not in {n for n, _ in step[1]}}
        elif kind == "reload":
            lock.save(path)
            lock = PackagesLock.load(path)
            t.label("reload")
            mixed = mixed or bool(model)
        elif kind == "resolve":
            _, i, n, s, vs, spec = step
            repo = Repo([Pkg(n, v) for v in vs])
            asked = NAMES[n][s % len(NAMES[n])]
            base = [str(p.version) for p in repo.match(f"{asked} {spec}", ENVS[i])]
            got = [str(p.version) for p in LockPrioritizingRepository("x", repo, lock).match(f"{asked} {spec}", ENVS[i])]
            t.eq(sorted(got), sorted(base), f"candidates for {asked} {spec}")
            mine = model.get((i, n))
            others = {v for (j, m), v in model.items() if m == n and j != i}
            if mine in base:
                t.label("locked version on offer")
                t.eq(got[0], mine, f"first candidate for {asked} {spec} of {base} in environment {i}; locked: {mine} here, {sorted(others)} elsewhere")
                mixed |= bool(others - {mine})
            elif others & set(base):
                t.check(got[0] in others, lambda: f"{got} are offered for {asked} {spec}, others locked {sorted(others)}")
            rest = [v for v in got if v != mine and v not in others]
            t.eq(rest, [v for v in base if v != mine and v not in others], "order of the versions that nobody locked")
        state(t, lock, model)
    t.nontrivial(mixed)
    lock.save(path)
    state(t, PackagesLock.load(path), model)


def state(t, lock, model):
    for i, env in enumerate(ENVS):
        got = sorted((p.name_key, str(p.version)) for p in lock.env_specific_locks(env))
        want = sorted((n.replace("-", "_").replace(".", "_"), str(Version.parse(v))) for (j, n), v in model.items() if j == i)
        t.eq(got, want, f"what is locked for environment {i}")
        for n in NAMES:
            for asked in NAMES[n]:
                lv = [str(p.version) for p in lock.locked_versions(env, asked)]
                mine = model.get((i, n))
                t.eq(sorted(set(lv)), sorted({str(Version.parse(v)) for (j, m), v in model.items() if m == n}), f"locked versions of {asked}")
                t.check(mine is None or lv[0] == str(Version.parse(mine)), lambda: f"{asked} in environment {i}: {lv}, locked there: {mine}")
