"""C35: package names. Oracle: PEP 503 normalization (one regular expression) and packaging's file name parsers."""
import re
from pathlib import Path

from hypothesis import strategies as st
from packaging.utils import parse_sdist_filename, parse_wheel_filename
from packaging.version import Version as PVersion

from vlib import Check
import gen
from pkm.api.dependencies.dependency import Dependency
from pkm.api.distributions.distinfo import DistInfo
from pkm.api.distributions.wheel_distribution import WheelDistribution
from pkm.api.environments.environment import Environment
from pkm.api.packages.package import Package, PackageDescriptor
from pkm.api.packages.package_installation import InstallationPlan
from pkm.api.packages.site_packages import SitePackages
from pkm.api.projects.project import Project
from pkm.api.repositories.repository_management import ProjectsRepository
from pkm.api.versions.version import Version
from pkm.repositories.file_system_repository import PackagesDictRepository
from pkm.resolution.packages_lock import PackagesLock, _LockedVersion

CHECK = Check("C35", "pairs of package names: spellings of one name (case, runs of - _ .) and near misses (a separator dropped or moved, a part changed), in every lookup and file name; "
                     "non-trivial = the texts differ", workers=4)

part = st.text("abAZ09", min_size=1, max_size=3)
sep = st.sampled_from(["-", "_", ".", "--", "__", "-_", "_.", "..", ".-.", "___"])


@st.composite
def names(draw):
    parts = draw(st.lists(part, min_size=1, max_size=3))

    def spell(parts):
        s = ""
        for i, p in enumerate(parts):
            s += (draw(sep) if i else "") + "".join(c.swapcase() if draw(st.integers(0, 3)) == 0 else c for c in p)
        return s

    other = list(parts)
    how = draw(st.sampled_from(["same", "same", "join", "split", "add", "change", "drop"]))
    if how == "join" and len(other) > 1:
        other[:2] = [other[0] + other[1]]
    elif how == "split" and len(other[0]) > 1:
        other[:1] = [other[0][0], other[0][1:]]
    elif how == "add":
        other.append(draw(part))
    elif how == "change":
        other[-1] = draw(part)
    elif how == "drop" and len(other) > 1:
        other.pop()
    return spell(parts), spell(other)  # noqa


def norm(s):
    return re.sub(r"[-_.]+", "-", s).lower()


class Pkg(Package):
    def __init__(self, name, version="1.0"):
        self._descriptor = PackageDescriptor(name, Version.parse(version))

    @property
    def descriptor(self):
        return self._descriptor

    def is_compatible_with(self, env):
        return True

    def dependencies(self, target, extras=None):
        return []

    def install_to(self, *args, **kw):
        raise NotImplementedError


@CHECK.test("comparisons", names(), quick=3000, thorough=60000)
def check_comparisons(case, t):
    a, b = case
    alike = norm(a) == norm(b)
    t.nontrivial(a != b)
    t.label("alike" if alike else "different")
    v = Version.parse("1.0")
    da, db = PackageDescriptor(a, v), PackageDescriptor(b, v)
    t.eq(PackageDescriptor.package_name_key(a) == PackageDescriptor.package_name_key(b), alike, "the keys are alike", key="key")
    t.eq(da.name_key == db.name_key, alike, "the keys of the descriptors are alike", key="key")
    t.eq(PackageDescriptor.package_name_key(da.name), PackageDescriptor.package_name_key(a), "the key of the descriptor's name", key="key")
    t.eq(da == db, alike, "the descriptors are equal", key="descriptor")
    t.eq(len({da, db}), 1 if alike else 2, "the descriptors in a set", key="descriptor")
    t.check(PackageDescriptor(a, Version.parse("1.1")) != db, "descriptors of different versions are equal", key="descriptor")
    da_, db_ = Dependency.parse(a + ">=1"), Dependency.parse(b)
    t.eq(da_.package_name_key == db_.package_name_key, alike, "the keys of the requirements are alike", key="requirement")
    t.eq(norm(PackageDescriptor.normalize_src_package_name(a)) == norm(b), alike, "the source names are alike", key="source name")
    plan = InstallationPlan(None, [Pkg("other-x"), Pkg(a)], {})
    t.eq(plan.selected_package(b) is not None, alike, "a plan for one name selects the package by the other", key="plan")


version = gen.version_parts.map(gen.vstr)
tags = st.sampled_from(["py3-none-any", "cp38-abi3-manylinux_2_17_x86_64.manylinux2014_x86_64", "py2.py3-none-any", "cp310-cp310-win32"])


@CHECK.test("file names", st.tuples(names().map(lambda n: n[0]), version, tags, st.sampled_from(["", "", "-1", "-2abc"])), quick=2000, thorough=40000)
def check_file_names(case, t):
    name, v, tag, build = case
    v = str(PVersion(v))
    d = PackageDescriptor(name, Version.parse(v))
    t.nontrivial(norm(name) != name or bool(build))
    src = d.expected_src_package_name
    t.check(re.fullmatch(r"\w+", src) is not None, f"the source name {src!r} has a separator", key="source name")
    # the names that are made
    wheel = f"{src}-{v}{build}-{tag}.whl"
    want = parse_wheel_filename(wheel)
    t.eq((norm(name), PVersion(v)), want[:2], "this check's reading of the wheel name", key="oracle")
    got = PackageDescriptor.from_dist_name(wheel)
    t.eq((norm(got.name), str(got.version)), (norm(name), v), f"the release of {wheel}", key="wheel name")
    t.eq(got, d, f"the release of {wheel}", key="descriptor")
    t.eq(WheelDistribution.extract_compatibility_tags_of(Path(wheel)), tag, f"the tags of {wheel}", key="tags")
    for sdist in (f"{src}-{v}.tar.gz", f"{name}-{v}.tar.gz", f"{name}-{v}.zip"):
        p = parse_sdist_filename(sdist)
        if p[1] != PVersion(v) or p[0] != norm(name):
            continue
        got = PackageDescriptor.from_dist_name(sdist)
        t.eq((norm(got.name), str(got.version)), (norm(name), v), f"the release of {sdist}", key="sdist name")
    dirname = DistInfo.expected_dir_name(d)
    t.check(re.fullmatch(r"[^-]+-[^-]+\.dist-info", dirname) is not None, f"the metadata directory {dirname!r} has more than one dash", key="dist-info name")
    di = DistInfo.load(t.scratch() / dirname)
    t.eq((norm(di.package_name_by_dirname), str(di.package_version_by_dirname)), (norm(name), v), f"the release of {dirname}", key="dist-info name")


ENV = []


def env():
    if not ENV:
        ENV.append(Environment.current())
    return ENV[0]


@CHECK.test("lookups", st.tuples(names(), st.booleans(), st.sampled_from(["escaped", "legacy", "lower"])), quick=700, thorough=8000)
def check_lookups(case, t):
    (a, b), metadata, style = case
    alike = norm(a) == norm(b)
    t.nontrivial(a != b)
    site = t.scratch() / "site"
    dirname = {"escaped": re.sub(r"[-_.]+", "_", a), "legacy": a.replace("-", "_"), "lower": norm(a).replace("-", "_")}[style]
    di = site / f"{dirname}-1.0.dist-info"
    di.mkdir(parents=True)
    if metadata:
        (di / "METADATA").write_text(f"Metadata-Version: 2.1\nName: {a}\nVersion: 1.0\n")
    sp = SitePackages(env(), site, site)
    t.eq([norm(p.name) for p in sp.installed_packages()], [norm(a)], "the installed packages", key="site")
    found = sp.installed_package(b)
    t.eq(found is not None, alike, f"the package {a} is found as {b}", key="site")
    # repositories
    for repo in (PackagesDictRepository("r", {a: [Pkg(a)]}), ):
        t.eq(len(repo.match(Dependency.parse(b), env())), 1 if alike else 0, f"releases of {a} found as {b}", key="repository")
    prj = t.scratch() / "prj"
    prj.mkdir()
    (prj / "pyproject.toml").write_text(f'[project]\nname = "{a}"\nversion = "1.0"\n')
    project = Project.load(prj)
    t.eq(norm(project.name), norm(a), "the name of the project", key="project")
    repo = ProjectsRepository.create("p", [project])
    t.eq(len(repo.match(Dependency.parse(b), env())), 1 if alike else 0, f"projects {a} found as {b}", key="projects")
    # locks
    lock = PackagesLock([_LockedVersion(env().markers_hash, PackageDescriptor(a, Version.parse("1.0")))])
    t.eq(len(lock.locked_versions(env(), b)), 1 if alike else 0, f"locked versions of {a} found as {b}", key="lock")
    lock.unlock_packages([b])
    t.eq(len(lock.env_specific_locks(env())), 0 if alike else 1, f"versions of {a} still locked after {b} was unlocked", key="lock")
    # the tree of an installed package, whatever its name in the requirement of another
    if metadata:
        other = site / "zz_root-1.0.dist-info"
        other.mkdir()
        (other / "METADATA").write_text(f"Metadata-Version: 2.1\nName: zz-root\nVersion: 1.0\nRequires-Dist: {b}\n")
        (other / "REQUESTED").write_text("")
        sp.reload()
        if norm(b) != "zz-root" and norm(a) != "zz-root":
            t.eq(sorted(norm(p.name) for p in sp.installation_tree_of("ZZ_root")), sorted({"zz-root"} | ({norm(a)} if alike else set())), "the installed tree", key="tree")
            t.eq(sorted(norm(p.name) for p in sp.find_orphan_packages()), [] if alike else [norm(a)], "the orphans", key="tree")
