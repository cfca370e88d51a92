"""C25: version bumps. Oracle: the semantic-versioning rules written here, the PEP 440 order of packaging, and the lines of the project file."""
import re
import tomllib

from hypothesis import strategies as st
from packaging.version import Version as PVersion

from vlib import Check
from pkm.api.projects.project import Project
from pkm.api.versions.version import Version
from pkm.utils.commons import UnsupportedOperationException

CHECK = Check("C25", "versions of every PEP 440 shape and histories of bumps of every particle, on versions and on project files in many layouts; "
                     "non-trivial = a version with a pre, post, dev or local part, or a history that mixes release and pre-release particles", workers=6)

num = st.one_of(st.integers(0, 3), st.sampled_from([9, 10, 99, 2022]))
kinds = st.sampled_from(["a", "b", "rc"])
PARTICLES = ["major", "minor", "patch", "a", "b", "rc"]
particle = st.sampled_from(PARTICLES)


@st.composite
def version(draw, parts=3):
    v = draw(st.sampled_from(["", "", "", "1!", "0!"])) + ".".join(str(draw(num)) for _ in range(parts))
    if draw(st.booleans()):
        v += draw(kinds) + str(draw(num))
    if draw(st.integers(0, 3)) == 0:
        v += ".post" + str(draw(num))
    if draw(st.integers(0, 3)) == 0:
        v += ".dev" + str(draw(num))
    if draw(st.integers(0, 5)) == 0:
        v += "+" + draw(st.sampled_from(["cpu", "1", "a.1"]))
    return v


def bumped(text, p):
    v = PVersion(text)
    major, minor, patch = (v.release + (0, 0))[:3]
    epoch = f"{v.epoch}!" if v.epoch else ""
    if p == "major":
        return PVersion(f"{epoch}{major + 1}.0.0")
    if p == "minor":
        return PVersion(f"{epoch}{major}.{minor + 1}.0")
    if p == "patch":
        return PVersion(f"{epoch}{major}.{minor}.{patch + 1}")
    order = ["a", "b", "rc"]
    here = f"{epoch}{major}.{minor}.{patch}"
    if v.pre is None:
        if v.is_devrelease and v.post is None:  # a development version of this release: before every pre-release
            return PVersion(f"{here}{p}0")
    elif v.pre[0] == p:
        return PVersion(f"{here}{p}{v.pre[1] + 1}")
    elif order.index(v.pre[0]) < order.index(p):
        return PVersion(f"{here}{p}0")
    return PVersion(f"{epoch}{major}.{minor}.{patch + 1}{p}0")


@CHECK.test("bump", st.tuples(version(), st.lists(particle, min_size=1, max_size=6)), quick=3000, thorough=40000)
def check_bump(case, t):
    text, particles = case
    t.nontrivial(not text.replace(".", "").isdigit() or len({len(p) > 2 for p in particles}) > 1)
    v = Version.parse(text)
    for p in particles:
        t.label(p)
        n = v.bump(p)
        t.check(n > v and not n <= v and PVersion(str(n)) > PVersion(str(v)), f"{v} bumped at {p} is {n}, which is not newer", key="newer")
        t.eq(PVersion(str(n)), bumped(str(v), p), f"{v} bumped at {p}", key="value")
        t.check(len(PVersion(str(n)).release) == 3, f"{v} bumped at {p} is {n}, not of three parts", key="value")
        t.eq(str(Version.parse(text if v is None else str(v))), str(v), "the version that was bumped", key="value")
        v = n


def cases(tier):
    pres = ["", "a0", "a1", "b0", "b2", "rc1"]
    return [(f"{r}{pre}{post}{dev}{loc}", p) for r in ("0.0.0", "1.9.9", "1!2.0.3") for pre in pres for post in ("", ".post0", ".post2") for dev in ("", ".dev0", ".dev3") for loc in ("", "+l") for p in PARTICLES]


@CHECK.test("every shape", cases=cases)
def check_shapes(case, t):
    text, p = case
    t.nontrivial(True)
    v = Version.parse(text)
    n = v.bump(p)
    t.check(n > v, f"{v} bumped at {p} is {n}, which is not newer", key="newer")
    t.eq(PVersion(str(n)), bumped(text, p), f"{v} bumped at {p}", key="value")


LAYOUTS = [
    '[project]\nname = "x"\nversion = "{v}"\n',
    '# project\n[project] # the table\nversion = \'{v}\' # the version = "1"\nname="x"\ndescription = "version = \\"{v}\\""\n\n[tool.x]\nversion = "{v}"\n',
    '[build-system]\nrequires = ["pkm >={v0}"]\nbuild-backend = "pkm.api.buildsys"\n\n[project]\nname = "My_Name"\n  version   =   """{v}"""\ndependencies = [\n  "a >= 1", # one\n  "b=={v0}"\n]\n# end',
    'project.name = "x"\nproject.version = "{v}"\nproject.requires-python = ">=3.8, <4"\n[tool.pkm.project]\npackages = ["a"]\n',
    '[tool]\nversion = "{v}"\n[project]\nname = "x"\nversion = "{v}"\nauthors = [{{name = "A"}}, {{email = "b@c"}}]\nreadme = {{file = "R.md", content-type = "text/x-rst"}}\n[project.urls]\n"a b" = "https://x/{v}"\n[project.optional-dependencies]\nversion = ["c ; python_version < \'3\'"]\n',
]
history = st.lists(st.tuples(st.one_of(particle, st.sampled_from(["name", "bad", "bad"])), st.booleans(), st.booleans()), min_size=1, max_size=5)


def values(text):
    d = tomllib.loads(text)
    return d["project"].pop("version"), d


@CHECK.test("project file", st.tuples(st.integers(0, len(LAYOUTS) - 1), version(), history, st.booleans()), quick=900, thorough=12000)
def check_file(case, t):
    layout, v0, steps, crlf = case
    source = LAYOUTS[layout].format(v=v0, v0="1.0")
    p = t.scratch() / "x" / "pyproject.toml"
    p.parent.mkdir()
    p.write_text(source.replace("\n", "\r\n") if crlf else source, newline="")
    t.nontrivial(len({len(s[0]) > 2 for s in steps}) > 1 or layout > 1)
    prj = Project.load(p.parent)
    version_ = v0
    for particle_, save, reload in steps:
        before = p.read_text()
        t.label(particle_)
        named = PVERSION.fullmatch(version_) is None
        try:
            if particle_ == "name":
                got = prj.bump_version("name", "some-name", save=save)
            else:
                got = prj.bump_version("micro" if particle_ == "bad" else particle_, save=save)
        except (UnsupportedOperationException, ValueError) as e:
            t.check(particle_ == "bad" or named, f"{version_} could not be bumped at {particle_}: {e}", key="refused")
            t.eq(p.read_text(), before, "the file after a refused bump", key="refused")
            t.eq(str(prj.config.project.version), version_ if named else str(Version.parse(version_)), "the version after a refused bump", key="refused")
            continue
        t.check(particle_ != "bad" and (particle_ == "name" or not named), f"{version_} was bumped at {particle_ if particle_ != 'bad' else 'micro'} to {got}", key="refused")
        want = "some-name" if particle_ == "name" else str(got)
        if particle_ != "name":
            t.eq(PVersion(str(got)), bumped(version_, particle_), f"{version_} bumped at {particle_}", key="value")
        t.check(str(got) == want and str(prj.version) == want and str(prj.descriptor.version) == want and str(prj.config.project.version) == want, f"the project's version is {prj.version} after a bump to {got}", key="project")
        t.eq(str(prj.published_metadata.package_version), want, "the version in the metadata", key="project")
        after = p.read_text()
        if save:
            file_version, rest = values(after)
            t.eq(file_version, want, "the version in the file", key="file")
            t.eq(rest, values(before)[1], "the rest of the file", key="file")
            b, a = ([x for x in s.splitlines() if x.strip()] for s in (before, after))
            changed = [(x, y) for x, y in zip(b, a) if x != y]
            if layout != 2 or '"""' not in before:
                t.check(len(a) == len(b) and len(changed) <= 1 and all(re.match(r"\s*(project\.)?version\b", x) for x, _ in changed), f"the bump changed the lines {changed or (b, a)}", key="lines")
            comments = [c for line in before.splitlines() if not re.match(r"\s*(project\.)?version\b", line) for c in re.findall(r"#[^\n]*", line)]
            t.check(all(c in after for c in comments), f"a comment of {comments} is lost in {after!r}", key="lines")
            version_ = want
            if reload:
                prj = Project.load(p.parent)
                t.eq(str(prj.version), want, "the version of the reloaded project", key="project")
        else:
            t.eq(after, before, "the file of a bump without saving", key="file")
            version_ = want


PVERSION = re.compile(r"[0-9].*")


@CHECK.test("other versions", st.tuples(st.one_of(version(parts=1), version(parts=2), version(parts=4), st.sampled_from(["name", "a1", "x.y.z"])), particle), quick=300, thorough=3000)
def check_refused(case, t):
    """versions that are not of three parts are refused and the project is left as it is"""
    text, p = case
    f = t.scratch() / "x" / "pyproject.toml"
    f.parent.mkdir()
    f.write_text(f'[project]\nname = "x"\nversion = "{text}"\n')
    t.nontrivial(True)
    prj = Project.load(f.parent)
    before = str(prj.version)
    try:
        got = prj.bump_version(p)
    except UnsupportedOperationException:
        t.eq(f.read_text(), f'[project]\nname = "x"\nversion = "{text}"\n', "the file", key="refused")
        t.eq(str(prj.version), before, "the version", key="refused")
    else:
        t.fail(f"{text} was bumped at {p} to {got}", key="refused")
