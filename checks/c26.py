"""C26: project groups. Oracle: a model of the membership lists written in the generated directory tree; every group and project is looked at again through objects loaded from disk."""
import functools
import os
import re
import tomllib
from pathlib import Path

from hypothesis import strategies as st

import wheelkit as wk
from vlib import Check
from pkm.api.dependencies.dependency import Dependency
from pkm.api.projects.project import Project
from pkm.api.projects.project_group import ProjectGroup
from pkm.repositories.file_system_repository import FileSystemRepositoryBuilder

CHECK = Check("C26", "trees of up to eight directories that are groups, projects or neither, with every way to write a member, and histories of add, remove and reload; "
                     "non-trivial = a member was added or removed and at least two groups exist", workers=6)

DIRS = ["p", "q", "sub", "My.pkg", "x y", "lib-é"]
NAMES = ["alpha", "beta", "My.Pkg", "c-d"]
KINDS = ["project", "project", "group", "group", "plain"]
EXTRAS = ["", "# a comment\n", '# about the group\nname = "My group"\n', 'note = "keep"  # why\n', 'name = "g"\n']
TAILS = ["", "\n[extra]\n# inner\na = 1\nb = [1, 2]\n", "\n[extra.deep]\nx = 'y'\n"]

index = st.integers(0, 7)
node = st.tuples(index, st.sampled_from(DIRS), st.sampled_from(KINDS), st.sampled_from(NAMES))
entry = st.tuples(st.integers(0, 9), st.sampled_from(["rel", "rel", "dot", "abs", "slash", "around"]))
group_cfg = st.tuples(st.sampled_from(EXTRAS), st.lists(entry, max_size=4, unique_by=lambda e: e[0]), st.sampled_from(TAILS), st.booleans(), st.sampled_from([None] * 4 + ["dir", "file"]), index)
op = st.one_of(
    st.tuples(st.just("add"), index, index, st.sampled_from(["project", "path", "path", "around"]), st.booleans()),
    st.tuples(st.just("remove"), index, index, st.sampled_from(["path", "name", "name", "spelled", "around"]), st.booleans()),
    st.tuples(st.just("remove-name"), index, st.sampled_from(NAMES + ["nobody"])),
    st.tuples(st.just("reload"), index))
cases = st.fixed_dictionaries({
    "nodes": st.lists(node, min_size=4, max_size=7), "groups": st.lists(group_cfg, min_size=8, max_size=8),
    "declared": st.lists(st.sampled_from([None] * 6 + ["dir", "file"]), min_size=8, max_size=8), "ops": st.lists(op, min_size=1, max_size=6), "link": st.booleans()})


@functools.lru_cache(maxsize=None)
def environment():
    return wk.environment(Path(os.environ["HOME"]) / f"env-{os.getpid()}")


def key(n):
    return re.sub("[^a-z0-9]+", "-", n.lower()).strip("-")


class Tree:
    """the directories as generated: their kinds and the members every group should have"""

    def __init__(self, root, case):
        self.root = root
        self.kind, self.path, self.name, self.up = ["group"], [root], ["root"], [None]
        for parent, d, kind, name in case["nodes"]:
            parent %= len(self.path)
            p = self.path[parent] / d
            if p in self.path or self.kind[parent] == "project":
                continue
            self.path.append(p), self.kind.append(kind), self.name.append(name), self.up.append(parent)
        self.members = {}     # group -> [target (node, or a path that is no node)]
        self.raw = {}         # group -> the entries as written
        self.parent = {}      # group -> explicit parent
        self.declared = {}    # project -> explicit group
        self.title, self.named = {}, {}
        groups = [i for i, k in enumerate(self.kind) if k == "group"]
        for i, p in enumerate(self.path):
            p.mkdir(exist_ok=True, parents=True)
            if self.kind[i] == "group":
                self.write_group(i, case["groups"][i], groups)
            elif self.kind[i] == "project":
                tool = ""
                if how := case["declared"][i]:
                    self.declared[i] = g = groups[i % len(groups)]
                    rel = os.path.relpath(self.path[g], p)
                    tool = f'\n[tool.pkm.project]\ngroup = "{rel + ("/pyproject-group.toml" if how == "file" else "")}"\n'
                (p / "pyproject.toml").write_text(f'[project]\nname = "{self.name[i]}"\nversion = "1.{i}"\n{tool}')

    def write_group(self, i, cfg, groups):
        extra, entries, tail, no_children, parent, at = cfg
        self.members[i], self.raw[i] = [], []
        for n, form in entries:
            if n >= len(self.path):
                target = self.path[i] / ("missing" if n == 8 else "gone/deep")
            elif n <= i:
                continue
            else:
                target = self.path[n]
            rel = os.path.relpath(target, self.path[i])
            text = {"rel": rel, "dot": "./" + rel, "abs": str(target), "slash": rel + "/", "around": f"{DIRS[0]}/../{rel}" if (self.path[i] / DIRS[0]).is_dir() else rel}[form]
            self.members[i].append(n if n < len(self.path) else target)
            self.raw[i].append(text)
        lines = "" if no_children and not entries else "children = [" + ", ".join(f'"{r}"' for r in self.raw[i]) + "]\n"
        up = ""
        smaller = [g for g in groups if g < i]
        if parent and smaller:
            self.parent[i] = g = smaller[at % len(smaller)]
            up = f'parent = "{os.path.relpath(self.path[g], self.path[i])}{"/pyproject-group.toml" if parent == "file" else ""}"\n'
        m = re.search('name = "(.*)"', extra)
        self.named[i] = bool(m)
        self.title[i] = m.group(1) if m else self.path[i].name
        (self.path[i] / "pyproject-group.toml").write_text(extra + lines + up + tail)

    # expectations
    def listed(self, g):
        return [m for m in self.members[g] if not isinstance(m, Path) and self.kind[m] != "plain"]

    def recursive(self, g):
        return [p for m in self.listed(g) for p in ([m] if self.kind[m] == "project" else self.recursive(m))]

    def finder(self, i):
        """the nearest directory above that names i"""
        for up in self.path[i].parents:
            if up in self.path and (g := self.path.index(up)) in self.members and i in self.members[g]:
                return g
        return None

    def group_of(self, p):
        return self.declared[p] if p in self.declared else self.finder(p)

    def parent_of(self, g):
        return self.parent[g] if g in self.parent else self.finder(g)

    def root_of(self, g):
        p, seen = self.parent_of(g), g
        while p is not None:
            seen, p = p, self.parent_of(p)
        return None if seen == g else seen

    def at(self, i, how):
        return self.path[i].parent / "nowhere" / ".." / self.path[i].name if how == "around" else self.path[i]


def listing(tree, objects):
    return [(tree.path.index(Path(o.path).resolve()) if Path(o.path).resolve() in tree.path else str(o.path)) for o in objects]


def verify_group(tree, g, group, t, what):
    t.eq(listing(tree, group.children), tree.listed(g), f"{what}: children")
    for c, m in zip(group.children, tree.listed(g)):
        t.eq(isinstance(c, Project), tree.kind[m] == "project", f"{what}: a child is of the wrong kind")
        back = c.group if isinstance(c, Project) else c.parent
        t.eq(back and back.path.resolve(), group.path.resolve(), f"{what}: a child reached through the group belongs to another one")
    t.eq(listing(tree, group.project_children_recursive), tree.recursive(g), f"{what}: all projects")
    if tree.named[g] or group.path == tree.path[g]:
        t.eq(group.config.name, tree.title[g], f"{what}: name")


def verify(tree, t, via, what):
    """everything again, through objects made from the files on disk"""
    where = lambda i: via / tree.path[i].relative_to(tree.root)
    for g in tree.members:
        verify_group(tree, g, ProjectGroup.load(where(g)), t, f"{what}, reloaded group {g}")
        group = ProjectGroup.load(where(g))
        for title, found, expected in (("parent", group.parent, tree.parent_of(g)), ("root", group.root, tree.root_of(g))):
            t.eq(found and found.path.resolve(), tree.path[expected] if expected is not None else None, f"{what}: {title} of group {g}")
    for i, k in enumerate(tree.kind):
        if k == "project":
            project = Project.load(where(i))
            expected = tree.group_of(i)
            t.eq(project.group and project.group.path.resolve(), tree.path[expected] if expected is not None else None, f"{what}: group of project {i}")


def settings(tree, g):
    text = (tree.path[g] / "pyproject-group.toml").read_text()
    return tomllib.loads(text), sorted(re.findall("#.*", text))


def verify_files(tree, before, t, what):
    for g, (content, comments) in before.items():
        now, now_comments = settings(tree, g)
        t.eq([Path(c) for c in now.get("children", [])], [Path(c) for c in tree.raw[g]], f"{what}: members written for group {g}")
        t.eq({k: v for k, v in now.items() if k != "children"}, {k: v for k, v in content.items() if k != "children"}, f"{what}: other settings of group {g}")
        t.eq(now_comments, comments, f"{what}: comments of group {g}")


def run_op(tree, group, g, o, t):
    """-> did the membership change"""
    if o[0] == "add":
        target = o[2] % len(tree.path)
        if target <= g or (o[3] == "project" and tree.kind[target] != "project"):
            return False
        group.add(Project.load(tree.path[target]) if o[3] == "project" else tree.at(target, o[3]))
        if target in tree.members[g]:
            t.label("add-member")
            return False
        tree.members[g].append(target)
        tree.raw[g].append(str(tree.path[target] if o[3] == "project" else tree.at(target, o[3])))
        return True
    if o[0] == "remove-name" or o[3] in ("name", "spelled"):
        if o[0] == "remove":
            target = o[2] % len(tree.path)
            name = tree.title[target] if tree.kind[target] == "group" else tree.name[target]
            name = name if o[3] == "name" or not name.isascii() else name.upper().replace("-", "_").replace(".", "-")
        else:
            name = o[2]
        named = [m for m in tree.listed(g) if key(tree.title[m] if tree.kind[m] == "group" else tree.name[m]) == key(name)]
        if len(named) != 1:
            t.label("remove-unclear")
            try:
                group.remove(name)
            except ValueError:
                return False
            t.fail(f"removing {name!r}, which is the name of {len(named)} members, was accepted")
        target = named[0]
        group.remove(name)
    else:
        target = o[2] % len(tree.path)
        group.remove(tree.at(target, o[3]))
    if target not in tree.members[g]:
        t.label("remove-stranger")
        return False
    at = tree.members[g].index(target)
    del tree.members[g][at], tree.raw[g][at]
    return True


@CHECK.test("membership", cases, quick=2000, thorough=20000)
def membership(case, t):
    scratch = t.scratch().resolve()
    tree = Tree(scratch / "root", case)
    via = tree.root
    if case["link"]:
        (scratch / "link").symlink_to(tree.root)
        via = scratch / "link"
    before = {g: settings(tree, g) for g in tree.members}
    verify(tree, t, via, "at first")
    live, changed = {}, False
    for n, o in enumerate(case["ops"]):
        groups = list(tree.members)
        g = groups[o[1] % len(groups)]
        if o[0] == "reload":
            live.pop(g, None)
            continue
        group = live.get(g) or live.setdefault(g, ProjectGroup.load(tree.path[g]))
        if o[-1] is True:
            list(group.children), list(group.project_children_recursive)
        what = f"after step {n} ({o[0]})"
        if run_op(tree, group, g, o, t):
            changed = True
            live = {g: group}  # objects that were loaded before do not see a change made through another one
            t.label(o[0])
        verify_group(tree, g, group, t, what)
        verify_files(tree, before, t, what)
    verify(tree, t, via, "at the end")
    repo = FileSystemRepositoryBuilder().build("group", str(tree.root))
    for k in {key(n) for n in tree.name}:
        expected = sorted(f"1.{i}" for i in set(tree.recursive(0)) if key(tree.name[i]) == k)
        found = repo.match(Dependency.parse(next(n for n in tree.name if key(n) == k)), environment())
        t.eq(sorted({str(p.version) for p in found}), expected, f"projects called {k} in the group's repository")
    t.nontrivial(changed and len(tree.members) > 1)
