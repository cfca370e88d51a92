"""C33: templates. Oracle: an own description of the generated template (names and contents as lists of literals and variables), evaluated without the template engine, and whole-tree
comparison of everything around the target directory before and after."""
import os
import sys
from pathlib import Path

from hypothesis import strategies as st

from vlib import Check
from pkm_cli.api.dynamic_cli.command_parser import DynamicCommandLine
from pkm_cli.api.templates.template_runner import TemplateRunner

CHECK = Check("C33", "template trees (rendered, copied, preserved and ignored files; names with variables), argument values, pre-existing target trees, overwrite settings, templates in the working directory "
                     "or in the pkm_templates namespace; built-in project template with free texts; non-trivial = at least two files are described and something exists in the target, or a name depends on a value", workers=6)

# a piece of text: a literal, or a variable with its spelling in the template
VARS = ["a", "b", "n", "missing"]
LITS = ["x", "mod", "-", "_", "data", "README", ".txt", ".py", "é"]


def name_parts():
    var = st.tuples(st.just("var"), st.sampled_from(VARS))
    lit = st.tuples(st.just("lit"), st.sampled_from(LITS))
    return st.one_of(st.lists(lit, min_size=1, max_size=2), st.tuples(lit, var).map(list), st.tuples(var).map(list), st.tuples(var, lit).map(list))


TEXTS = ["hello ", "line\n", "Ü€\n", "{ }", "# x\n", "\n", " %s ", "\\n", "'\"", "<&>"]
text_parts = st.lists(st.one_of(st.tuples(st.just("lit"), st.sampled_from(TEXTS)), st.tuples(st.just("var"), st.sampled_from(VARS)), st.tuples(st.just("if"), st.sampled_from(TEXTS)),
                                st.tuples(st.just("for"), st.sampled_from(["*", "- "]))), max_size=5)
RAW = [b"", b"plain\n", b"{{a}} and {% if %}\n", b"\x00\xff\xfe", "Ü{{b}}".encode()]


def files(name):
    return st.one_of(
        st.fixed_dictionaries({"kind": st.just("tmpl"), "name": name, "text": text_parts, "bad": st.sampled_from([None] * 25 + ["syntax", "undefined"])}),
        st.fixed_dictionaries({"kind": st.just("tmpl"), "name": name, "text": text_parts, "bad": st.none()}),
        st.fixed_dictionaries({"kind": st.just("copy"), "name": name, "raw": st.sampled_from(RAW)}))


def dirs(children):
    return st.fixed_dictionaries({"kind": st.sampled_from(["dir", "dir", "dir", "preserve"]), "name": name_parts(), "children": st.lists(children, max_size=4)})


entries = st.recursive(files(name_parts()), dirs, max_leaves=6)
VALUES = ["val", "v.x", "Übung", "", "sub/dir", "../up", "x.tmpl", "mod", "x", "data", "two words", "."]


@st.composite
def cases(draw):
    tree = draw(st.lists(entries, min_size=1, max_size=6))
    return {
        "tree": tree, "a": draw(st.sampled_from(VALUES)), "b": draw(st.sampled_from(VALUES)), "rest": draw(st.lists(st.sampled_from(["r1", "r2", ""]), max_size=2)), "flag": draw(st.booleans()),
        "n": draw(st.sampled_from([0, 3, 12])), "overwrite": draw(st.booleans()), "give_b": draw(st.booleans()),
        "ignore": draw(st.one_of(st.none(), st.lists(st.sampled_from(["*.py", "x*", "mod", "*data*", "", "  ", "nothing", "*.tmpl", "README", " *.py ", "x* ", "\tREADME"]), max_size=2))),
        # what exists in the target: made of the outputs of the template (by number) and of other files
        "existing": draw(st.lists(st.tuples(st.sampled_from(["output", "output as dir", "parent as file", "dir only", "link", "other"]), st.integers(0, 8)), max_size=3)),
        "target": draw(st.sampled_from(["target", "target", "not/yet/there", "."])), "where": draw(st.sampled_from(["local", "local", "local sub", "local dash", "namespace", "namespace link"])),
        "post": draw(st.sampled_from(["yes", "no", "yes"])), "setup": draw(st.sampled_from(["ok"] * 12 + ["raise", "not a dict"])), "cli": draw(st.booleans()),
    }


def spell(parts):
    return "".join(p[1] if p[0] == "lit" else "{{%s}}" % p[1] for p in parts)


def spell_text(parts):
    out = ""
    for kind, v in parts:
        out += v if kind == "lit" else "{{ %s }}" % v if kind == "var" else "{%% if flag %%}%s{%% else %%}no{%% endif %%}" % v if kind == "if" else "{%% for r in rest %%}%s{{r}}{%% endfor %%}" % v
    return out


def evaluate(parts, env):
    out = ""
    for kind, v in parts:
        if kind == "lit":
            out += v
        elif kind == "var":
            out += str(env.get(v, ""))
        elif kind == "if":
            out += v if env["flag"] else "no"
        else:
            out += "".join(v + r for r in env["rest"])
    return out


def match(name, patterns):
    import fnmatch
    return any(fnmatch.fnmatchcase(name, p.strip()) for p in patterns or () if p.strip())


class Bad(Exception):
    pass


def clean(tree):
    """entries of one directory have different names on disk"""
    seen, out = set(), []
    for e in tree:
        disk = spell(e["name"]) + (".tmpl" if e["kind"] == "tmpl" else "")
        if disk in seen or disk in ("", ".", ".."):
            continue
        seen.add(disk)
        out.append({**e, "disk": disk, **({"children": clean(e["children"])} if "children" in e else {})})
    return out


def executable(content):
    """which of the files of a template are executable"""
    return sum(content) % 2 == 1


def write_tree(tree, where):
    where.mkdir(parents=True, exist_ok=True)
    for e in tree:
        p = where / e["disk"]
        if e["kind"] == "tmpl":
            bad = {"syntax": "{% if %}", "undefined": "{{ missing.attribute.x }}", None: ""}[e["bad"]]
            p.write_text(spell_text(e["text"]) + bad, encoding="utf-8")
        elif e["kind"] == "copy":
            p.write_bytes(e["raw"])
        else:
            write_tree(e["children"], p)
        if e["kind"] in ("tmpl", "copy") and executable(p.read_bytes()):
            p.chmod(0o755)
        if "children" in e:
            if e["kind"] == "preserve":
                (p / ".templatepreserve").write_text("")


def outputs(tree, base, env, ignore, verbatim=False):
    """(path, content) in no order; content None for directories; "preserve markers" are left out"""
    for e in tree:
        if verbatim:
            p = os.path.normpath(os.path.join(base, e["disk"]))
            if "children" in e:
                yield p, None
                yield from outputs(e["children"], p, env, None, True)
            else:
                yield p, e["raw"] if e["kind"] == "copy" else (spell_text(e["text"]) + {"syntax": "{% if %}", "undefined": "{{ missing.attribute.x }}", None: ""}[e["bad"]]).encode()
            continue
        if match(e["disk"], ignore):
            continue
        name = evaluate(e["name"], env)
        if not name:
            continue
        p = os.path.normpath(os.path.join(base, name))
        if e["kind"] == "tmpl":
            if e["bad"]:
                raise Bad()
            yield p, ("text", evaluate(e["text"], env))
        elif e["kind"] == "copy":
            yield p, e["raw"]
        else:
            yield p, None
            if e["kind"] == "preserve":
                yield p + "/.templatepreserve", b""
            yield from outputs(e["children"], p, env, ignore, e["kind"] == "preserve")


def snapshot(root, skip):
    out = {}
    for p, ds, fs in os.walk(root):
        ds[:] = [d for d in ds if os.path.join(p, d) not in skip and d != "__pycache__"]
        for d in ds:
            q = os.path.join(p, d)
            out[q] = ("link", os.readlink(q)) if os.path.islink(q) else None
        for f in fs:
            q = os.path.join(p, f)
            if f != ".templatepreserve":  # whether the marker is copied with the preserved files is left open
                out[q] = ("link", os.readlink(q)) if os.path.islink(q) else open(q, "rb").read()
    return out


RENDER = '''"""a generated template"""
global target_dir
LOG = []

def setup(a: str, b: str = "dflt", *rest: str, flag: bool = False, n: int = 3):
    LOG.append(("setup", str(target_dir)))
    %s
    return dict(a=a, b=b, rest=rest, flag=flag, n=n)
'''


@CHECK.test("templates", cases(), quick=2500, thorough=120000)
def templates(case, t):
    root = t.scratch()
    work = root / "base" / "work"
    work.mkdir(parents=True)
    old = os.getcwd()
    t.cleanup(lambda: os.chdir(old))
    os.chdir(work)
    tree = clean(case["tree"])
    where = case["where"]
    if where.startswith("namespace"):
        site = root / "site"
        tdir = site / "pkm_templates" / "gen_t"
        name = "gen-t"
        if where == "namespace link":
            site.mkdir()
            (root / "linked").symlink_to(site)
            site = root / "linked"
        forget = lambda: [sys.modules.pop(m) for m in list(sys.modules) if m == "pkm_templates" or m.startswith("pkm_templates.")]
        forget()
        sys.path.insert(0, str(site))
        t.cleanup(lambda: (sys.path.remove(str(site)), forget()))
    else:
        name, rel = {"local": ("tpl", "tpl"), "local sub": ("sub.tpl", "sub/tpl"), "local dash": ("my-tpl", "my-tpl")}[where]
        tdir = work / rel
    write_tree(tree, tdir)
    code = RENDER % {"ok": "pass", "raise": "raise ValueError('no')", "not a dict": "return 7"}[case["setup"]]
    if case["post"] == "yes":
        code += "\ndef post_render(context):\n    LOG.append(('post', context['a'], sorted(str(p) for p in target_dir.rglob('*')) != []))\n"
    (tdir / "render.py").write_text(code)
    if case["ignore"] is not None:
        (tdir / ".templateignore").write_text("\n".join(case["ignore"]))
    sys.dont_write_bytecode = True
    target = (work / case["target"]).resolve()
    env = {"a": case["a"], "b": case["b"] if case["give_b"] else "dflt", "flag": case["flag"], "n": case["n"], "rest": case["rest"] if case["give_b"] else []}
    # the template, evaluated by itself
    broken = case["setup"] != "ok"
    outs = []
    if not broken:
        try:
            outs = list(outputs(tree, str(target), env, case["ignore"]))
        except Bad:
            broken = True
    fs = [p for p, c in outs if c is not None]
    ds = {p for p, c in outs if c is None} | {str(q) for p, _ in outs for q in Path(p).parents}
    # what exists there already
    (work / "keep").mkdir()
    (work / "keep" / "other.txt").write_text("kept")
    for kind, i in case["existing"]:
        if case["target"] == "not/yet/there":
            break
        paths = [p for p, _ in outs if p.startswith(str(root / "base"))]
        if kind == "other" or not paths:
            (target / "unrelated").mkdir(parents=True, exist_ok=True)
            (target / "unrelated" / f"{i}.txt").write_text("unrelated")
            continue
        p = Path(paths[i % len(paths)])
        if kind == "parent as file":
            p = p.parent
            kind = "output"
        if os.path.lexists(p) or p == target or any(q.exists() and not q.is_dir() for q in p.parents) or (str(p) + "/").startswith(str(tdir) + "/") or str(work).startswith(str(p) + "/"):
            continue
        try:
            p.parent.mkdir(parents=True, exist_ok=True)
        except OSError:  # below of another existing link
            continue
        if kind == "output":
            p.write_bytes(b"existed before")
        elif kind == "link":
            p.symlink_to("nowhere")
        else:
            p.mkdir()
            if kind == "output as dir":
                (p / "inner.txt").write_text("existed before")
    touches = [p for p in [*fs, *ds] if (p + "/").startswith(str(tdir) + "/") or not p.startswith(str(root)) and p not in {str(q) for q in [root, *root.parents]}]
    if touches:  # a template that writes over its own files, or out of the scratch directory, is not judged
        return t.label("target inside of the template")
    if any(os.path.islink(q) for p in fs for q in [p]) and case["overwrite"]:
        return t.label("overwriting links")
    before = snapshot(root, {str(tdir)})
    template_before = snapshot(tdir, set())
    conflict = (len(set(fs)) != len(fs) or bool(set(fs) & ds) or any(os.path.lexists(d) and not os.path.isdir(d) for d in ds) or any(os.path.isdir(f) for f in fs)
                or (not case["overwrite"] and any(os.path.lexists(f) for f in fs)))
    t.nontrivial(len(fs) >= 2 and len(case["existing"]) > 0 or any(p[0] == "var" for e in tree for p in e["name"]))
    t.label("broken" if broken else "conflict" if conflict else "fine")

    runner = TemplateRunner()
    try:
        with runner.load_template(name) as tpl:
            if case["cli"]:
                cdef = tpl.as_command("new tpl", target)
                line = ["new", "tpl", *(["-o"] if case["overwrite"] else []), *(["--flag"] if case["flag"] else []), "-n", str(case["n"]), case["a"]] + ([case["b"], *case["rest"]] if case["give_b"] else [])
                cmd = DynamicCommandLine.create([cdef], line).parse()
                cmd.execute()
            else:
                args = {"a": case["a"], "flag": case["flag"], "n": case["n"]}
                if case["give_b"]:
                    args.update(b=case["b"], rest=tuple(case["rest"]))
                tpl.execute(target, args, case["overwrite"])
            log = tpl._module.LOG
    except Exception as e:
        if not (broken or conflict):
            t.fail(f"rendering failed: {type(e).__name__}: {str(e).replace(str(root), '')}; outputs {[p.replace(str(root), '') for p, _ in outs]}", key=f"fails: {type(e).__name__}")
        after = snapshot(root, {str(tdir)})
        changed = {p: v for p, v in after.items() if before.get(p, 0) != v}
        gone = [p for p in before if p not in after]
        t.check(not gone and not any(v is not None for v in changed.values()),
                lambda: f"a failed rendering changed {[p.replace(str(root), '') for p in [*changed, *gone]]}", key="failed rendering changed files")
        t.eq(snapshot(tdir, set()), template_before, "the template itself", key="template changed")
        return
    if broken or conflict:
        t.fail(f"{'a broken template' if broken else 'a conflict'} was not reported; outputs {[p.replace(str(root), '') for p, _ in outs]}, existing {case['existing']}", key="broken accepted" if broken else "conflict not reported")
    after = snapshot(root, {str(tdir)})
    want = dict(before)
    for d in ds:
        if d.startswith(str(root) + "/") and d not in want:
            want[d] = None
    want.update({p: c for p, c in outs if c is not None and not p.endswith("/.templatepreserve")})
    for p in sorted(set(after) | set(want)):
        short = p.replace(str(root), "")
        if p == str(target) and not outs:
            continue
        if p not in after:
            t.fail(f"{short} was not created", key="missing file")
        if p not in want:
            if p.startswith(str(target)) or after[p] is not None:
                t.fail(f"{short} was created without being described by the template", key="additional file")
            continue
        got, exp = after[p], want[p]
        if isinstance(exp, tuple) and exp[0] == "text":
            ok = got is not None and not isinstance(got, tuple) and (got == exp[1].encode() or got + b"\n" == exp[1].encode())
            exp = exp[1].encode()
        else:
            ok = got == exp
        t.check(ok, lambda: f"{short}: got {got!r}, expected {exp!r}", key="content" if p in dict(outs) else "other file changed")
        if isinstance(dict(outs).get(p), bytes) and not os.path.islink(p):
            t.eq(os.access(p, os.X_OK), executable(exp), f"whether {short} is executable, as the copied file", key="mode")
    t.eq(snapshot(tdir, set()), template_before, "the template itself", key="template changed")
    t.eq([x[:2] for x in log], [("setup", str(target))] + ([("post", case["a"])] if case["post"] == "yes" else []), "the calls of the functions of the template", key="life-cycle")
    if case["post"] == "yes" and fs and all(f.startswith(str(target)) for f in fs):
        t.check(log[-1][2], "post_render was called before the files were there", key="life-cycle")


# ---- templates rendering other templates; templates found in the namespace

@st.composite
def nested(draw):
    return {"outer": draw(st.sampled_from(["o.txt", "d/o.txt"])), "value": draw(st.sampled_from(["v", "Ü x", "7"])), "exists": draw(st.sampled_from([None, "inner", "outer"])), "overwrite": draw(st.booleans()),
            "namespace": draw(st.booleans()), "others": draw(st.lists(st.sampled_from(["t1", "group.t2", "group.deep.t3"]), max_size=3, unique=True))}


@CHECK.test("nested templates", nested(), quick=250, thorough=8000)
def nested_templates(case, t):
    root = t.scratch()
    old = os.getcwd()
    t.cleanup(lambda: os.chdir(old))
    os.chdir(root)
    forget = lambda: [sys.modules.pop(m) for m in list(sys.modules) if m == "pkm_templates" or m.startswith("pkm_templates.")]
    forget()
    base = root / "site" / "pkm_templates" if case["namespace"] else root
    if case["namespace"]:
        sys.path.insert(0, str(root / "site"))
        t.cleanup(lambda: (sys.path.remove(str(root / "site")), forget()))
    for n, code in (("inner_t", "def setup(x, *, y='why'):\n    return dict(x=x, y=y)\n"),
                    ("outer_t", "global render_template\ndef setup(v):\n    render_template('inner-t', x=v, y='given')\n    return dict(v=v)\n")):
        (base / n).mkdir(parents=True)
        (base / n / "render.py").write_text(code)
    (base / "inner_t" / "inner-{{x}}.txt.tmpl").write_text("{{x}} {{y}}")
    (base / "outer_t" / (case["outer"].replace("/", "_") + ".tmpl")).write_text("outer {{v}}")
    for other in case["others"]:
        if case["namespace"]:
            d = base.joinpath(*other.split("."))
            d.mkdir(parents=True)
            (d / "render.py").write_text("def setup():\n    return {}\n")
    target = root / "target"
    target.mkdir()
    inner, outer = target / f"inner-{case['value']}.txt", target / case["outer"].replace("/", "_")
    if case["exists"]:
        (inner if case["exists"] == "inner" else outer).write_text("before")
    runner = TemplateRunner()
    t.nontrivial(True)
    conflict = case["exists"] and not case["overwrite"]
    try:
        with runner.load_template("outer-t") as tpl:
            tpl.execute(target, {"v": case["value"]}, case["overwrite"])
    except IOError as e:
        t.check(conflict, lambda: f"fails with {e}", key="nested fails")
        t.eq((inner if case["exists"] == "inner" else outer).read_text(), "before", "the existing file", key="failed rendering changed files")
    else:
        t.check(not conflict, "the conflict was not reported", key="conflict not reported")
        t.eq(inner.read_text(), f"{case['value']} given", "the file of the nested template", key="nested")
        t.eq(outer.read_text(), f"outer {case['value']}", "the file of the outer template", key="nested")
        t.eq(sorted(p.name for p in target.iterdir()), sorted([inner.name, outer.name]), "the files in the target", key="nested")
    names = set(runner.templates_in_namespace())
    t.check({"project", "pgroup", "envzoo", "env", "task", "project_from_env"} <= names, lambda: f"the templates of pkm are not all listed: {sorted(names)}", key="listing")
    t.eq(names - {"project", "pgroup", "envzoo", "env", "task", "project_from_env"}, {"inner_t", "outer_t", *case["others"]} if case["namespace"] else set(), "the other listed templates", key="listing")
    for n in names:
        with runner.load_template(n) as tpl:
            t.eq(tpl.describe() == "", False, "the description of a template", key="listing")
    try:
        with runner.load_template("does-not-exist"):
            t.fail("a template that does not exist was loaded", key="unknown template")
    except FileNotFoundError:
        pass


# ---- the built-in templates

FREE = st.text(alphabet="ab \"'\\{}%#=üé€😀<>&\t[]", max_size=12)


@st.composite
def projects(draw):
    return {"name": draw(st.sampled_from(["demo", "My-Project", "a.b_c", "x9"])), "version": draw(st.sampled_from(["0.1.0", "1!2.0rc1", "3"])), "description": draw(FREE), "author": draw(FREE.filter(lambda s: s.strip())),
            "readme": draw(st.sampled_from(["Markdown", "reStructuredText"])), "python": draw(st.sampled_from(["3.8", "3.12"])), "license": draw(st.sampled_from(["MIT License", "Apache Software License", 'The "x" License'])),
            "kind": draw(st.sampled_from(["project", "project", "pgroup", "envzoo", "task"])), "share": draw(st.booleans()), "in_group": draw(st.booleans())}


@CHECK.test("built-in templates", projects(), quick=200, thorough=6000)
def builtin(case, t):
    from pkm.api.projects.project import Project
    from pkm.api.versions.version import Version
    from pkm.api.projects.project_group import ProjectGroup
    from pkm.api.environments.environments_zoo import EnvironmentsZoo
    root = t.scratch()
    t.nontrivial(True)
    t.label(case["kind"])
    answers = {"Version": case["version"], "Short description": case["description"], "Readme type": case["readme"], "Required Python Version": case["python"], "Author": case["author"], "License": case["license"],
               "Project Name": case["name"], "Group Name": case["name"], "Zoo Name": case["name"], "Enable Package Sharing": case["share"], "Task Name": "deep.do-it", "Register into the project group in the current directory": True}
    runner = TemplateRunner()
    if case["kind"] == "task" or case["in_group"]:
        (root / ("pyproject.toml" if case["kind"] == "task" else "pyproject-group.toml")).write_text('[project]\nname="p"\nversion="1"\n' if case["kind"] == "task" else "[project-group]\nchildren=[]\n")
    with runner.load_template(case["kind"]) as tpl:
        tpl._builtins.ask = lambda prompt, *a, **k: answers[prompt]
        tpl._builtins.confirm = lambda prompt, *a, **k: answers[prompt]
        args = {"project": {"project_name": case["name"]}, "pgroup": {"group_name": case["name"]}, "envzoo": {"zoo_name": case["name"]}, "task": {}}[case["kind"]]
        tpl.execute(root, args)
    if case["kind"] == "project":
        prj = Project.load(root / case["name"])
        p = prj.config.project
        t.eq((p.name, str(p.version), p.description, [a.name for a in p.authors], p.license, p.dependencies), (case["name"], case["version"], case["description"], [case["author"]], case["license"], []),
             "the configuration of the generated project", key="project template")
        t.check(p.requires_python.allows_version(Version.parse(case["python"] + ".1")) and not p.requires_python.allows_version(Version.parse("3.7.9")), f"the python requirement {p.requires_python}", key="project template")
        src = root / case["name"] / "src" / prj.descriptor.expected_src_package_name
        t.check((src / "__init__.py").exists() and (src / "main.py").exists(), lambda: f"sources: {sorted(str(x.relative_to(root)) for x in root.rglob('*'))}", key="project template")
        compile((src / "main.py").read_text(encoding="utf-8"), "main.py", "exec")
        if case["in_group"]:
            t.eq([c.path for c in ProjectGroup.load(root).children], [root / case["name"]], "the projects of the group", key="project template: group")
    elif case["kind"] == "pgroup":
        t.eq(list(ProjectGroup.load(root / case["name"]).children), [], "the generated group", key="group template")
    elif case["kind"] == "envzoo":
        zoo = EnvironmentsZoo.load(root / case["name"])
        t.eq(zoo.config.package_sharing.enabled, case["share"], "the package sharing of the zoo", key="zoo template")
    else:
        code = (root / "tasks" / "deep" / "do_it.py").read_text(encoding="utf-8")
        compile(code, "do_it.py", "exec")
        t.check("def run(" in code, "the task has a run function", key="task template")
