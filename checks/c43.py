"""C43: project tasks. Real `pkm` command lines over generated tasks; oracle: a model of the calls, their arguments and their order."""
import json
import os
import re
import shutil
import subprocess
import sys
from pathlib import Path

from hypothesis import strategies as st

import wheelkit as wk
from vlib import Check, REPO
from pkm.api.environments.environment_builder import EnvironmentBuilder

CHECK = Check("C43", "command lines running generated project tasks (typed arguments, nested tasks, attachments, third party tasks) in real subprocesses, whose trace is compared with a model; "
                     "non-trivial = a task runs another one, or a task is attached to the command, or the run fails", workers=8)

SOURCES = [str(Path(REPO) / "pkm" / "src"), str(Path(REPO) / "pkm-cli" / "src")]

TYPES = {"int": int, "str": str, "float": float, "bool": bool, None: str, "Optional[int]": int, "Optional[str]": str}

LOG = '''
import json, os, sys
def log(event, **kw):
    with open(os.environ["TRACE"], "a") as f:
        f.write(json.dumps(dict(event=event, cwd=os.getcwd(), prefix=sys.prefix, **kw)) + "\\n")
'''


def body(task):
    """source of a task: logs its arguments, runs the other tasks and may fail in between"""
    params = []
    for name, type_, default, kind in task["params"]:
        if kind == "kw" and not any(p.startswith("*") for p in params):
            params.append("*")
        params.append(("*" if kind == "var" else "") + name + (f": {type_}" if type_ else "") + (f" = {default[0]!r}" if default else ""))
    names = [p[0] for p in task["params"]]
    lines = ["from typing import Optional", "from tracelog import log", "", f"def run({', '.join(params)}):", '    """Runs ' + task["name"] + '"""',
             f"    log('start', task={task['name']!r}, args=dict({', '.join(f'{n}={n}' for n in names)}), "
             f"info=project_info)"]
    for i, step in enumerate(task["steps"]):
        if step == "fail":
            lines.append("    raise ValueError('boom')")
        elif step == "exit":
            lines.append("    raise SystemExit(3)")
        else:
            args = [repr(a) for a in step[1]] + [f"{k}={v!r}" for k, v in step[2].items()]
            lines.append(f"    run_task({step[0]!r}, {', '.join(args)})")
    lines.append(f"    log('end', task={task['name']!r})")
    return "\n".join(lines) + "\n"


class Failed(Exception):
    pass


def bind(task, args, kwargs):
    """what a python call of the task's run function binds"""
    args, kwargs, out = list(args), dict(kwargs), {}
    for name, _, default, kind in task["params"]:
        if kind == "var":
            out[name], args = args, []
        elif kind == "pos" and args:
            out[name] = args.pop(0)
        elif name in kwargs:
            out[name] = kwargs.pop(name)
        elif default:
            out[name] = default[0]
        else:
            raise Failed("missing")
    if args or kwargs:
        raise Failed("too many")
    return out


def simulate(tasks, trace, name, args, kwargs):
    task = tasks.get(name.replace("-", "_"))
    if not task:
        raise Failed("unknown")
    bound = bind(task, args, kwargs)
    trace.append(("start", task["name"], bound))
    for step in task["steps"]:
        if step in ("fail", "exit"):
            raise Failed("failed")
        simulate(tasks, trace, *step)
    trace.append(("end", task["name"], None))


WORDS = ["a", "some value", "", "é", "x=y", "42", "pkm", "run", "@t1", "it's", "$HOME", "a\nb", "*"]


def literal(type_, low=0):
    # a positional value that starts with "-" is an option to the command line
    base = TYPES[type_]
    if base is int:
        return st.integers(low, 50)
    if base is float:
        return st.sampled_from([0.5, 2.0, 1.25, 1e300])
    if base is bool:
        return st.booleans()
    return st.sampled_from(WORDS)


@st.composite
def signature(draw):
    params = []
    optional = False
    for name in draw(st.lists(st.sampled_from(["first", "second_one", "third"]), max_size=3, unique=True)):
        type_ = draw(st.sampled_from(["int", "str", "float", None, "Optional[int]", "bool"]))
        optional = optional or draw(st.booleans())
        params.append((name, type_, (draw(literal(type_)),) if optional else None, "pos"))
    if draw(st.integers(0, 3)) == 0:
        params.append(("rest", draw(st.sampled_from(["int", "str", None])), None, "var"))
    for name in draw(st.lists(st.sampled_from(["level", "out_dir", "flagged", "amount"]), max_size=2, unique=True)):
        if name == "flagged":
            params.append((name, "bool", (False,), "kw"))
        else:
            type_ = draw(st.sampled_from(["int", "str", "Optional[str]", "Optional[int]"]))
            params.append((name, type_, (draw(st.none() if type_.startswith("Opt") else literal(type_)),) if draw(st.integers(0, 3)) else None, "kw"))
    return params


@st.composite
def call(draw, task):
    """positional and keyword values of a valid call"""
    args, kwargs = [], {}
    given_all = True
    for name, type_, default, kind in task["params"]:
        if kind == "pos":
            given_all = given_all and (not default or draw(st.booleans()))
            if given_all:
                args.append(draw(literal(type_)))
        elif kind == "var" and given_all:
            args += draw(st.lists(literal(type_), max_size=3))
        elif kind == "kw" and (not default or draw(st.booleans())):
            kwargs[name] = True if name == "flagged" else draw(literal(type_, -50))
    return args, kwargs


NAMES = ["t1", "t2", "sub_task", "grp.inner", "grp.deep.other_one", "commands_x", "lib.tool"]


@st.composite
def projects(draw, steps=True):
    names = draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=4, unique=True))
    tasks = []
    for name in names:
        task = dict(name=name, params=draw(signature()), steps=[], third=draw(st.integers(0, 4)) == 0)
        if steps:
            for _ in range(draw(st.integers(0, 2))):
                kind = draw(st.integers(0, 11))
                if kind == 0:
                    task["steps"].append(draw(st.sampled_from(["fail", "exit"])))
                elif kind == 1:
                    task["steps"].append(["missing.task", [], {}])
                elif tasks:
                    other = draw(st.sampled_from(tasks))
                    spelled = other["name"].replace("_", "-") if draw(st.integers(0, 3)) == 0 else other["name"]
                    args, kwargs = draw(call(other))
                    task["steps"].append([spelled, args, kwargs])
        tasks.append(task)
    return tasks


@st.composite
def text_of(draw, value):
    if isinstance(value, bool):
        return draw(st.sampled_from(["true", "True", "yes"] if value else ["false", "False", "no"]))
    return str(value)


@st.composite
def runs(draw):
    tasks = draw(projects())
    task = tasks[-1] if draw(st.integers(0, 3)) else draw(st.sampled_from(tasks))
    args, kwargs = draw(call(task))
    options = []
    for k, v in kwargs.items():
        flag = "--" + k.replace("_", "-")
        if v is True and k == "flagged":
            options.append([flag])
        else:
            text = draw(text_of(v))
            options.append([f"{flag}={text}"] if draw(st.booleans()) else [flag, text])
    positionals = [draw(text_of(a)) for a in args]
    argv = [o for option in options for o in option] + positionals if draw(st.booleans()) or any(p[3] == "var" for p in task["params"]) \
        else positionals + [o for option in options for o in option]
    kind = draw(st.sampled_from(["good"] * 8 + ["unknown", "badarg", "help"]))
    return dict(
        tasks=tasks, task=task["name"], spelled=task["name"].replace("_", "-") if draw(st.integers(0, 2)) == 0 else task["name"],
        args=args, kwargs=kwargs, argv=argv, kind=kind,
        before=draw(st.sampled_from([None, None, "ok", "ok", "fail", "calls"])), after=draw(st.sampled_from([None, None, "ok", "fail"])),
        third_attach=draw(st.integers(0, 4)) == 0,
        flag=draw(st.sampled_from([None] * 6 + ["-T", "--without-tasks"])), cwd=draw(st.sampled_from(["", "src", "src/proj"])),
        group=draw(st.integers(0, 4)) == 0, version=draw(st.sampled_from(["1.2", "0.1.0", "2.0rc1"])))


def build_project(case, base):
    root = base / "grp" / "proj" if case["group"] else base / "proj"
    (root / "src" / "proj").mkdir(parents=True)
    (root / "src" / "proj" / "__init__.py").write_text("")
    (root / "tasks").mkdir()
    (root / "pyproject.toml").write_text(f'[project]\nname = "proj"\nversion = "{case["version"]}"\n[build-system]\nrequires = ["pkm"]\nbuild-backend = "pkm.api.buildsys"\n')
    if case["group"]:
        (base / "grp" / "pyproject-group.toml").write_text('name = "grp"\nchildren = ["proj"]\n')
    env = EnvironmentBuilder.create(root / ".venv", Path(wk.INTERPRETER))
    site = Path(env.installation_target.purelib)
    libs = [p for p in sys.path if p.endswith("site-packages") and "veriftools" not in p]
    (site / "sources.pth").write_text("\n".join(SOURCES + libs) + "\n")
    info = site / "pkm_cli-99.dist-info"
    info.mkdir()
    (info / "METADATA").write_text("Metadata-Version: 2.1\nName: pkm-cli\nVersion: 99\n")
    (info / "WHEEL").write_text("Wheel-Version: 1.0\nRoot-Is-Purelib: true\nTag: py3-none-any\n")
    (info / "INSTALLER").write_text("verif")
    (info / "RECORD").write_text("")
    (root / "tasks" / "tracelog.py").write_text(LOG)
    for task in case["tasks"]:
        put(site / "pkm_tasks" if task["third"] else root / "tasks", task["name"], body(task))
    return root, site


def put(base, name, source):
    path = base.joinpath(*name.split(".")).with_suffix(".py")
    path.parent.mkdir(parents=True, exist_ok=True)
    path.write_text(source)


def pkm(root, trace, argv, cwd):
    env = {k: v for k, v in os.environ.items() if k not in ("PYTHONPATH", "VIRTUAL_ENV")}
    env["PYTHONPATH"] = os.pathsep.join(SOURCES)
    env["TRACE"] = str(trace)
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    p = subprocess.run([wk.INTERPRETER, "-m", "pkm_cli.main", *argv], cwd=root / cwd, env=env, capture_output=True, text=True, timeout=100, stdin=subprocess.DEVNULL)
    records = [json.loads(l) for l in trace.read_text().splitlines()] if trace.exists() else []
    return p, records


def attachment(kind, where, calls=None):
    lines = ["from tracelog import log", "def run(command):", f"    log('start', task={where!r}, args=dict(command), help=command.help, unknown=hasattr(command, 'no_such_argument'))"]
    if kind == "fail":
        lines.append("    raise ValueError('no')")
    if kind == "calls":
        lines.append(f"    run_task({calls[0]!r}, *{calls[1]!r}, **{calls[2]!r})")
    lines.append(f"    log('end', task={where!r})")
    return "\n".join(lines) + "\n"


@CHECK.test("run", runs(), quick=64, thorough=1500)
def run_tasks(case, t):
    base = t.scratch()
    root, site = build_project(case, base)
    tasks = {x["name"]: x for x in case["tasks"]}
    called = (case["spelled"], case["args"], case["kwargs"])
    for where in ("before", "after"):
        if case[where]:
            put(root / "tasks", f"commands.run.{where}", attachment(case[where], where, called))
        if case["third_attach"]:
            put(site / "pkm_tasks", f"commands.run.{where}", attachment("ok", "third-" + where))

    name, argv = case["spelled"], list(case["argv"])
    if case["kind"] == "unknown":
        name = "grp.no-such-task"
    elif case["kind"] == "badarg":
        argv = ["--no-such-option", "3"] + argv
    elif case["kind"] == "help":
        argv = ["-h"] + argv

    expected, ok = [], True
    attached = not case["flag"]
    try:
        if attached and case["before"]:
            expected.append(("start", "before", None))
            if case["before"] == "fail":
                raise Failed("before")
            if case["before"] == "calls":
                simulate(tasks, expected, *called)
            expected.append(("end", "before", None))
        if case["kind"] in ("unknown", "badarg"):
            raise Failed(case["kind"])
        if case["kind"] != "help":
            simulate(tasks, expected, *called)
        if attached and case["after"]:
            expected.append(("start", "after", None))
            if case["after"] == "fail":
                raise Failed("after")
            expected.append(("end", "after", None))
    except Failed as e:
        ok = False
        t.label("fails: " + str(e))

    t.nontrivial(not ok or (attached and (case["before"] or case["after"])) or any(s not in ("fail", "exit") for s in tasks[case["task"]]["steps"]))
    t.label("kind: " + case["kind"])
    if attached and (case["before"] or case["after"]):
        t.label("attachments")
    flags = [case["flag"]] if case["flag"] else []
    p, records = pkm(root, base / "trace", [*flags, "run", "@" + name, *argv], case["cwd"])
    got = [(r["event"], r["task"], r.get("args") if r["task"] not in ("before", "after") else None) for r in records]
    tail = (p.stdout + p.stderr)[-700:]
    t.eq(got, [tuple(e) for e in expected], f"trace of: pkm {flags} run @{name} {argv}; rc {p.returncode}: {tail}", key="trace")
    t.check((p.returncode == 0) == ok, f"pkm exits with {p.returncode} although the run {'succeeds' if ok else 'fails'}: {tail}", key="status")
    here = str((root / case["cwd"]).resolve())
    info = dict(name="proj", version=case["version"], path=str(root.resolve()), group_path=str((base / "grp").resolve()) if case["group"] else None)
    for r in records:
        t.eq(os.path.realpath(r["cwd"]), here, f"working directory of task {r['task']}", key="cwd")
        t.eq(os.path.realpath(r["prefix"]), str((root / ".venv").resolve()), f"environment of task {r['task']}", key="environment")
        if "info" in r:
            t.eq(r["info"], info, f"project_info of task {r['task']}", key="info")
        if r["event"] == "start" and r["task"] in ("before", "after"):
            t.eq(r["help"], False, "command.help", key="command")
            given = [v for v in r["args"].values() if isinstance(v, list)]
            t.check(any(v == ["@" + name, *argv] for v in given), f"the attached task does not see the command's arguments: {r['args']}", key="command args")
    if case["kind"] == "help" and (ok or records[-1:] and records[-1]["task"] == "after"):
        t.check(f"Runs {case['task']}" in p.stdout, f"help does not show the documentation of the task: {p.stdout[-300:]}", key="help")


@st.composite
def commands(draw):
    return dict(tasks=[], group=False, version="1.0", third=draw(st.booleans()),
                before=draw(st.sampled_from([None, "ok", "fail"])), after=draw(st.sampled_from([None, "ok", "fail"])),
                name=draw(st.sampled_from(["made", "grp.made", "grp.a-b"])), flag=draw(st.sampled_from([None, "-v", "-v", "-T"])),
                elsewhere=draw(st.integers(0, 3)) == 0, broken=draw(st.integers(0, 3)) == 0)


@CHECK.test("attached to other commands", commands(), quick=16, thorough=300)
def other_commands(case, t):
    """`pkm new task` is a command that leaves a trace of its own: the file of the new task"""
    base = t.scratch()
    root, site = build_project(case, base)
    made = root.joinpath("tasks", *case["name"].replace("-", "_").split(".")).with_suffix(".py")
    for where in ("before", "after"):
        source = attachment(case[where], where).replace(f"task={where!r}", f"task={where!r}, made=os.path.exists({str(made)!r})").replace("from tracelog", "import os\nfrom tracelog")
        if case[where]:  # attached to the command, and not to one that encloses it or stands next to it
            put(root / "tasks", f"commands.new.task.{where}", source)
        for other in ("new", "new.project", "run", ""):
            put(root / "tasks", f"commands.{other}.{where}".replace("..", "."), attachment("ok", f"other-{other}-{where}"))
        if case["third"]:
            put(site / "pkm_tasks", f"commands.new.task.{where}", attachment("ok", "third-" + where))
    taken = case["broken"]
    if taken:
        made.parent.mkdir(parents=True, exist_ok=True)
        made.write_text("# mine\n")
    attached = case["flag"] != "-T"
    t.nontrivial(bool(attached and (case["before"] or case["after"])))
    expected, ok = [], True
    if attached and case["before"]:
        expected.append(("start", "before", taken))
        ok = case["before"] != "fail"
        if ok:
            expected.append(("end", "before", taken))
    runs_ = ok
    ok = ok and not taken
    if ok and attached and case["after"]:
        expected.append(("start", "after", True))
        ok = case["after"] != "fail"
        if ok:
            expected.append(("end", "after", True))
    flags = [case["flag"]] if case["flag"] else []
    p, records = pkm(root, base / "trace", [*flags, "new", "task", case["name"]], "")
    tail = (p.stdout + p.stderr)[-700:]
    t.eq([(r["event"], r["task"], r["made"]) for r in records if "made" in r], expected, f"trace of the attached tasks: {tail}", key="trace")
    for r in records:
        if r["event"] == "start" and "made" in r:
            t.eq(r["unknown"], False, f"whether the command has an argument that it does not have: {tail}", key="command args")
            t.eq(r["args"].get("verbose"), case["flag"] == "-v", f"the argument of the enclosing command, in {r['args']}: {tail}", key="command args")
            t.check(case["name"] in r["args"].values(), f"the attached task does not see the command's arguments: {r['args']}", key="command args")
    t.eq([r["task"] for r in records if "made" not in r], [], "tasks that are attached to other commands", key="others")
    t.check((p.returncode == 0) == ok, f"pkm exits with {p.returncode} although the command {'succeeds' if ok else 'fails'}: {tail}", key="status")
    if taken:
        t.eq(made.read_text(), "# mine\n", "existing task file", key="file")
    else:
        t.eq(made.exists(), runs_, "the command ran", key="ran")
    if ok and made.exists() and not taken:
        p, _ = pkm(root, base / "trace2", ["-T", "run", "@" + case["name"]], "")
        t.eq(p.returncode, 0, f"running the new task: {(p.stdout + p.stderr)[-400:]}", key="new task")


if __name__ == "__main__":
    CHECK.main()
