"""C45: requirements on git repositories. Real repositories behind a local server, real environments; oracle: a model of the commits and of what each reference names."""
import contextlib
import functools
import http.server
import io
import itertools
import json
import os
import signal
import subprocess
import sys
import threading
import time
from pathlib import Path

from hypothesis import strategies as st

from vlib import Check, REPO
from pkm.api.dependencies.dependency import Dependency
from pkm.api.environments.environment import Environment
from pkm.api.environments.environment_builder import EnvironmentBuilder

CHECK = Check("C45", "histories of commits, branches and tags of repositories that hold one project or a group, requested through every form of address into several environments, with failing, stalling and killed fetches; "
                     "non-trivial = the requested revision is not the default one or a request followed a failed one", workers=8)

os.environ.update(GIT_CONFIG_NOSYSTEM="1", GIT_CONFIG_GLOBAL="/dev/null", GIT_TERMINAL_PROMPT="0", GIT_AUTHOR_NAME="a", GIT_AUTHOR_EMAIL="a@b", GIT_COMMITTER_NAME="a", GIT_COMMITTER_EMAIL="a@b")
SERIAL = itertools.count()
NAMES = ["x", "Y.y", "z-1"]  # the members; a repository of one project holds the first
MODULES = ["x", "y_y", "z_1"]
REFS = ["dev", "feature/a", "v1.0", "1.0", "src", "fix-2", "main2"]


class _Server:
    """serves a directory; `fault` is asked before each request: None, "close" or "stall\""""

    def __init__(self, root):
        outer = self
        self.fault = lambda path: None
        self.stalled = threading.Event()
        self.go_on = threading.Event()

        class Handler(http.server.SimpleHTTPRequestHandler):
            def log_message(self, *args):
                pass

            def do_GET(self):
                what = outer.fault(self.path)
                if what == "stall":
                    outer.stalled.set()
                    outer.go_on.wait(60)
                if what == "error":
                    return self.send_error(500)
                if what == "close":
                    self.close_connection = True
                    return self.connection.close()
                with contextlib.suppress(OSError):
                    super().do_GET()

        class Quiet(http.server.ThreadingHTTPServer):
            def handle_error(self, request, client_address):
                pass

        self.http = Quiet(("127.0.0.1", 0), functools.partial(Handler, directory=str(root)))
        self.port = self.http.server_port
        threading.Thread(target=self.http.serve_forever, daemon=True).start()

    def close(self):
        self.go_on.set()
        self.http.shutdown()
        self.http.server_close()


def pyproject(name, version):
    return f'[project]\nname = "{name}"\nversion = "{version}"\ndescription = "d"\n[build-system]\nrequires = ["pkm"]\nbuild-backend = "pkm.api.buildsys"\n'


def content(group, c):
    """the files of commit number c"""
    files = {"readme.txt": f"commit {c}\n", "dev": "a file that is named as a branch\n"}
    for n, m in list(zip(NAMES, MODULES))[:3 if group else 1]:
        base = f"projects/{m}/" if group else ""
        files[base + "pyproject.toml"] = pyproject(n, f"{c + 1}.0")
        files[base + f"src/{m}/__init__.py"] = f"V = '{m} {c}'\n"
        files[base + f"src/{m}/only{c}.py"] = "\n"
    if group:
        files["pyproject-group.toml"] = 'name = "g"\nchildren = ["projects/x", "projects/y_y", "projects/z_1"]\n'
    return files


def write_repository(path, group, parents, refs):
    """commit number i has the parent parents[i] (or none); refs: [(name, commit, is a tag)], the last commit of main is the default revision. Gives the ids of the commits"""
    path.mkdir(parents=True)
    subprocess.run(["git", "init", "-q", "-b", "main", str(path)], check=True)
    out = []
    for i, p in enumerate(parents):
        ref = "refs/heads/main" if i == main_head(parents) or is_ancestor(parents, i, main_head(parents)) else f"refs/heads/side{i}"
        out.append(f"commit {ref}\nmark :{i + 1}\ncommitter a <a@b> {1700000000 + i} +0000\ndata 1\nm\n")
        if p is not None:
            out.append(f"from :{p + 1}\n")
        out.append("deleteall\n")
        for f, text in content(group, i).items():
            out.append(f"M 644 inline {f}\ndata {len(text.encode())}\n{text}\n")
    for name, c, tag in refs:
        out.append(f"reset refs/{'tags' if tag else 'heads'}/{name}\nfrom :{c + 1}\n\n")
    marks = path.parent / (path.name + ".marks")
    subprocess.run(["git", "fast-import", "--quiet", "--force", f"--export-marks={marks}"], input="".join(out).encode(), cwd=path, check=True)
    subprocess.run(["git", "update-server-info"], cwd=path, check=True)
    ids = dict(line.split() for line in marks.read_text().splitlines())
    return [ids[f":{i + 1}"] for i in range(len(parents))]


def main_head(parents):
    return len(parents) - 1


def is_ancestor(parents, a, c):
    while c is not None:
        if a == c:
            return True
        c = parents[c]
    return False


def quiet(f):
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        return f()


def address(repo, kind, port, user, ref):
    """a repository is named by its position below the served directory"""
    at = "" if ref is None else f"@{ref}"
    if kind == "file":
        return f"git+file://{repo}{at}"
    return f"git+http://{user}127.0.0.1:{port}{repo}{at}"


def install(root, texts):
    quiet(lambda: Environment(root).install([Dependency.parse(t) for t in texts]))


def state_of(root):
    """name -> (version, request); module -> its value"""
    packages = {p.name: (str(p.version), p.user_request and str(p.user_request)) for p in Environment(root).site_packages.installed_packages()}
    look = "import json\nout = {}\nfor m in %r:\n    try: out[m] = __import__(m).V\n    except ImportError: pass\nprint(json.dumps(out))" % (MODULES,)
    r = subprocess.run([str(root / "bin/python"), "-c", look], capture_output=True, check=True, env={k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}, cwd=root)
    return packages, json.loads(r.stdout)


repository = st.tuples(
    st.booleans(),  # a group
    st.lists(st.integers(0, 3), min_size=0, max_size=3),  # how far back the parent of each further commit is
    st.lists(st.tuples(st.sampled_from(REFS), st.integers(0, 3), st.booleans()), max_size=3, unique_by=lambda r: r[0]))
request = st.tuples(
    st.integers(0, 1),  # the repository
    st.integers(0, 2),  # the project
    st.one_of(st.none(), st.tuples(st.sampled_from(["ref", "ref", "id", "short id", "unknown"]), st.integers(0, 3))),
    st.sampled_from(["http", "http", "file"]), st.sampled_from(["", "", "u@", "u:p%40w@"]),
    st.integers(0, 1),  # the environment
    st.sampled_from([None] * 5 + ["error", "close"]))  # what the server answers


class _World:
    def __init__(self, t, repos, envs=2):
        self.t = t
        self.d = t.scratch().resolve()
        self.serial = f"{os.getpid()}-{next(SERIAL)}-{time.time_ns()}"  # clones are kept by address
        self.root = self.d / "served"
        self.repos = []
        for k, (group, back, refs) in enumerate(repos):
            parents = [None]
            for b in back:
                parents.append(len(parents) - 1 - b if b < len(parents) else None)
            refs = [(n, c % len(parents), tag) for n, c, tag in refs]
            # the second repository lies below the first one
            at = f"/{self.serial}/r" + "/dev" * k
            ids = write_repository(self.root / at.lstrip("/"), group, parents, refs)
            self.repos.append(dict(group=group, parents=parents, refs=refs, ids=ids, at=at))
        self.server = _Server(self.root)
        t.cleanup(self.server.close)
        self.envs = []
        for e in range(envs):
            EnvironmentBuilder.create(self.d / f"env{e}")
            self.envs.append(dict(root=self.d / f"env{e}", packages={}))

    def resolve(self, r, what):
        """-> (the text of the reference, the commit it names or None)"""
        if what is None:
            return None, main_head(r["parents"])
        kind, i = what
        if kind == "unknown":
            return ["nothing", "0" * 40, "1.0.0", "main/x"][i], None
        if kind == "ref" and r["refs"]:
            name, c, _ = r["refs"][i % len(r["refs"])]
            return name, c
        c = i % len(r["parents"])
        return r["ids"][c][:40 if kind == "id" else 10], c

    def text(self, req):
        k, p, what, kind, user, _, _ = req
        r = self.repos[k]
        p = p if r["group"] else 0
        ref, commit = self.resolve(r, what)
        where = (str(self.root) if kind == "file" else "") + r["at"] + "/.git"
        name = [NAMES[p], NAMES[p].upper(), NAMES[p].replace(".", "_").replace("-", "_")][(k + p + len(where) + len(what or ())) % 3]
        return f"{name} @ {address(where, kind, self.server.port, user, ref)}", p, commit

    def verify(self, what):
        for i, e in enumerate(self.envs):
            packages, modules = state_of(e["root"])
            self.t.eq({n: v for n, (v, _) in packages.items()}, {NAMES[p]: f"{c + 1}.0" for p, (c, _) in e["packages"].items()}, f"the packages of environment {i} after {what}")
            self.t.eq(modules, {MODULES[p]: f"{MODULES[p]} {c}" for p, (c, _) in e["packages"].items()}, f"what environment {i} can import after {what}")
            for p, (c, text) in e["packages"].items():
                self.t.eq(packages[NAMES[p]][1], str(Dependency.parse(text)), f"the recorded request for {NAMES[p]} after {what}")


@CHECK.test("requests", st.tuples(st.tuples(repository, repository), st.lists(request, min_size=2, max_size=5)), quick=70, thorough=1200)
def requests(case, t):
    """what is installed is the project of the revision that the address names, whatever was requested, or failed, before"""
    repos, requests_ = case
    w = _World(t, repos)
    seen, failed = set(), set()
    for req in requests_:
        text, p, commit = w.text(req)
        kind, e, fault = req[3], w.envs[req[5]], req[6]
        w.server.fault = lambda path: fault
        same = e["packages"].get(p, (None, None))[1] == text
        try:
            install(e["root"], [text])
        except Exception as ex:
            if commit is not None and (fault is None or kind == "file"):
                raise
            failed.add(text)
            t.label("unknown revision" if commit is None else "failed fetch")
        else:
            t.check(commit is not None, f"{text} was installed, there is no such revision")
            t.check(fault is None or kind == "file" or text in seen, f"{text} was installed without its server")
            e["packages"][p] = (commit, text)
            seen.add(text)
            t.nontrivial(req[2] is not None or text in failed or len(w.envs[0]["packages"]) > 1)
            t.label("again" if same else req[2][0] if req[2] else "default")
        w.server.fault = lambda path: None
        w.verify(text)


RUN = """import sys
from pathlib import Path
from pkm.api.dependencies.dependency import Dependency
from pkm.api.environments.environment import Environment
Environment(Path(sys.argv[1])).install([Dependency.parse(sys.argv[2])])
"""


def child(w, root, text):
    env = {**os.environ, "PYTHONPATH": f"{REPO}/pkm/src", "XDG_DATA_HOME": str(w.d / "data"), "HOME": str(w.d / "data"), "PYTHONDONTWRITEBYTECODE": "1"}
    (w.d / "data").mkdir(exist_ok=True)
    return subprocess.Popen([sys.executable, "-c", RUN, str(root), text], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True, cwd=w.d)


def result(t, p):
    try:
        out = p.communicate(timeout=60)[0].decode(errors="replace")
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        raise
    return p.returncode, out


faulty = st.tuples(repository, st.integers(0, 2), st.one_of(st.none(), st.tuples(st.sampled_from(["ref", "id"]), st.integers(0, 3))), st.integers(0, 12))


@CHECK.test("killed fetches", faulty, quick=24, thorough=300)
def killed(case, t):
    """when the process is killed during any of the requests to the server, the same requirement can be installed afterwards"""
    repo, p, what, at = case
    w = _World(t, [repo], 1)
    text, p, commit = w.text((0, p, what, "http", "", 0, None))
    count = itertools.count()
    w.server.fault = lambda path: "stall" if next(count) == at else None
    proc = child(w, w.envs[0]["root"], text)
    t.cleanup(lambda: proc.poll() is None and os.killpg(proc.pid, signal.SIGKILL))
    while not w.server.stalled.wait(0.02) and proc.poll() is None:
        pass
    stalled = w.server.stalled.is_set()
    if stalled:
        os.killpg(proc.pid, signal.SIGKILL)
    rc, out = result(t, proc)
    w.server.go_on.set()
    w.server.fault = lambda path: None
    t.nontrivial(stalled)
    t.label("killed" if stalled else "not reached")
    if not stalled:
        t.eq(rc, 0, f"exit status of the installation of {text}: {out[-600:]}")
    else:
        w.verify("the process was killed")
        rc, out = result(t, child(w, w.envs[0]["root"], text))
        t.eq(rc, 0, f"exit status of the installation of {text} after one that was killed: {out[-600:]}")
    w.envs[0]["packages"][p] = (commit, text)
    w.verify(text)


@CHECK.test("simultaneous fetches", st.tuples(repository, st.integers(0, 2), st.one_of(st.none(), st.tuples(st.sampled_from(["ref", "id"]), st.integers(0, 3))), st.integers(0, 8), st.integers(2, 3)), quick=16, thorough=200)
def simultaneous(case, t):
    """processes that install the same requirement at the same time do not disturb each other"""
    repo, p, what, at, n = case
    w = _World(t, [repo], n)
    text, p, commit = w.text((0, p, what, "http", "", 0, None))
    count, lock = itertools.count(), threading.Lock()

    def fault(path):
        with lock:
            k = next(count)
        if k == at:  # one of them waits while the others go on
            return "stall"

    w.server.fault = fault
    procs = [child(w, e["root"], text) for e in w.envs]
    for proc in procs:
        t.cleanup(lambda proc=proc: proc.poll() is None and os.killpg(proc.pid, signal.SIGKILL))
    end = time.monotonic() + 20
    while sum(proc.poll() is None for proc in procs) > 1 and time.monotonic() < end:
        time.sleep(0.02)
    t.nontrivial(w.server.stalled.is_set())
    w.server.go_on.set()
    for i, proc in enumerate(procs):
        rc, out = result(t, proc)
        t.eq(rc, 0, f"exit status of the installation of {text} next to others: {out[-600:]}")
        w.envs[i]["packages"][p] = (commit, text)
    w.verify(text)


@CHECK.test("moved references", cases=lambda tier: [(ref, kind, e) for ref in ("default", "branch", "tag", "commit") for kind in ("http", "file") for e in (0, 1)])
def moved(case, t):
    """a reference that was requested before names, when it is requested again, the commit it names now"""
    ref, kind, e = case
    w = _World(t, [(False, [], [("dev", 0, False), ("v1.0", 0, True)])])
    what = {"default": None, "branch": ("ref", 0), "tag": ("ref", 1), "commit": ("id", 0)}[ref]
    text, _, _ = w.text((0, 0, what, kind, "", 0, None))
    install(w.envs[0]["root"], [text])
    w.envs[0]["packages"][0] = (0, text)
    r = w.root / w.repos[0]["at"].lstrip("/")
    lines = "".join(f"M 644 inline {f}\ndata {len(x.encode())}\n{x}\n" for f, x in content(False, 1).items())
    moves = f"commit refs/heads/main\nmark :2\ncommitter a <a@b> 1800000000 +0000\ndata 1\nm\nfrom {w.repos[0]['ids'][0]}\ndeleteall\n{lines}reset refs/heads/dev\nfrom :2\n\n"
    subprocess.run(["git", "fast-import", "--quiet", "--force"], input=moves.encode(), cwd=r, check=True)
    subprocess.run(["git", "update-server-info"], cwd=r, check=True)
    t.nontrivial(True)
    quiet(lambda: Environment(w.envs[e]["root"]).install([Dependency.parse(text)], updates=["x"]))
    now = 1 if ref in ("default", "branch") else 0
    packages, modules = state_of(w.envs[e]["root"])
    t.check((packages["x"][0], modules["x"]) == (f"{now + 1}.0", f"x {now}"), f"a {ref} is requested again over {kind} in {'another' if e else 'the same'} environment after it has moved: the installed version is {packages['x'][0]} with {modules['x']!r}, now it is {now + 1}.0", key=f"{ref} moved, {kind}, environment {e}")
