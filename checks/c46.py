"""C46: requirements that name the address of an archive (`name @ http://…`, `name @ file://…`). Oracle: a model of what every address holds and of the requests that are in force."""
import contextlib
import functools
import hashlib
import io
import itertools
import json
from pathlib import Path
from urllib.parse import quote

from hypothesis import strategies as st

import buildkit as bk
import httpd
import wheelkit as wk
from vlib import Check
from pkm.api.dependencies.dependency import Dependency
from pkm.api.environments.environment import Environment
from pkm.api.environments.environment_builder import EnvironmentBuilder
from pkm.resolution.pubgrub import UnsolvableProblemException

CHECK = Check("C46", "histories of requirements on the addresses of wheels and source distributions, on a web server (redirects, queries, escapes, fragments with hashes, missing and corrupted answers) or in the file system, mixed with "
                     "requirements on a repository; non-trivial = an archive was installed by its address and another request on the same package was in force before, or a request was refused", workers=8)

NAMES = ["xx", "Y.y", "z-1"]
VERSIONS = ["1.0", "2.0", "1.0+loc.1", "3.0rc1", "0.1.post2"]
WAYS = ["plain", "plain", "escaped", "query", "redirect", "redirect-out", "gzip", "spaced"]
FRAGMENTS = ["", "", "", "sha256=", "md5=", "sha512=", "egg", "egg&sha256=", "wrong=", "wrong-md5=", "egg&wrong="]

archive = st.tuples(st.integers(0, 2), st.sampled_from(VERSIONS), st.sampled_from(["whl", "whl", "whl", "whl", "sdist", "foreign"]), st.sampled_from(["", "", "p", "p<2", "extra", "address", "marker"]))
request = st.tuples(st.just("address"), st.sampled_from([None, None, None, None, None, 0, 1, 2]), st.integers(0, 5), st.sampled_from(["http", "http", "file"]), st.sampled_from(WAYS), st.sampled_from(FRAGMENTS),
                    st.sampled_from(["", "", "", "missing", "corrupted", "corrupted-once", "extra", "marker"]))
plain = st.tuples(st.just("index"), st.integers(0, 2), st.sampled_from(["", "", ">=5", "==5.0"]))
op = st.one_of(st.lists(request, min_size=1, max_size=1), st.lists(request, min_size=1, max_size=1), st.lists(request, min_size=1, max_size=1), st.lists(st.one_of(request, plain), min_size=1, max_size=3), plain.map(lambda x: [x]),
               st.integers(0, 2).map(lambda i: [("uninstall", i)]))
case_strategy = st.tuples(st.lists(archive, min_size=4, max_size=6), st.lists(op, min_size=3, max_size=6))
norm = wk.norm
SERIAL = itertools.count()


def quiet(f):
    with contextlib.redirect_stdout(io.StringIO()):
        return f()


class _World:
    def __init__(self, case, t):
        self.t, self.d = t, t.scratch().resolve()
        self.server = httpd.server()
        archives, self.ops = case
        self.archives = []
        for i, (n, version, kind, dep) in enumerate(archives):
            name = NAMES[n]
            where = self.d / f"files/{i}"
            token = f"content of archive {i}"
            requires = [dep] if dep.startswith("p") else ["p; extra == 'e'"] if dep == "extra" else ["p; python_version < '3'"] if dep == "marker" else []
            earlier = [a for a in self.archives if a["name"] != name and a["kind"] == "whl" and "address" not in a["dep"]]
            if dep == "address" and earlier:
                requires = [f"{earlier[-1]['name']} @ {self.server.base}/a/{earlier[-1]['file']}"]
            a = dict(i=i, name=name, version=version, kind=kind, dep=dep, requires=requires, needs=earlier[-1] if dep == "address" and earlier else None, token=token)
            module = module_of(name)
            if kind == "sdist":
                path = bk.write_sdist(where, dict(name=name, version=version, token=token, requires_dist=requires, log=str(self.d / "log")))
            else:
                spec = dict(name=name, version=version, requires=requires, extras=["e"], files={f"{module}.py": f"TOKEN = {token!r}\n"})
                path = wk.write_wheel(where, spec, filename=f"{norm(name)}-{version}-cp27-cp27m-win32.whl" if kind == "foreign" else None)
            a.update(path=path, data=path.read_bytes(), file=f"{i}/{path.name}", module=module)
            if kind == "sdist":
                a["other"] = bk.write_sdist(where / "other", dict(name=name, version=version, token=token + " (other)", requires_dist=requires, log=str(self.d / "log"))).read_bytes()
            else:
                spec["files"] = {f"{module}.py": f"TOKEN = {token + ' (other)'!r}\n"}
                a["other"] = wk.write_wheel(where / "other", spec, filename=path.name).read_bytes()
            a["file"] = f"{next(SERIAL)}/{a['file']}"
            self.server.routes[f"/a/{a['file']}"] = {"body": a["data"]}
            self.archives.append(a)
        for i, name in enumerate(NAMES + ["p"]):
            for v in ("1.0", "2.0") if name == "p" else ("5.0",):
                wk.write_wheel(self.d / "index", dict(name=name, version=v, files={f"{norm(name).lower()}.py": f"TOKEN = 'index {v}'\n"}))
        EnvironmentBuilder.create(self.d / "env")
        (self.d / "env/etc/pkm").mkdir(parents=True)
        (self.d / "env/etc/pkm/repositories.toml").write_text(f'inheritance = "global"\n[repos.local]\ntype = "file-system"\npath = "{self.d}/index"\n')
        self.over = False
        self.last, self.sources, self.found, self.requests = {}, {}, {}, {}  # name -> (request text, archive or specifier, extras)

    def address(self, r):
        """the requirement, the archive, the content it should have, whether it can be provided, and what makes it possible afterwards"""
        _, wrong_name, i, scheme, way, fragment, twist = r
        a = self.archives[i % len(self.archives)]
        name = a["name"] if wrong_name is None else NAMES[wrong_name]
        possible = name == a["name"] and a["kind"] != "foreign"
        token, later = a["token"], None
        url = f"file://{a['path'].parent}/{'none/' if twist == 'missing' else ''}{a['path'].name}"
        if scheme == "http":
            serial = next(SERIAL)  # what was fetched before is kept
            served = {"body": a["data"], "gzip": way == "gzip"}
            prefix = "a%20b/c~d/" if way == "spaced" else ""
            path = f"/r{serial}/{prefix}{a['i']}/{quote(a['path'].name).replace('-', '%2D') if way == 'escaped' else a['path'].name}{'?token=a/b.c&x=%20' if way == 'query' else ''}"
            url = self.server.base + path
            if way.startswith("redirect"):
                target = f"/moved/{serial}/{'blob' if way == 'redirect-out' else a['path'].name}"
                self.server.routes[path] = {"redirect": target if way == "redirect" else self.server.base + target, "status": 301 + serial % 2}
                path = target
            if twist.startswith("corrupted"):
                served, token = {**served, "body": a["other"]}, token + " (other)"
                if "=" in fragment:
                    if possible and twist == "corrupted-once" and "wrong" not in fragment:
                        later = lambda: self.server.routes[path].update(body=a["data"])
                    possible = False
            if twist != "missing":
                self.server.routes[path] = served
        possible = possible and twist != "missing" and "wrong" not in fragment
        if fragment:
            value = lambda h, more=b"": f"{h}={hashlib.new(h, a['data'] + more).hexdigest()}"
            url += "#" + {"egg": f"egg={name}", "egg&sha256=": f"egg={name}&{value('sha256')}", "wrong=": value("sha256", b"x"), "wrong-md5=": value("md5", b"x"),
                          "egg&wrong=": f"egg={name}&{value('sha256', b'x')}"}.get(fragment, value(fragment[:-1]) if fragment[:-1] in hashlib.algorithms_guaranteed else "")
        extras = "[e]" if twist == "extra" else ""
        text = f"{name}{extras} @ {url}" + (" ; python_version >= '3'" if twist == "marker" else "")
        return dict(name=name, text=text, url=url, archive=a, token=token, possible=possible, later=later, extra=bool(extras), optional=scheme == "file" and bool(fragment))

    def closure(self, requests):
        """what the requests lead to: name -> the requirements on it; and the contents that addresses lead to"""
        required, contents, todo = {}, {}, list(requests.values())
        self.found = {}
        while todo:
            r = todo.pop()
            key = r["name"]
            required.setdefault(key, set()).add(r.get("url") or r["spec"])
            a = r.get("archive")
            if a is None:
                continue
            contents[key] = (a["version"], r["token"])
            self.found = {**self.found, key: r}
            for d in a["requires"]:
                if "@" in d:
                    n = a["needs"]
                    todo.append(dict(name=n["name"], url=d.split(" @ ")[1], archive=n, token=n["token"], extra=False))
                elif d in ("p", "p<2") or "extra" in d and r["extra"]:
                    required.setdefault("p", set()).add("<2" if d == "p<2" else "")
        return required, contents

    def installed(self):
        env = Environment(self.d / "env")
        out = {}
        for p in env.site_packages.installed_packages():
            file = next(self.d.glob(f"env/lib/*/site-packages/{module_of(p.name)}.py"), None)
            self.t.check(p.name not in out, lambda: f"{p.name} is installed twice")
            out[p.name] = (str(p.version), file and file.read_text(), p.user_request and str(p.user_request))
        return out

    def attempt(self, f, before, what, new):
        try:
            quiet(f)
            return True
        except (UnsolvableProblemException, OSError) as e:
            self.t.eq((self.installed(), wk.snapshot(self.d / "env", pyc=False)), before, f"the environment after {what} was refused ({e!r:.200})")
            return False
        except Exception as e:
            if "InstallationException" not in str(e):
                raise
            # found out while installing: other packages may have been installed before
            now = self.installed()
            others = {k: v for k, v in before[0].items() if k not in self.closure(new)[0]}
            self.t.eq({k: now.get(k) for k in others}, others, f"packages that were installed before {what} failed ({e!r:.200})")
            self.t.check(not any(k in now and now[k] != before[0].get(k) for k, r in new.items() if not r["possible"]), lambda: f"{what} failed, but there is {now}")
            self.over = True
            return False

    def step(self, op):
        t = self.t
        env = Environment(self.d / "env")
        before = self.installed(), wk.snapshot(self.d / "env", pyc=False)
        if op[0][0] == "uninstall":
            name = NAMES[op[0][1]]
            rest = {k: v for k, v in self.requests.items() if k != name}
            if name in self.closure(rest)[0]:
                return  # still needed by another package
            quiet(lambda: env.uninstall([name]))
            self.requests = rest
            return self.verify("an uninstall")
        new = {}
        for r in op:
            r = self.address(r) if r[0] == "address" else dict(name=NAMES[r[1]], text=NAMES[r[1]] + r[2], spec=r[2], possible=True, later=None, extra=False, optional=False)
            new.setdefault(r["name"], r)
        wanted = {**self.requests, **new}
        required, _ = self.closure(wanted)
        urls = {k: {x for x in v if "//" in x} for k, v in required.items()}
        clash = any(len(v) > 1 for v in urls.values())
        mixed = any(v and v != required[k] for k, v in urls.items())
        possible = all(r["possible"] for r in new.values()) and not clash
        texts = [r["text"] for r in new.values()]
        done = self.attempt(lambda: env.install([Dependency.parse(x) for x in texts]), before, texts, new)
        refusable = mixed or any(r["optional"] for r in new.values())
        if done:
            t.check(possible, lambda: f"{texts} was accepted, with {[r['text'] for r in self.requests.values()]} in force")
        else:
            t.check(not possible or refusable, lambda: f"{texts} was refused, with {[r['text'] for r in self.requests.values()]} in force")
        t.nontrivial(not done or any("url" in r and k in self.requests for k, r in new.items()))
        t.label("clash" if clash else "mixed" if mixed else "done" if done else "refused")
        if self.over:
            t.label("failed while installing")
            return
        later = [r["later"] for r in new.values() if r["later"]]
        if not done and later and not clash and not mixed and all(r["possible"] or r["later"] for r in new.values()):
            for f in later:
                f()
            for r in new.values():
                r["token"] = r["archive"]["token"] if r["later"] else r.get("token")
            done = self.attempt(lambda: Environment(self.d / "env").install([Dependency.parse(x) for x in texts]), before, texts, new)
            t.check(done or refusable, lambda: f"{texts} was refused although the server has the right content now")
            t.label("recovered")
        if done:
            self.requests = wanted
        self.verify(texts)

    def verify(self, what):
        t = self.t
        got = self.installed()
        in_force = dict(self.requests)
        for k, r in self.requests.items():
            source = self.sources.get(k)
            if r.get("spec") == "" and source and got.get(k, ())[:2] == self.last[k][:2] == (source["archive"]["version"], f"TOKEN = {source['token']!r}\n"):
                in_force[k] = {**source, "extra": False}  # what is installed satisfies a requirement on any version, and stays with what it requires
                t.label("kept")
        required, contents = self.closure(in_force)
        t.eq(sorted(got), sorted(required), f"the installed packages after {what}")
        for k, (version, file, request) in got.items():
            if k in contents:
                t.eq((version, file), (contents[k][0], f"TOKEN = {contents[k][1]!r}\n"), f"what is installed for {k} after {what}")
            else:
                t.eq((version in (("1.0",) if "<2" in required[k] else ("1.0", "2.0")) if k == "p" else version == "5.0", file), (True, f"TOKEN = 'index {version}'\n"), f"what is installed for {k} after {what} ({version})")
            want = str(Dependency.parse(self.requests[k]["text"])) if k in self.requests else None
            t.eq(request, want, f"the recorded request of {k}")
        self.last = got
        self.sources = self.found


def module_of(name):
    return norm(name).lower()


@CHECK.test("histories", case_strategy, quick=500, thorough=8000)
def histories(case, t):
    w = _World(case, t)
    for op in w.ops:
        w.step(op)
        if w.over:
            break
