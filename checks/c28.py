"""C28: fetching over HTTP with a cache. Oracle: a model of the server's content and of what the cache may hold, over histories of
publications, failures and fetches; the cache directory is inspected for files that lie outside it or hold partial content."""
import hashlib
import os
import threading
from datetime import datetime, timedelta, timezone
from pathlib import Path

from hypothesis import strategies as st

import httpd
from vlib import Check
from pkm.utils.http.cache_directive import CacheDirective
from pkm.utils.http.http_client import HttpClient, HttpException, Url

CHECK = Check("C28", "histories of publishing (plain, gzip, chunked, truncated, redirected, failing) and fetching with each cache policy; non-trivial = an url "
                     "is fetched again after its content changed, or after a failure", workers=6)

PATHS = ["/a", "/a.b", "/a/b", "/pkg/x-1.0.tar.gz", "/", "/a?x=1", "/a?x=2", "/a/../../../up.txt", "/..", "/x.fetch.toml", "/x", "/x.fetch", "/d/", "/%2e%2e/%2e%2e/q", "/a//b", "/é".encode().decode("latin1") and "/%C3%A9"]
body = st.one_of(st.binary(max_size=40), st.sampled_from([b"", b"x" * 9000, b"\x1f\x8b", b"a\r\nb\n" * 1000, bytes(range(256)) * 50]))
cut = st.sampled_from([0.0, 0.3, 0.9])
style = st.fixed_dictionaries({"gzip": st.booleans(), "chunked": st.booleans(), "validator": st.sampled_from(["etag", "etag", "modified", "none", "quoted"])})
path = st.sampled_from(PATHS)
few = st.sampled_from(["/a", "/a", "/a.b", "/a?x=1", "/x"])
some = st.one_of(few, few, path)
op = st.one_of(
    st.tuples(st.just("publish"), some, body, style),
    st.tuples(st.just("publish"), some, body, style),
    st.tuples(st.just("truncate"), some, st.binary(min_size=10, max_size=3000), style, cut),
    st.tuples(st.just("error"), some, st.sampled_from([404, 500, 503, 403, 204]), body, st.booleans()),
    st.tuples(st.just("redirect"), some, some, st.integers(1, 5), st.sampled_from(["absolute", "path", "relative"]), st.sampled_from([301, 302, 303, 307, 308])),
    *[st.tuples(st.just("fetch"), some, st.sampled_from(["always", "always", "ask", "ask", "never", "after-past", "after-future"])) for _ in range(5)],
    st.tuples(st.just("concurrent"), st.lists(some, min_size=2, max_size=4), st.sampled_from(["always", "ask", "never"])),
    st.tuples(st.just("delete"), some, st.sampled_from(["all", "data", "info"])), st.tuples(st.just("restart"),),
)


def directive(name):
    now = datetime.now(timezone.utc)
    return {"always": CacheDirective.allways, "ask": CacheDirective.ask_for_update, "never": CacheDirective.never,
            "after-past": lambda: CacheDirective.if_retrieved_after(now - timedelta(days=30000)),
            "after-future": lambda: CacheDirective.if_retrieved_after(now + timedelta(days=300))}[name]()


class Model:
    def __init__(self):
        self.pub = {}  # path -> ("ok", bytes) | ("bad", prefix bytes or None) | ("redirect", target, hops)
        self.cache = {}  # path -> set of contents that the cache may hold (None: nothing)

    def current(self, p, hops=0):
        kind, *rest = self.pub.get(p, ("bad",))
        if kind == "redirect":
            hops += rest[1]
            if hops > 3:
                return None
            return self.current(rest[0], hops)
        return rest[0] if kind == "ok" else None


def files_under(d):
    return sorted(str(Path(r, f).relative_to(d)) for r, _, fs in os.walk(d) for f in fs)


single = op.map(lambda x: [x])
lost = st.tuples(some, body, style, st.sampled_from(["all", "data", "info"]), st.sampled_from(["always", "ask", "ask", "never", "after-future"])).map(
    lambda x: [("publish", *x[:3]), ("fetch", x[0], "always"), ("delete", x[0], x[3]), ("fetch", x[0], x[4])])
steps = st.lists(st.one_of(single, single, single, single, single, single, lost), min_size=2, max_size=14).map(lambda x: [s for part in x for s in part])


@CHECK.test("histories", steps, quick=2500, thorough=30000)
def histories(case, t):
    srv = httpd.server()
    scratch = t.scratch()
    work = scratch / "outer" / "mid" / "cache"
    client = HttpClient(work)
    m = Model()
    seq = 0
    changed, interesting = set(), False
    fetched = set()

    for step in case:
        kind = step[0]
        where = f"step {step[:3]}"
        if kind in ("publish", "truncate"):
            p, content, sty = step[1:4]
            seq += 1
            r = {"body": content, "gzip": sty["gzip"], "chunked": sty["chunked"]}
            v = sty["validator"]
            if v in ("etag", "quoted"):
                r["etag"] = f'"{seq}"' if v == "etag" else f'W/"tag\\{seq} \'q\' = #"'
            elif v == "modified":
                r["modified"] = f"Thu, 01 Jan 2015 00:{seq // 60:02}:{seq % 60:02} GMT"
            if kind == "truncate":
                r["truncate"] = step[4]
            srv.routes[p] = r
            m.pub[p] = ("ok", content) if kind == "publish" else ("bad",)
            if p in fetched:
                changed.add(p)
        elif kind == "error":
            p = step[1]
            srv.routes[p] = {"status": step[2], "body": b"" if step[2] == 204 else step[3], "chunked": step[4] and step[2] != 204}
            m.pub[p] = ("bad",)
            if p in fetched:
                changed.add(p)
        elif kind == "redirect":
            _, p, target, hops, how, status = step
            if target == p or ".." in target or how == "relative" and (not target.startswith("/a") or "//" in target):
                continue
            names = [p] + [f"/hop{i}{p.strip('/.').replace('/', '_').replace('?', '_').replace('%', '_')}" for i in range(1, hops)]
            for a, b in zip(names, names[1:] + [target]):
                loc = srv.base + b if how == "absolute" else b
                if how == "relative" and b == target and a.count("/") == 1 and not a.startswith("/.."):
                    loc = b[1:]
                srv.routes[a] = {"redirect": loc, "status": status}
            m.pub[p] = ("redirect", target, hops)
        elif kind == "restart":
            client = HttpClient(work)
        elif kind == "delete":
            if (held := m.cache.get(step[1])) and None not in held:
                resource = client.fetch_resource(srv.base + step[1], CacheDirective.allways())
                resource.delete() if step[2] == "all" else (resource.data if step[2] == "data" else resource.fetch_info).unlink()
                m.cache[step[1]] = {None}
        elif kind == "fetch":
            p, how = step[1], step[2]
            url = srv.base + p
            want, held = m.current(p), m.cache.get(p, {None})
            n = len(srv.requests)
            outcome = fetch(client, url, how, t)
            asked = len(srv.requests) > n
            if p in changed:
                interesting = True
            if p in fetched and want is None:
                interesting = True
            fetched.add(p)
            judge(t, where, how, want, held, outcome, asked)
            m.cache[p] = {outcome[1]} if outcome[0] == "ok" else held | {None}
        elif kind == "concurrent":
            ps, how = step[1], step[2]
            before = {p: m.cache.get(p, {None}) for p in ps}
            out = {}

            def run(i, p):
                out[i] = fetch(client, srv.base + p, how, t)

            ts = [threading.Thread(target=run, args=(i, p)) for i, p in enumerate(ps)]
            [x.start() for x in ts]
            [x.join() for x in ts]
            interesting = True
            for i, p in enumerate(ps):
                if out[i][0] == "crash":
                    raise out[i][1]
                fetched.add(p)
                held = before[p]
                got = {out[j][1] if out[j][0] == "ok" else None for j, q in enumerate(ps) if q == p}
                judge(t, where, how, m.current(p), held | (got if how == "always" else set()), out[i], None)
                m.cache[p] = got if None not in got else got | held
    t.nontrivial(interesting)
    outside = [f for f in files_under(scratch) if not f.startswith("outer/mid/cache/")]
    t.eq(outside, [], "files written outside the cache directory")


def fetch(client, url, how, t):
    try:
        r = client.fetch_resource(url, directive(how))
    except HttpException as e:
        return "error", e
    except BaseException as e:
        if threading.current_thread() is not threading.main_thread():
            return "crash", e
        raise
    data = r.data.read_bytes()
    if len(data) < 200:
        h = hashlib.sha256(data).hexdigest()
        t.check(r.is_hash_valid("sha256", h) and not r.is_hash_valid("sha256", hashlib.sha256(data + b"x").hexdigest()) and r.is_hash_valid("md5", hashlib.md5(data).hexdigest()),
                lambda: f"wrong answer to a hash question about {data!r}")
    return "ok", data


def short(b):
    return b if b is None or len(b) < 60 else b[:40] + b"..(%d)" % len(b)


def judge(t, where, how, want, held, outcome, asked):
    """held: contents the cache may hold (None in it: possibly nothing)"""
    cached = None not in held
    if outcome[0] == "ok":
        got = outcome[1]
        if how in ("always", "after-past"):
            allowed = set(held) - {None}
            if not cached and want is not None:
                allowed.add(want)
            if how == "after-past" and want is not None:
                allowed.add(want)
            if cached and how == "always" and asked is not None:
                t.check(not asked, f"{where}: a request was sent although the resource is cached and reuse was asked for")
        else:
            allowed = {want} - {None}
            if asked is not None:
                t.check(asked, f"{where}: no request was sent")
        t.check(got in allowed, lambda: f"{where}: got {short(got)}, the server publishes {short(want)}, cache holds {[short(h) for h in held]}")
    else:
        ok = want is None and not (cached and how == "always")
        t.check(ok, lambda: f"{where}: failed with {outcome[1]!r} though the server publishes {short(want)}, cache holds {[short(h) for h in held]}")


@CHECK.test("urls", st.tuples(st.sampled_from(["http", "https"]), st.sampled_from(["example.org", "localhost", "10.0.0.1", "[::1]", "h-1.x.y"]),
                              st.sampled_from(["", ":80", ":443", ":8080", ":1"]), st.sampled_from(["", "/", "/a", "/a/b.whl", "/a%20b", "/a;p=1", "/x:y"]),
                              st.sampled_from(["", "?", "?q=1", "?a=b&c=d/e", "?x?y"]), st.sampled_from(["", "#f", "#sha256=ab", "#a?b"]),
                              st.sampled_from(["", "u@", "u:p@", "u%40x:p@"])), quick=2000, thorough=20000)
def urls(case, t):
    scheme, host, port, pth, query, frag, user = case
    text = f"{scheme}://{user}{host}{port}{pth}{query}{frag}"
    u = Url.parse(text)
    number = int(port[1:]) if port else {"http": 80, "https": 443}[scheme]
    t.nontrivial(bool(port or query or frag or user))
    t.eq((u.scheme, u.host.strip("[]"), u.port, u.path, u.query_string, u.fragment),
         (scheme, host.strip("[]"), number, pth, query[1:], frag[1:]), f"parts of {text}")
    t.eq(Url.parse(str(u)), u, f"{text} printed as {u}, read again")
    t.eq(Url.parse(u.connection_part()).port, number, f"connection part of {text}")
