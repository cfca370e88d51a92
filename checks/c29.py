"""C29: multipart forms and uploads. Oracle: a multipart reader written here from RFC 2046/7578 (cross-checked with the standard library's), and what a loopback server received."""
import base64
import email
import email.policy
import hashlib
import io
import re
import socket
import threading

from hypothesis import strategies as st

import httpd
from vlib import Check
from pkm.api.packages.package_metadata import PackageMetadata
from pkm.api.projects.project import Project
from pkm.repositories.pypi_repository import PyPiPublisher, PyPiRepository
from pkm.utils.http.http_client import HttpClient, HttpException
from pkm.utils.http.mfd_payload import FormField, MultipartFormDataPayload

CHECK = Check("C29", "forms of up to seven fields with text, bytes and stream payloads of every size around the chunk size, names with quotes and line ends, boundary-like content, and uploads of distributions with every metadata field to a server that may drop the connection; "
                     "non-trivial = a stream payload, content with line ends or dashes, or a dropped connection", workers=6)

BOUNDARY = "0123456789abcdef"
piece = st.sampled_from([b"", b"a", b"\r\n", b"--", b"--0123456789abcde", b"\r\n--0123", b"\n", b"\r", b"\x00\xff", b"Content-Disposition: form-data; name=\"x\"\r\n\r\n", b"%22", "é".encode(), b"--0123456789abcdeg--\r\n", b"z" * 40])
blob = st.one_of(st.lists(piece, max_size=6).map(b"".join), st.binary(max_size=60), st.integers(0, 3000).map(lambda n: b"0123456789" * (n // 10) + b"x" * (n % 10))).map(lambda b: b.decode("latin-1"))
name = st.sampled_from(["a", "b_c", ":action", "with space", "quo\"te", "semi;colon", "é", "back\\slash", "new\nline", "cr\rlf\r\n", "a=b", "name", "--", "'", "x" * 90])
field = st.tuples(name, st.sampled_from(["str", "bytes", "stream", "buffered", "text", "offset", "raw"]), blob, st.one_of(st.none(), st.sampled_from(["f.txt", "x-1.0.tar.gz", "x-1.0-py3-none-any.whl", "no ext", "q\"uote.json", "é.md", "n\nl"])), st.sampled_from([None, None, "text/plain", "application/x-y; charset=utf-8"]))
form = st.lists(field, max_size=7)


class Raw(io.RawIOBase):
    """a raw stream that gives less than it is asked for"""

    def __init__(self, data):
        self.data, self.pos = data, 0

    def readable(self):
        return True

    def seekable(self):
        return True

    def tell(self):
        return self.pos

    def seek(self, pos, whence=0):
        self.pos = pos
        return pos

    def readinto(self, b):
        n = min(len(b), 7, len(self.data) - self.pos)
        b[:n] = self.data[self.pos:self.pos + n]
        self.pos += n
        return n


def payload_of(kind, data):
    """(payload, bytes it stands for)"""
    raw = data.encode("latin-1")
    if kind == "str":
        return data, data.encode("utf-8")
    if kind == "bytes":
        return raw, raw
    if kind == "stream":
        return io.BytesIO(raw), raw
    if kind == "buffered":
        return io.BufferedReader(Raw(raw), 16), raw
    if kind == "raw":
        return Raw(raw), raw
    if kind == "text":
        return io.StringIO(data, newline=""), data.encode("utf-8")
    s = io.BytesIO(b"skipped" + raw)
    s.seek(7)
    return s, raw


def decode_parameter(value):
    return re.sub("%(0D|0A|22)", lambda m: chr(int(m[1], 16)), value)


def decode(body, boundary):
    """RFC 2046: [preamble] delimiter part (delimiter part)* close-delimiter [epilogue]; returns the (name, file name, type, content) of the parts"""
    delimiter = b"--" + boundary.encode()
    assert body.startswith(delimiter), f"the body starts with {body[:40]!r}"
    pieces = (b"\r\n" + body).split(b"\r\n" + delimiter)
    assert pieces[0] == b"", "there is a preamble"
    assert pieces[-1] in (b"--", b"--\r\n"), f"the body ends with {pieces[-1][-40:]!r} and not with the closing boundary"
    out = []
    for p in pieces[1:-1]:
        assert p.startswith(b"\r\n"), f"a boundary is followed by {p[:20]!r}"
        head, sep, content = p[2:].partition(b"\r\n\r\n")
        assert sep, f"no end of headers in {p[:80]!r}"
        headers = {}
        for line in head.decode("utf-8").split("\r\n"):
            k, colon, v = line.partition(":")
            assert colon and k.strip() == k and "\n" not in line and "\r" not in line, f"malformed header {line!r}"
            headers[k.lower()] = v.strip()
        m = re.fullmatch(r'form-data; name="([^"]*)"(?:; filename="([^"]*)")?', headers["content-disposition"])
        assert m, f"malformed disposition {headers['content-disposition']!r}"
        assert headers.get("content-type", "x") not in ("", "None"), f"the type is {headers['content-type']!r}"
        out.append((decode_parameter(m[1]), m[2] and decode_parameter(m[2]), headers.get("content-type"), content))
    return out


def decoded(body, boundary, t):
    try:
        return decode(body, boundary)
    except (AssertionError, KeyError, UnicodeDecodeError) as e:
        t.fail(f"the form cannot be decoded: {e}", key="form")


def build(fields, boundary=BOUNDARY, chunk=None):
    made, want = [], []
    for n, kind, data, filename, ctype in fields:
        p, raw = payload_of(kind, data)
        f = FormField(n, p, filename)
        if ctype:
            f.set_content_type(ctype)
        made.append(f)
        want.append((n, filename, ctype, raw))
    return MultipartFormDataPayload(made, **({"boundary": boundary} if boundary else {}), **({"chunk_size": chunk} if chunk else {})), want


def same(got, want, t, what):
    t.eq([(g[0], g[1], g[3]) for g in got], [(w[0], w[1], w[3]) for w in want], what, key="form")
    for g, w in zip(got, want):
        t.check(w[2] is None or g[2] == w[2], f"the type of {w[0]!r} is {g[2]!r} instead of {w[2]!r}", key="form")


@CHECK.test("form", st.tuples(form, st.sampled_from([None, 1, 7, 16, 100]), st.booleans()), quick=2000, thorough=30000)
def check_form(case, t):
    fields, chunk, fixed = case
    delimiter = b"\r\n--" + BOUNDARY.encode()
    if any(delimiter in b"\r\n" + payload_of(k, d)[1] for _, k, d, _, _ in fields):
        return
    t.nontrivial(any(f[1] in ("stream", "buffered", "raw", "offset") or "-" in f[2] or "\n" in f[2] for f in fields))
    payload, want = build(fields, BOUNDARY if fixed else None, chunk)
    m = re.fullmatch(r"multipart/form-data; boundary=([0-9a-zA-Z'()+_,./:=?-]{1,70})", payload.content_type())
    t.check(m and (not fixed or m[1] == BOUNDARY), f"the content type is {payload.content_type()!r}", key="form")
    pieces = list(payload)  # kept until the end, as a client that buffers would
    body = b"".join(bytes(p) for p in pieces)
    if not fields:
        t.check(body == b"--" + m[1].encode() + b"--\r\n", f"the empty form is {body!r}", key="form")
        return
    same(decoded(body, m[1], t), want, t, "the fields")
    t.eq(b"".join(bytes(p) for p in payload), body, "the form when it is sent again", key="again")
    if not any(set(f[0] + (f[3] or "")) & set("\n\r\"\\%") or not (f[0] + (f[3] or "")).isascii() or "\r" in f[2] or "\n" in f[2] for f in fields) and all(len(f[0]) < 60 for f in fields):
        msg = email.message_from_bytes(b"Content-Type: " + payload.content_type().encode() + b"\r\n\r\n" + body, policy=email.policy.HTTP)
        got = [(p.get_param("name", header="content-disposition"), p.get_filename(), None, p.get_payload(decode=True)) for p in msg.get_payload()]
        t.eq([(g[0], g[1], g[3]) for g in got], [(w[0], w[1], w[3]) for w in want], "the fields for the standard library", key="form")


class DroppingServer:
    """a server that closes the first connections after reading some bytes, and answers the next one"""

    def __init__(self, drops, after, status):
        self.sock = socket.create_server(("127.0.0.1", 0))
        self.base = f"http://127.0.0.1:{self.sock.getsockname()[1]}"
        self.drops, self.after, self.status, self.requests = drops, after, status, []
        self.thread = threading.Thread(target=self.serve, daemon=True)
        self.thread.start()

    def serve(self):
        while True:
            try:
                conn, _ = self.sock.accept()
            except OSError:
                return
            with conn:
                conn.settimeout(20)
                try:
                    if self.drops > 0:
                        self.drops -= 1
                        got = 0
                        conn.settimeout(0.15)
                        try:
                            while got < self.after and (chunk := conn.recv(min(4096, self.after - got))):
                                got += len(chunk)
                        except TimeoutError:
                            pass
                        conn.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, b"\x01\0\0\0\0\0\0\0")  # reset
                        continue
                    f = conn.makefile("rb")
                    line = f.readline().decode("latin-1")
                    headers = {}
                    while (h := f.readline().decode("latin-1").strip()):
                        k, _, v = h.partition(":")
                        headers[k.lower()] = v.strip()
                    body = b""
                    if "content-length" in headers:
                        body = f.read(int(headers["content-length"]))
                    else:
                        while (n := int(f.readline().split(b";")[0], 16)):
                            body += f.read(n)
                            assert f.readline() == b"\r\n"
                        f.readline()
                    self.requests.append((line.split(), headers, body))
                    conn.sendall(f"HTTP/1.1 {self.status} X\r\nContent-Length: 2\r\nConnection: close\r\n\r\nok".encode())
                except (OSError, ValueError, AssertionError) as e:
                    self.requests.append((["broken", str(e)], {}, b""))

    def close(self):
        self.sock.close()


PORTED = ["Author", "Author-email", "Maintainer", "Maintainer-email", "Home-page", "Download-URL", "Keywords", "License", "Description-Content-Type"]
MULTI = {"Classifier": "classifiers", "Project-URL": "project_urls", "Platform": "platform", "Supported-Platform": "supported_platform", "Provides-Extra": "provides_extra", "Requires-External": "requires_external", "Provides-Dist": "provides_dist", "Obsoletes-Dist": "obsoletes_dist"}
text = st.sampled_from(["a", "Some text", "é ü", "quote\"d", "a: b", "two\nlines", "100%", "a,b", "--x"])
meta = st.fixed_dictionaries({"name": st.sampled_from(["x", "My.Pkg"]), "version": st.sampled_from(["1.0", "1!2.0rc1.post1", "1.0.0"]), "summary": st.one_of(st.none(), text), "description": st.one_of(st.none(), text), "deps": st.lists(st.sampled_from(["a", "b[x] >=1.0 ; python_version >= '3.8'", "c ==1.*"]), max_size=3),
                              "python": st.sampled_from([None, ">=3.8", "<4,>=3.7", "!=3.0.*,>=2.7"]), "single": st.dictionaries(st.sampled_from(PORTED), text, max_size=4), "multi": st.dictionaries(st.sampled_from(sorted(MULTI)), st.lists(text, min_size=1, max_size=3), max_size=4)})
upload = st.fixed_dictionaries({"meta": meta, "data": blob, "size": st.sampled_from([0, 0, 0, 9000, 70000]), "file": st.sampled_from(["x-1.0-py3-none-any.whl", "x-1.0-1_build-cp39-abi3-manylinux1_x86_64.whl", "My_Pkg-1.0-py2.py3-none-any.whl", "x-1.0.tar.gz", "my-pkg-1.0.zip"]), "user": st.sampled_from(["u", "__token__", "é user"]),
                                "password": st.sampled_from(["p", "a:b:c", "é\"\\", "pypi-" + "A" * 200, ""]), "drops": st.sampled_from([0, 0, 0, 1, 1, 9]), "after": st.sampled_from([1, 100, 1500, 6000]), "status": st.sampled_from([200, 200, 200, 400, 403, 500, 302]), "slash": st.booleans()})


@CHECK.test("upload", upload, quick=300, thorough=4000)
def check_upload(case, t):
    from pkm.api.dependencies.dependency import Dependency
    from pkm.api.versions.version import Version
    from pkm.api.versions.version_specifiers import VersionSpecifier
    c, m = case, case["meta"]
    t.nontrivial(bool(c["drops"]) or c["size"] > 0 or len(m["multi"]) > 1)
    pm = PackageMetadata(Version.parse("2.1"), m["name"], Version.parse(m["version"]), m["summary"], m["description"], [Dependency.parse(d) for d in m["deps"]], **({"required_python_spec": VersionSpecifier.parse(m["python"])} if m["python"] else {}))
    pm.leftovers = {**m["single"], **{k: list(v) for k, v in m["multi"].items()}}
    f = t.scratch() / c["file"]
    data = c["data"].encode("latin-1") * (1 + c["size"] // max(1, len(c["data"])))
    f.write_bytes(data)
    server = DroppingServer(c["drops"], c["after"], c["status"])
    t.cleanup(server.close)
    http = HttpClient(t.scratch() / "http")
    publisher = PyPiPublisher("r", http, server.base + "/legacy" + ("/" if c["slash"] else ""))
    try:
        publisher.publish({"username": c["user"], "password": c["password"]}, pm, f)
        ok = True
    except HttpException:
        ok = False
    t.check(not any(r[0][0] == "broken" for r in server.requests), f"the server received a malformed request: {server.requests}", key="request")
    if c["drops"] == 9:
        t.check(not ok and not server.requests, "publishing succeeded on a server that drops every connection", key="outcome")
        return
    t.check(ok == (c["status"] == 200), f"the server answered {c['status']}, and publishing {'succeeded' if ok else 'failed'} after {len(server.requests)} requests", key="outcome")
    t.check(len(server.requests) == 1, f"the server received {len(server.requests)} uploads", key="outcome")
    line, headers, body = server.requests[0]
    t.eq(line[:2], ["POST", "/legacy/"], "the request", key="request")
    t.eq(base64.b64decode(headers["authorization"].split(" ", 1)[1]).decode("utf-8"), f"{c['user']}:{c['password']}", "the credentials", key="credentials")
    boundary = re.fullmatch(r"multipart/form-data; boundary=(\S+)", headers["content-type"])[1]
    fields = decoded(body, boundary, t)
    form_ = {}
    for n, _, _, v in fields:
        form_.setdefault(n, []).append(v)
    t.eq(form_.pop("content"), [data], "the file", key="file")
    t.eq([g[1] for g in fields if g[0] == "content"], [c["file"]], "the name of the file", key="file")
    one = {k: v[0].decode("utf-8") for k, v in form_.items() if len(v) == 1}
    wheel = c["file"].endswith(".whl")
    want = {":action": "file_upload", "protocol_version": "1", "filetype": "bdist_wheel" if wheel else "sdist", "pyversion": c["file"][:-4].split("-")[-3] if wheel else "source", "sha256_digest": hashlib.sha256(data).hexdigest(), "md5_digest": hashlib.md5(data).hexdigest(),
            "blake2_256_digest": hashlib.blake2b(data, digest_size=32).hexdigest(), "metadata_version": "2.1", "name": m["name"], "version": m["version"]}
    for k, v in [("summary", m["summary"]), ("description", m["description"]), *((k.lower().replace("-", "_"), v) for k, v in m["single"].items())]:
        if v:
            want[k] = v
    for k, v in want.items():
        t.eq(one.get(k), v, f"the field {k}", key="fields")
    for k, v in [("requires_dist", [str(Dependency.parse(d)) for d in m["deps"]]), *((MULTI[k], v) for k, v in m["multi"].items())]:
        t.eq([x.decode("utf-8") for x in form_.get(k, [])], v, f"the field {k}", key="fields")
    if m["python"]:
        spec = VersionSpecifier.parse(one["requires_python"])
        t.check(all(spec.allows_version(Version.parse(x)) == VersionSpecifier.parse(m["python"]).allows_version(Version.parse(x)) for x in ("2.7", "3.0.5", "3.6", "3.7", "3.8.1", "3.12", "4.0")), f"requires_python is {one['requires_python']!r} for {m['python']}", key="fields")
    known = set(want) | {"requires_dist", "requires_python"} | {MULTI[k] for k in m["multi"]}
    t.check(set(form_) <= known, f"unexpected fields {set(form_) - known}", key="fields")


@CHECK.test("project", st.tuples(st.lists(st.sampled_from(["x-1.0.tar.gz", "x-1.0-py3-none-any.whl", "x-1.0-cp39-cp39-linux_x86_64.whl"]), unique=True, max_size=3), st.booleans(), st.sampled_from([200, 200, 403])), quick=60, thorough=300)
def check_project(case, t):
    """publishing a project sends each of its built distributions of that version once"""
    files, sub, status = case
    t.nontrivial(len(files) > 1)
    root = t.scratch() / "prj"
    d = root / "dist" / "1.0"
    d.mkdir(parents=True)
    (root / "dist" / "0.9").mkdir()
    (root / "dist" / "0.9" / "x-0.9.tar.gz").write_bytes(b"old")
    (root / "pyproject.toml").write_text('[project]\nname = "x"\nversion = "1.0"\ndescription = "d"\nkeywords = ["k", "l"]\nclassifiers = ["A :: B"]\nurls = {h = "https://h"}\n')
    for f in files:
        (d / f).write_bytes(f.encode())
    if sub:
        (d / "x.dist-info").mkdir()
    s = httpd.server()
    s.routes["/up/"] = {"status": status, "body": b"done"}
    repo = PyPiRepository("r", s.base, s.base + "/up")
    repo._http = HttpClient(t.scratch() / "http")
    try:
        Project.load(root).publish(repo, {"username": "u", "password": "p"})
        ok = True
    except HttpException:
        ok = False
    t.eq(ok, status == 200 or not files, f"success of publishing when the server answers {status}", key="outcome")
    sent = []
    for method, path, headers, body in s.requests:
        fields = decoded(body, re.search("boundary=(.*)", {k.lower(): v for k, v in headers.items()}["content-type"])[1], t)
        form_ = {n: v for n, _, _, v in fields}
        sent.append(([g[1] for g in fields if g[0] == "content"][0], form_["content"].decode()))
        t.eq((form_["name"], form_["version"], form_.get("summary"), form_.get("keywords"), form_.get("classifiers"), form_.get("project_urls")), (b"x", b"1.0", b"d", b"k,l", b"A :: B", b"h, https://h"), "the metadata", key="fields")
    t.check(sorted(sent) == sorted((f, f) for f in files) if status == 200 else len(sent) <= 1, f"{sent} was sent for {files}", key="sent")
