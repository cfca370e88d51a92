"""C40: the torch repository offers the builds that the machine can run, cuda builds (newest release, then newest cuda) before cpu ones.

Oracle: the listed builds, the driver and the compatibility table are generated, which builds can be used and their order is computed from them
directly. The web (index page and nvidia's compatibility page) is replaced by generated pages, `nvidia-smi` by a generated command."""
import html
import io
import os
import sys
import tomllib
import warnings
from contextlib import redirect_stderr, redirect_stdout
from pathlib import Path
from unittest import mock

from hypothesis import strategies as st

from vlib import Check, REPO
import wheelkit as wk

sys.path.insert(0, str(REPO / "repositories/download-torch-pkm-repo/src"))
from download_torch_pkm_repo import cuda_compatibility as cc
from download_torch_pkm_repo.cuda_compatibility import CudaCompatibilityTable
from download_torch_pkm_repo.torch_repository import DownloadTorchRepository, DownloadTorchRepositoryBuilder
from pkm.api.dependencies.dependency import Dependency
from pkm.api.pkm import pkm
from pkm.api.versions.version import Version
from pkm.utils.http.http_client import FetchedResource, HttpException

CHECK = Check("C40", "generated index pages, compatibility tables and drivers; non-trivial = there were cuda builds that the driver can run and others that it cannot, "
                     "or a new compatibility table replaced an old one", workers=4)
BUILTIN = REPO / "repositories/download-torch-pkm-repo/src/download_torch_pkm_repo/resources/cuda-compatibilities.toml"
TABLE_ID = "cuda-major-component-versions__table-cuda-toolkit-driver-versions"

numbers = st.sampled_from([0, 1, 2, 5, 9, 10, 46, 99, 100])
drivers = st.one_of(st.tuples(st.sampled_from([352, 384, 396, 410, 418, 450, 470, 525]), st.sampled_from([0, 26, 33, 48, 80]), st.none() | st.integers(0, 12)),
                    st.tuples(st.integers(340, 560), numbers, st.none() | st.integers(0, 99)))
cuda = st.sampled_from([(7, 5), (8, 0), (8, 0, 44), (9, 0), (9, 1), (9, 2), (9, 2, 148), (10, 0), (10, 0, 130), (10, 1), (10, 2, 89), (11, 0), (11, 0, 1), (11, 1), (11, 1, 1), (11, 3), (11, 7), (11, 8), (12, 0, 1), (12, 1)])
row = st.tuples(cuda, drivers, drivers)
LABELS = ["", "cpu", "cu75", "cu80", "cu90", "cu92", "cu100", "cu101", "cu102", "cu110", "cu111", "cu113", "cu117", "cu118", "cu121", "cu117.with.pypi.cudnn", "rocm5.2", "xpu", "cpu.cxx11.abi", "cu", "cuda", "cu1"]
build = st.tuples(st.sampled_from([(1, 0, 0), (1, 1, 0), (1, 10, 0), (1, 9, 1), (2, 0), (2, 0, 1)]), st.sampled_from(LABELS[:16] * 2 + LABELS), st.sampled_from(["py3-none-any"] * 5 + ["cp310-cp310-linux_x86_64", "py3-none-win_amd64"]), st.booleans())


def text(v):
    return ".".join(str(p) for p in v if p is not None)


def key(v):
    v = [p for p in v if p is not None]
    while v and v[-1] == 0:
        v.pop()
    return v


def page_of_table(rows, style):
    p = (lambda s: f"<p>{s}</p>") if style & 1 else (lambda s: f"\n   {s}\n")
    out = ["<!DOCTYPE html><html><head><meta charset='utf-8'><link rel=x></head><body><p>one<p>two<br><img src='x'>",
           "<table id='other'><tbody><tr><td>CUDA 99.0</td><td>&gt;=1.0</td><td>&gt;=1.0</td></tr></tbody></table>",
           f"<table class='a' id='{TABLE_ID}'><colgroup><col><col></colgroup><thead><tr><th>Toolkit</th><th>Linux</th><th>Windows</th></tr></thead><tbody>"]
    for i, (c, linux, windows) in enumerate(rows):
        name = f"CUDA {text(c)}" + (" GA", " Update 1", "", " RC (beta)")[i % 4]
        space = " " if style & 2 else ""
        out.append("<tr class='row'>" + "".join(f"<td class='entry'>{p(html.escape(s))}</td>" for s in (name, f">={space}{text(linux)}", f">={space}{text(windows)}")) + "</tr>")
    out.append("</tbody></table></div></body></html>")
    return "\n".join(out) if style & 4 else "".join(out)


class _Web:
    """stands for the http client"""

    def __init__(self, d):
        self.d, self.pages = d, {}

    def __call__(self, client, url, cache=None, resource_name=None):
        content = self.pages.get(url)
        if content is None:
            response = mock.Mock(status=404)
            raise HttpException(f"no such page {url}", response)
        p = self.d / "page"
        p.write_text(content)
        return FetchedResource(self.d / "info", p, self.d)


def index(builds, project="torch"):
    links = [f'<a href="/whl/{b[1]}/{project}-{text(b[0])}{"%2B" + b[1] if b[1] else ""}-{b[2]}.whl{"#sha256=aa" if b[3] else ""}">{project}-{text(b[0])}{"+" + b[1] if b[1] else ""}-{b[2]}.whl</a><br/>' for b in builds]
    return "<!DOCTYPE html><html><body><h1>Links</h1>\n" + "\n".join(links) + "</body></html>"


def check_builds(t, repo, builds, usable, allow_cpu, env, spec):
    """:param usable: labels of the cuda builds that can be used -> (major, minor)"""
    want = []
    for release, label, tag, _ in builds:
        if tag != "py3-none-any" or (release, label) in [(w[0], w[1]) for w in want]:
            continue
        if label in usable:
            want.append((release, label, 1, usable[label]))
        elif label in ("", "cpu") and allow_cpu:
            want.append((release, label, 0, (0, 0)))
    bounds = {"": lambda r: True, ">=1.10": lambda r: key(r) >= [1, 10], "==1.0.*": lambda r: r[:2] == (1, 0)}
    want = [w for w in want if bounds[spec](w[0])]
    got = repo.match(Dependency.parse("torch" + spec), env)
    t.eq(sorted(str(p.version) for p in got), sorted(text(w[0]) + ("+" + w[1] if w[1] else "") for w in want), "the builds that are offered", key="set")
    rank = {str(Version.parse(text(w[0]) + ("+" + w[1] if w[1] else ""))): (w[2], key(w[0]), w[3]) for w in want}
    ranks = [rank[str(p.version)] for p in got]
    t.eq(ranks, sorted(ranks, reverse=True), "the order of the offered builds", key="order")
    cuda_builds = {b[1] for b in builds if b[1].startswith("cu") and b[1][2:].isdigit()}
    t.nontrivial(bool(cuda_builds & set(usable)) and bool(cuda_builds - set(usable)) and len(want) > 1)
    t.label(f"{len({w[3] for w in want if w[2]})} cuda versions offered"[:40])


def quietly(f):
    with redirect_stdout(io.StringIO()), redirect_stderr(io.StringIO()), warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        return f(), ws


def label_of(c):
    return f"cu{c[0]}{c[1]}"


def nvidia_smi(d, kind, driver):
    (d / "bin").mkdir(exist_ok=True)
    if kind != "absent":
        body = {"one": f"echo driver_version; echo {text(driver)}", "two": f"echo driver_version; echo {text(driver)}; echo {text(driver)}", "blank": f"echo driver_version; echo '{text(driver)} '; echo",
                "no-gpu": "echo 'No devices were found'", "broken": "echo \"NVIDIA-SMI has failed because it couldn't communicate with the NVIDIA driver.\"; exit 9", "silent": "exit 0", "header": "echo driver_version"}[kind]
        (d / "bin/nvidia-smi").write_text(f"#!/bin/sh\n{body}\n")
        (d / "bin/nvidia-smi").chmod(0o755)
    return mock.patch.dict(os.environ, {"PATH": str(d / "bin")})


SMI = ["one", "one", "two", "blank", "absent", "no-gpu", "broken", "silent", "header"]


@CHECK.test("tables", st.tuples(st.lists(row, max_size=5), st.lists(row, max_size=6), st.sampled_from(["new", "new", "new", "missing", "garbage", "empty", "no-table"]), st.integers(0, 7), drivers, st.booleans(), st.lists(build, max_size=10), st.booleans(),
                                st.sampled_from(["", "", ">=1.10", "==1.0.*"]), st.sampled_from(SMI)), quick=500, thorough=20000)
def tables(case, t):
    old, new, page, style, driver, windows, builds, allow_cpu, spec, smi = case
    d = t.scratch()
    web = _Web(d)
    lines = "".join(f'[[version-spec]]\ncuda-version = "{text(c)}"\nlinux-spec = ">={text(l)}"\nwindows-spec = ">={text(w)}"\n\n' for c, l, w in old)
    config = d / "table.toml"
    config.write_text(lines or "version-spec = []\n")
    url = "https://docs.nvidia.com/cuda/cuda-toolkit-release-notes/index.html"
    current = old
    if page == "new":
        web.pages[url] = page_of_table(new, style)
        current = new or old
    elif page == "empty":
        web.pages[url] = ""
    elif page == "garbage":
        web.pages[url] = page_of_table([*new, ((12, 0), (525, 60, None), (527, 41, None))], style).replace("&gt;=", "at least ")
    elif page == "no-table":
        web.pages[url] = page_of_table(new, style).replace(TABLE_ID, "renamed")
    can = [c for c, l, w in current if key(driver) >= key(w if windows else l)]
    with mock.patch.object(type(pkm.httpclient), "fetch_resource", lambda self, *a, **k: web(self, *a, **k)):
        table, warned = quietly(lambda: CudaCompatibilityTable.load(config))
        if current is old and (page != "new" or not new):
            t.check(any("cuda" in str(w.message) for w in warned), "using an old table was not reported")
        got = table.compatible_cuda_versions(Version.parse(text(driver)), windows)
        t.eq(sorted(map(str, got)), sorted(text(c) for c in can), "the cuda versions that a driver can run")
        # the detected driver
        with nvidia_smi(d, smi, driver):
            detected = table.installed_nvidia_driver_version
            t.eq(detected, Version.parse(text(driver)) if smi in ("one", "two", "blank") else None, "the detected driver")
            detected_cuda = table.compatible_cuda_versions(is_windows=windows)
            t.eq(sorted(map(str, detected_cuda)), sorted(text(c) for c in can) if detected else [], "the cuda versions that the detected driver can run")
        web.pages["https://download.pytorch.org/whl/torch/"] = index(builds)
        repo = DownloadTorchRepository("x", allow_cpu, got)
        check_builds(t, repo, builds, {label_of(c): c[:2] for c in can}, allow_cpu, wk.environment(d / "env"), spec)
        t.eq(repo.match(Dependency.parse("missing"), wk.environment(d / "env")), [], "builds of a missing project")
        # what was learned is kept
        web.pages.pop(url, None)
        again, _ = quietly(lambda: CudaCompatibilityTable.load(config))
        t.eq(sorted(map(str, again.compatible_cuda_versions(Version.parse(text(driver)), windows))), sorted(text(c) for c in can), "the compatible versions by the stored table")
    t.nontrivial(current is not old and bool(old))


@CHECK.test("machines", st.tuples(drivers, st.lists(build, min_size=4, max_size=14), st.booleans(), st.sampled_from(["", "", ">=1.10", "==1.0.*"]), st.sampled_from(SMI)), quick=250, thorough=8000)
def machines(case, t):
    driver, builds, allow_cpu, spec, smi = case
    d = t.scratch()
    web = _Web(d)
    web.pages["https://download.pytorch.org/whl/torch/"] = index(builds)
    rows = tomllib.loads(BUILTIN.read_text())["version-spec"]
    can = [tuple(int(x) for x in r["cuda-version"].split(".")) for r in rows if key(driver) >= key(tuple(int(x) for x in r["linux-spec"].removeprefix(">=").split(".")))]
    if smi not in ("one", "two", "blank"):
        can = []
    with mock.patch.object(type(pkm.httpclient), "fetch_resource", lambda self, *a, **k: web(self, *a, **k)), nvidia_smi(d, smi, driver):
        repo, _ = quietly(lambda: DownloadTorchRepositoryBuilder().build("torch", allow_cpu=allow_cpu))
        t.eq(repo.name, "torch", "the name of the repository")
        check_builds(t, repo, builds, {label_of(c): c[:2] for c in can}, allow_cpu, wk.environment(d / "env"), spec)
