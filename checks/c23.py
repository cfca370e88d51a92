"""C23: archive extraction and path containment. Oracle: a snapshot of everything around the target directory, and the contents the archive was written from."""
import bz2
import gzip
import io
import os
import tarfile
import warnings
import zipfile
from pathlib import Path

from hypothesis import strategies as st

import wheelkit as wk
from vlib import Check
from pkm.utils.archives import extract_archive
from pkm.utils.files import is_relative_to, path_to

CHECK = Check("C23", "zip, wheel and compressed tar archives of files, directories, symbolic and hard links and special members, with names that are absolute or lead upwards, directly or through "
                     "links, extracted next to a tree of sentinels; non-trivial = a member name or a link leads outside, or a link inside is used", workers=6)

name = st.one_of(st.lists(st.sampled_from(["a", "b", "c", "d e", "é", ".hidden", "x.py"]), min_size=1, max_size=3).map("/".join),
                 st.sampled_from(["a", "b", "a/b", "a/b/c", "l", "l/x", "l/file", "m", "m/x", "l/m/x", "./a", "a//b", "a/./b", "a/../b"]))
outside = st.sampled_from(["../file", "../evil", "../../evil", "a/../../evil", "../target2/evil", "{outer}/evil", "{outer}/file", "/{outer}/evil", "..", "l/../../evil", "./../evil", "../target/in", "a/../..", "..\\evil"])
link_to = st.sampled_from(["a", "b", "..", ".", "../a", "a/b", "../file", "../dir", "../..", "{outer}", "{outer}/file", "{target}/a", "l", "m", "l/..", "m/..", "a/..", "../target2", "l/../..", "missing"])
member = st.one_of(st.tuples(st.just("file"), name, st.binary(max_size=5), st.sampled_from([0o644, 0o755, 0o444, 0o600])), st.tuples(st.just("file"), name, st.binary(max_size=5), st.just(0o644)),
                   st.tuples(st.just("file"), outside, st.just(b"evil"), st.just(0o644)), st.tuples(st.just("dir"), st.one_of(name, outside)),
                   st.tuples(st.just("sym"), st.one_of(name, st.sampled_from(["l", "m"])), link_to), st.tuples(st.just("hard"), st.one_of(name, st.sampled_from(["l", "m"])), link_to),
                   st.tuples(st.sampled_from(["fifo", "chr"]), name))
benign = st.tuples(st.just("file"), name.filter(lambda n: ".." not in n), st.binary(max_size=3000), st.sampled_from([0o644, 0o755, 0o600]))


def write(path, kind, members, fmt):
    if kind in ("zip", "whl"):
        with warnings.catch_warnings(), zipfile.ZipFile(path, "w") as z:
            warnings.simplefilter("ignore")
            for m in members:
                i = zipfile.ZipInfo(m[1] + ("/" if m[0] == "dir" else ""))
                if m[0] == "file":
                    i.external_attr = m[3] << 16
                    z.writestr(i, m[2], zipfile.ZIP_DEFLATED if len(m[2]) % 2 else zipfile.ZIP_STORED)
                elif m[0] == "dir":
                    z.writestr(i, b"")
                elif m[0] == "sym":
                    i.external_attr = 0o120777 << 16
                    z.writestr(i, m[2])
        return
    with tarfile.open(path, "w:gz" if kind == "tar.gz" else "w:bz2", format=fmt) as tar:
        for m in members:
            i = tarfile.TarInfo(m[1])
            if m[0] == "file":
                i.size, i.mode = len(m[2]), m[3]
                tar.addfile(i, io.BytesIO(m[2]))
                continue
            i.type = {"dir": tarfile.DIRTYPE, "sym": tarfile.SYMTYPE, "hard": tarfile.LNKTYPE, "fifo": tarfile.FIFOTYPE, "chr": tarfile.CHRTYPE}[m[0]]
            i.mode = 0o755
            if m[0] in ("sym", "hard"):
                i.linkname = m[2]
            if m[0] == "hard":
                i.mode = next((n[3] for n in members if n[0] == "file" and n[1] == m[2]), 0o755)
            tar.addfile(i)


def around(outer):
    return {p: e for p, e in wk.snapshot(outer).items() if not p.startswith("target/") and p != "target"}


kinds = st.sampled_from(["tar.gz", "tar.gz", "tar.bz2", "tar.bz2", "zip", "whl"])


@CHECK.test("hostile", st.tuples(st.lists(member, min_size=1, max_size=6), kinds, st.sampled_from([tarfile.GNU_FORMAT, tarfile.PAX_FORMAT]), st.booleans()), quick=3000, thorough=60000)
def check_hostile(case, t):
    members, kind, fmt, exists = case
    scratch = t.scratch()
    outer = scratch / "outer"
    (outer / "target2").mkdir(parents=True)
    (outer / "dir").mkdir()
    for f in ("file", "dir/file", "target2/file", "a"):
        (outer / f).write_text("sentinel")
    target = outer / "target"
    if exists:
        target.mkdir()
    members = [tuple(x.format(outer=outer, target=target) if isinstance(x, str) else x for x in m) for m in members]
    write(scratch / f"archive.{kind}", kind, members, fmt)
    before = around(outer)
    before_all = set(os.listdir(scratch))
    bad = any(".." in m[1] or m[1].startswith("/") or (m[0] in ("sym", "hard") and (".." in m[2] or m[2].startswith("/"))) for m in members)
    t.nontrivial(bad or any(m[0] in ("sym", "hard") for m in members))
    cwd = os.getcwd()
    os.chdir(target if exists else outer)
    t.cleanup(lambda: os.chdir(cwd))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            extract_archive(scratch / f"archive.{kind}", target)
        except Exception:
            t.label("refused")
        else:
            t.label("extracted")
    t.check(around(outer) == before, f"extracting {members} changed the outside: {wk.difference(before, around(outer))}", key="outside")
    t.eq(set(os.listdir(scratch)), before_all, "files outside", key="outside")
    # what is in the target does not lead out of it
    for d, subdirs, names in os.walk(target):
        for n in subdirs + names:
            p = os.path.join(d, n)
            if kind.startswith("tar") and os.path.islink(p) and bad:
                t.label("link")
            if os.path.isfile(p) and os.stat(p).st_nlink > 1:
                t.check(not os.path.samefile(p, outer / "file") and not os.path.samefile(p, outer / "a"), f"{p} is a hard link to a file outside", key="hard link")
            real = os.path.realpath(p)
            if os.path.lexists(p) and os.path.exists(p):
                t.check(real == str(target) or real.startswith(str(target) + "/"), f"extracting {members}: {os.path.relpath(p, target)} leads to {real}", key="leads out")


@CHECK.test("contents", st.tuples(st.lists(benign, min_size=1, max_size=6), kinds, st.sampled_from([tarfile.GNU_FORMAT, tarfile.PAX_FORMAT, tarfile.USTAR_FORMAT]), st.booleans(), st.sampled_from([None, None, "sym", "hard"])), quick=1500, thorough=20000)
def check_contents(case, t):
    members, kind, fmt, prior, link = case
    files = {}
    for m in members:
        p = os.path.normpath(m[1])
        if any(p == q or p.startswith(q + "/") or q.startswith(p + "/") for q in files):
            continue
        files[p] = m
    scratch = t.scratch()
    target = scratch / "deep" / "target"
    if prior:
        target.mkdir(parents=True)
        (target / "prior").write_text("prior")
    ms = list(files.values())
    first = next(iter(files))
    if link and kind.startswith("tar"):
        ms.append((link, "zz/link", "../" + first if link == "sym" else ms[0][1]))
    write(scratch / f"a.b-1.0.{kind}", kind, ms, fmt)
    t.nontrivial(len(files) > 1)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        extract_archive(scratch / f"a.b-1.0.{kind}", target)
    after = {p: e for p, e in wk.snapshot(target).items() if e[0] != "dir"}
    if prior:
        t.eq(after.pop("prior", ("", b""))[1], b"prior", "a file that was in the target", key="prior")
    if link and kind.startswith("tar"):
        after.pop("zz/link", None)
        t.eq((target / "zz/link").read_bytes(), files[first][2], "the content through a link", key="link")
    t.eq({p: e[1] for p, e in after.items()}, {p: m[2] for p, m in files.items()}, "the extracted files", key="files")
    if kind.startswith("tar"):
        for p, m in files.items():
            t.eq(bool(after[p][2] & 0o100), bool(m[3] & 0o100), f"{p} is executable", key="mode")


seg = st.sampled_from(["a", "ab", "b", "a.b", "A", ".", "..", "a b", "é"])
rel = st.lists(seg, max_size=4)


@CHECK.test("containment", st.tuples(rel, rel, st.booleans(), st.booleans(), st.booleans()), quick=3000, thorough=50000)
def check_containment(case, t):
    a, b, below, abs_a, abs_b = case
    scratch = t.scratch()
    cwd = os.getcwd()
    os.chdir(scratch)
    t.cleanup(lambda: os.chdir(cwd))
    if below:
        b = a + b
    pa, pb = Path(scratch if abs_a else "", *a), Path(scratch if abs_b else "", *b)
    na, nb = os.path.normpath(scratch.joinpath(*a)), os.path.normpath(scratch.joinpath(*b))
    want = (nb + "/").startswith(na.rstrip("/") + "/")
    t.nontrivial(os.path.commonprefix([na, nb]) not in ("/", str(scratch)) and na != nb)
    t.eq(is_relative_to(pb, pa), want, f"{pb} is in {pa}", key="is_relative_to")
    if ".." not in a and ".." not in b:
        r = path_to(pa, pb)
        t.check(not r.is_absolute(), f"path_to({pa}, {pb}) is {r}", key="path_to")
        t.eq(os.path.normpath(os.path.join(na, r)), nb, f"path_to({pa}, {pb}) = {r} leads", key="path_to")
