"""C21: file transactions. Oracle: a snapshot of the scratch directory (all-or-nothing on failure) and a dictionary model of the directory (on success).
Failures are injected into the operations that the transaction performs on the file system, partway through writing a file."""
import contextlib
import io
import os
import shutil
import stat
from pathlib import Path

from hypothesis import strategies as st

from vlib import Check
import pkm.utils.files as files
from pkm.utils.files import CopyTransaction

CHECK = Check("C21", "histories of copies, tree copies, directory creations, removals and touches over an existing tree, that succeed, raise between two "
                     "operations or hit an I/O error inside one; non-trivial = a failure after at least one overwrite or removal, or a success with at least "
                     "three operations", workers=6)

NAMES = ["a", "b", "d e"]
rel = st.lists(st.sampled_from(NAMES), min_size=1, max_size=3).map("/".join)
content = st.sampled_from(["", "1", "2", "x" * 3000])
source = st.dictionaries(rel, content, max_size=4)
initial = st.lists(st.tuples(rel, st.sampled_from(["file", "file", "file", "exec", "dir", "link", "dangling", "dirlink"]), content), min_size=2, max_size=8)
op = st.one_of(
    st.tuples(st.just("copy"), rel, content), st.tuples(st.just("copy"), rel, content), st.tuples(st.just("mkdir"), rel), st.tuples(st.just("rm"), rel), st.tuples(st.just("rm"), rel),
    st.tuples(st.just("tree"), rel, source), st.tuples(st.just("tree"), rel, source), st.tuples(st.just("patched"), rel, source),
    st.tuples(st.just("filtered"), rel, source, st.sampled_from(NAMES)), st.tuples(st.just("touch"), rel), st.tuples(st.just("write"), rel, content))
outcome = st.one_of(st.just(None), st.just("raise"), st.just("raise"), st.integers(1, 12))


class Injected(OSError):
    pass


def snapshot(root):
    out = {}
    for d, subdirs, names in os.walk(root):
        for n in subdirs + names:
            p = Path(d, n)
            r = str(p.relative_to(root))
            if p.is_symlink():
                out[r] = ("link", os.readlink(p))
            elif p.is_dir():
                out[r] = ("dir",)
            else:
                out[r] = ("file", p.read_text(), bool(p.stat().st_mode & stat.S_IXUSR))
    return out


def write_source(root, tree):
    root.mkdir()
    for r, c in sorted(tree.items()):
        p = root / r
        try:
            p.parent.mkdir(parents=True, exist_ok=True)
            p.write_text(c)
        except OSError:
            pass  # a name that is used both as a file and as a directory


class Faults:
    """the n-th primitive operation fails, a failing copy leaves a partial file"""

    def __init__(self, n):
        self.left = n
        self.hit = False

    @contextlib.contextmanager
    def only_here(self):
        """a rollback is not disturbed by a second failure"""
        try:
            yield
        finally:
            self.left = None

    def tick(self):
        if self.left is None or self.hit:
            return False
        self.left -= 1
        if self.left == 0:
            self.hit = True
        return self.hit

    def install(self, t):
        real_copy, real_move, real_mkdir = shutil.copy, shutil.move, Path.mkdir

        def copy(src, dst, *a, **k):
            if self.tick():
                if Path(dst).parent.is_dir() and not Path(dst).is_dir():
                    Path(dst).write_text("partial")
                raise Injected("injected copy failure")
            return real_copy(src, dst, *a, **k)

        def move(src, dst, *a, **k):
            if self.tick():
                raise Injected("injected move failure")
            return real_move(src, dst, *a, **k)

        def mkdir(p, *a, **k):
            if self.tick():
                raise Injected("injected mkdir failure")
            return real_mkdir(p, *a, **k)

        shutil.copy, shutil.move, Path.mkdir = copy, move, mkdir

        def restore():
            shutil.copy, shutil.move, Path.mkdir = real_copy, real_move, real_mkdir

        t.cleanup(restore)
        return restore


def patched_copy(faults):
    def file_copy(s, d):
        text = "patched " + s.read_text()
        with d.open("w") as fd:
            fd.write(text[:4])
            if faults.tick():
                fd.flush()
                raise Injected("injected failure while writing")
            fd.write(text[4:])

    return file_copy


@CHECK.test("history", st.tuples(initial, st.lists(op, min_size=1, max_size=6), outcome), quick=2500, thorough=60000)
def check_history(case, t):
    initial_, ops, failure = case
    scratch = t.scratch()
    root = scratch / "root"
    temp = scratch / "temp"
    outside = scratch / "outside"
    for d in (root, temp, outside):
        d.mkdir()
    (outside / "kept").write_text("outside")
    for r, kind, c in initial_:
        p = root / r
        try:
            p.parent.mkdir(parents=True, exist_ok=True)
            if p.is_symlink() or p.exists():
                continue
            if kind == "dir":
                p.mkdir()
            elif kind == "link":
                p.symlink_to(outside / "kept")
            elif kind == "dirlink":
                p.symlink_to(outside)
            elif kind == "dangling":
                p.symlink_to(scratch / "nowhere")
            else:
                p.write_text(c)
                if kind == "exec":
                    p.chmod(0o755)
        except OSError:
            continue
    before, outside_before = snapshot(root), snapshot(outside)
    through_links = {r for r, e in before.items() if e[0] == "link"}

    def crosses(r):
        """writing under a link to another directory is writing there: the histories do not"""
        parts = r.split("/")
        return any("/".join(parts[:i]) in through_links for i in range(1, len(parts) + 1))

    sources = []
    for i, o in enumerate(ops):
        s = scratch / f"source{i}"
        if o[0] == "copy":
            s.write_text(o[2])
        elif o[0] in ("tree", "patched", "filtered"):
            write_source(s, o[2])
        sources.append(s)

    tempdir = files.mkdtemp
    files.mkdtemp = lambda *a, **k: tempdir(dir=str(temp))
    t.cleanup(lambda: setattr(files, "mkdtemp", tempdir))
    faults = Faults(failure if isinstance(failure, int) else None)
    restore = faults.install(t)
    raised, performed, created = None, [], set()
    expected = dict(before)
    try:
        with contextlib.redirect_stderr(io.StringIO()), CopyTransaction() as ct, faults.only_here():
            for i, (kind, r, *rest) in enumerate(ops):
                p, s = root / r, sources[i]
                if crosses(r) and kind not in ("rm", "copy"):
                    continue
                if any(crosses("/".join(r.split("/")[:k])) for k in range(1, len(r.split("/")))):
                    continue
                if kind in ("tree", "patched", "filtered") and any(crosses(f"{r}/{x}") for x in through_links if x.startswith(r)):
                    continue
                if kind in ("tree", "patched", "filtered") and any(x.startswith(r + "/") for x in through_links):
                    continue
                if kind == "copy":
                    if p.is_dir() and not p.is_symlink():
                        continue
                    ct.copy(s, p)
                elif kind == "mkdir":
                    t.eq(ct.mkdir(p), p, "mkdir gives")
                elif kind == "rm":
                    if not p.is_symlink() and not p.exists():
                        continue
                    ct.rm(p)
                elif kind == "tree":
                    ct.copy_tree(s, p)
                elif kind == "filtered":
                    ct.copy_tree(s, p, accept=lambda f, n=rest[1]: f.name != n)
                elif kind == "patched":
                    ct.copy_tree(s, p, file_copy=patched_copy(faults))
                elif kind == "touch":
                    if p.exists() or p.is_symlink() or not p.parent.is_dir():
                        continue
                    ct.touch(p, fs_touch=True)
                elif kind == "write":  # a file that the user of the transaction writes itself
                    if p.exists() or p.is_symlink() or not p.parent.is_dir():
                        continue
                    p.write_text(rest[0])
                    ct.touch(p)
                through_links -= {x for x in through_links if not (root / x).is_symlink()}
                performed.append((kind, r))
                model(expected, kind, r, s, rest, created)
            copied = {str(f.relative_to(root)) for f in ct.copied_files}
            if failure == "raise":
                raise KeyboardInterrupt("injected") if len(ops) % 2 else Injected("injected between operations")
    except OSError as e:
        raised = e
    except KeyboardInterrupt as e:
        raised = e
    finally:
        restore()
    after = snapshot(root)
    t.eq(snapshot(outside), outside_before, "files outside of the tree")
    t.eq(list(temp.iterdir()), [], "temporary files that are left behind")
    t.label("failed" if raised else "succeeded")
    if raised:
        t.nontrivial(any(k == "rm" for k, _ in performed) or any(r in before for _, r in performed))
        t.check(after == before, f"after {performed} failed with {raised!r}, {diff(before, after)}", key="rollback")
    else:
        t.nontrivial(len(performed) >= 3)
        t.check(after == expected, f"after {performed}, {diff(expected, after)}", key="commit")
        t.eq(copied & set(after), {r for r in created if r in after}, f"after {performed} the files that count as copied", key="copied")


def diff(expected, actual):
    return "; ".join(f"{r}: expected {expected.get(r)}, got {actual.get(r)}" for r in sorted({*expected, *actual}) if expected.get(r) != actual.get(r))


def model(tree, kind, r, s, rest, created):
    def remove(r):
        for x in [x for x in tree if x == r or x.startswith(r + "/")]:
            del tree[x]
            created.discard(x)

    def mkdir(r):
        parts = r.split("/")
        for k in range(1, len(parts) + 1):
            x = "/".join(parts[:k])
            if x not in tree:
                tree[x] = ("dir",)
                created.add(x)

    def put(r, text):
        if "/" in r:
            mkdir(r.rsplit("/", 1)[0])
        remove(r)
        tree[r] = ("file", text, False)
        created.add(r)

    if kind == "copy":
        put(r, s.read_text())
    elif kind == "mkdir":
        mkdir(r)
    elif kind == "rm":
        remove(r)
    elif kind in ("tree", "patched", "filtered"):
        mkdir(r)
        for f in sorted(s.rglob("*")):
            x = f.relative_to(s)
            if kind == "filtered" and rest[1] in x.parts:
                continue
            if f.is_dir():
                mkdir(f"{r}/{x}")
            else:
                put(f"{r}/{x}", ("patched " if kind == "patched" else "") + f.read_text())
    elif kind == "touch":
        put(r, "")
    elif kind == "write":
        put(r, rest[0])
