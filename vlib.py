"""Common runner of all checks: generated-input search with Hypothesis against explicit oracles.

A check module (checks/<id>.py) defines `CHECK = Check("C01", rule=...)` and registers tests:

    @CHECK.test("name", strategy, quick=2000, thorough=50000)
    def body(case, t): ...

Every case is plain data (literals), so that a failing one is written to a replay file and can be
re-run without the search (`run.py C01 --replay FILE`).  A body reports a broken property by
`t.fail(...)`/`t.eq(...)`, or by letting an exception of the code under test escape.
"""
from __future__ import annotations

import ast
import dataclasses
import hashlib
import importlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import tarfile
import traceback
import zipfile
from collections import Counter
from pathlib import Path

VERIF = Path(__file__).resolve().parent
REPO = Path(os.environ.get("VERIF_REPO", "/repo"))
VENV_PYTHON = "/opt/venv/bin/python"
VT_SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
SRC_DIRS = ["pkm/src", "pkm-cli/src", "repositories/conda-pkm-repo/src", "repositories/download-torch-pkm-repo/src"]
NOBODY = 65534

CPU_LIMIT = 20.0  # cpu seconds a single case may use (typical cases use milliseconds)
WALL_LIMIT = 120.0  # wall seconds a single case may block
SHRINK_BUDGET = 45.0


class Violation(AssertionError):
    """the property is broken on this case"""

    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.key = key


class HarnessError(Exception):
    pass


class CaseTimeout(BaseException):
    pass


class StopRun(KeyboardInterrupt):
    pass


class Discard(Exception):
    pass


class Trial:
    def __init__(self, scratch_root: Path):
        self._scratch_root = scratch_root
        self._dirs = []
        self._cleanups = []
        self.is_nontrivial = False
        self.labels = []
        self.known = None

    def nontrivial(self, cond=True):
        if cond:
            self.is_nontrivial = True

    def label(self, name):
        self.labels.append(str(name))

    def fail(self, msg, key=None):
        raise Violation(msg, key)

    def check(self, cond, msg, key=None):
        if not cond:
            raise Violation(msg() if callable(msg) else msg, key)

    def eq(self, actual, expected, what="", key=None):
        if actual != expected or type(actual) is bool and type(expected) is not bool:
            raise Violation(f"{what}: got {actual!r}, expected {expected!r}", key)

    def scratch(self) -> Path:
        d = Path(tempfile.mkdtemp(prefix="case", dir=self._scratch_root))
        self._dirs.append(d)
        return d

    def cleanup(self, fn):
        self._cleanups.append(fn)

    def close(self):
        for fn in reversed(self._cleanups):
            try:
                fn()
            except Exception:
                pass
        for d in self._dirs:
            shutil.rmtree(d, ignore_errors=True)


@dataclasses.dataclass
class Test:
    name: str
    strategy: object
    body: object
    quick: int
    thorough: int
    classify: object = None
    exhaustive: object = None  # callable(tier) -> list of cases: enumerated rather than drawn


class Check:
    def __init__(self, prop: str, rule: str, level="exploration", assumptions=(), workers=6):
        self.prop = prop
        self.rule = rule
        self.level = level
        self.assumptions = list(assumptions)
        self.workers = workers
        self.tests: list[Test] = []

    def test(self, name, strategy=None, quick=1000, thorough=None, classify=None, cases=None):
        def deco(fn):
            self.tests.append(Test(name, strategy, fn, quick, thorough or quick * 20, classify, cases))
            return fn

        return deco


def repo_frame_in(tb) -> bool:
    repo = str(REPO) + "/"
    for fr, _ in traceback.walk_tb(tb):
        if fr.f_code.co_filename.startswith(repo):
            return True
    return False


def is_violation(exc: BaseException) -> bool:
    """exceptions that say something about the code under test (as opposed to the harness)"""
    if isinstance(exc, (Violation, CaseTimeout)):
        return True
    if isinstance(exc, (HarnessError, MemoryError)):
        return False
    return repo_frame_in(exc.__traceback__) or _is_unreadable_result(exc)


def _is_unreadable_result(exc: BaseException) -> bool:
    """exceptions raised by an oracle that looked for something in the result of the code under test (a file, an entry, a readable text) that is not there"""
    return isinstance(exc, (LookupError, ValueError, EOFError, StopIteration, FileNotFoundError, NotADirectoryError, IsADirectoryError, zipfile.BadZipFile, tarfile.TarError)) \
        or isinstance(exc, (AttributeError, TypeError)) and "NoneType" in str(exc)


def case_hash(name, case) -> str:
    return hashlib.blake2b(f"{name}:{case!r}".encode("utf8", "surrogatepass"), digest_size=8).hexdigest()


def _known_entries(prop):
    f = VERIF / "known_findings.json"
    if not f.exists():
        return []
    return [e for e in json.loads(f.read_text())["findings"] if e["property"] == prop and e["status"] == "known"]


# ------------------------------------------------------------------------------------- worker side

class Worker:
    def __init__(self, check: Check, index, total, seed, tier, scratch: Path, deadline: float, only=None):
        self.check, self.index, self.total, self.seed, self.tier = check, index, total, seed, tier
        self.scratch, self.deadline, self.only = scratch, deadline, only
        self.labels = Counter()
        self.evals = Counter()
        self.nontrivial: set[str] = set()
        self.samples = {}
        self.failures = []
        self.harness_errors = []
        self.excluded = Counter()
        self.known_keys = {(e["test"], e["key"]) for e in _known_entries(check.prop) if e.get("key")}
        self.timed_out = False

    def run_case(self, test: Test, case):
        """runs one case; returns None or the exception"""
        t = Trial(self.scratch)

        def on_cpu(*_):
            raise CaseTimeout(f"the case did not finish within {CPU_LIMIT} cpu seconds / {WALL_LIMIT} seconds")

        signal.signal(signal.SIGPROF, on_cpu)
        signal.signal(signal.SIGALRM, on_cpu)
        signal.setitimer(signal.ITIMER_PROF, CPU_LIMIT)
        signal.setitimer(signal.ITIMER_REAL, WALL_LIMIT)
        err = None
        try:
            test.body(case, t)
        except Discard:
            self.labels[test.name + ":discarded"] += 1
        except StopRun:
            raise
        except (Exception, CaseTimeout) as e:
            err = e
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
            signal.setitimer(signal.ITIMER_REAL, 0)
            t.close()
        if err is not None and is_violation(err) and test.classify is not None:
            key = test.classify(case, err)
            if key and (test.name, key) in self.known_keys:
                self.excluded[f"{test.name}:{key}"] += 1
                err = None
        if err is not None and getattr(err, "key", None) and (test.name, err.key) in self.known_keys:
            self.excluded[f"{test.name}:{err.key}"] += 1
            err = None
        for l in t.labels:
            self.labels[test.name + ":" + l] += 1
        if t.is_nontrivial:
            h = case_hash(test.name, case)
            if h not in self.nontrivial:
                self.nontrivial.add(h)
                lst = self.samples.setdefault(test.name, [])
                if len(lst) < 12:
                    lst.append(repr(case)[:600])
        return err

    def run_test(self, test: Test):
        import hypothesis
        from hypothesis import HealthCheck, Phase, given, settings

        n = test.quick if self.tier == "quick" else test.thorough
        best = {}
        first_fail = [None]

        def record(case, e):
            r = repr(case)
            if first_fail[0] is None:
                first_fail[0] = time.monotonic()
            if not best or len(r) <= len(best["case"]):
                best.update(case=r, msg=f"{type(e).__name__}: {e}"[:3000],
                            tb="".join(traceback.format_exception(type(e), e, e.__traceback__))[-4000:])

        def on_case(case):
            now = time.monotonic()
            if now > self.deadline:
                self.timed_out = True
                raise StopRun()
            if first_fail[0] is not None and now - first_fail[0] > SHRINK_BUDGET:
                raise StopRun()
            self.evals[test.name] += 1
            err = self.run_case(test, case)
            if err is None:
                return
            if not is_violation(err):
                self.harness_errors.append(
                    f"{test.name}: case {case!r:.1000}\n" + "".join(traceback.format_exception(type(err), err, err.__traceback__)))
                raise StopRun()
            record(case, err)
            raise Violation(f"{type(err).__name__}: {err}"[:2000])

        try:
            if test.exhaustive is not None:
                cases = list(test.exhaustive(self.tier))
                for i, case in enumerate(cases):
                    if i % self.total == self.index:
                        try:
                            on_case(case)
                        except Violation:
                            break
            else:
                share = n // self.total + (1 if self.index < n % self.total else 0)
                if share == 0:
                    return

                @hypothesis.seed(self.seed * 1009 + self.index)
                @settings(max_examples=share, deadline=None, database=None, print_blob=False,
                          report_multiple_bugs=False, suppress_health_check=list(HealthCheck),
                          phases=(Phase.generate, Phase.shrink))
                @given(case=test.strategy)
                def prop(case):
                    on_case(case)

                prop()
        except StopRun:
            pass
        except CaseTimeout:
            pass
        except Violation:
            pass
        except BaseException as e:
            if not best:
                self.harness_errors.append(f"{test.name}: " + "".join(traceback.format_exception(type(e), e, e.__traceback__)))
        if best:
            self.failures.append(dict(test=test.name, **best))

    def run(self):
        for test in self.check.tests:
            if self.only and test.name not in self.only:
                continue
            self.run_test(test)
            if self.failures or self.harness_errors:
                break
        return dict(evals=dict(self.evals), labels=dict(self.labels), nontrivial=sorted(self.nontrivial),
                    samples=self.samples, failures=self.failures, harness_errors=self.harness_errors,
                    excluded=dict(self.excluded), timed_out=self.timed_out)


def worker_env(scratch: Path):
    keep = {k: v for k, v in os.environ.items() if k in ("PATH", "LANG", "LC_ALL", "TZ", "VERIF_SEED", "VERIF_TIER", "VERIF_REPO")}
    data = scratch / "xdg"
    home = scratch / "home"
    tmp = scratch / "tmp"
    for d in (data, home, tmp):
        d.mkdir(parents=True, exist_ok=True)
    keep.update(HOME=str(home), XDG_DATA_HOME=str(data), TMPDIR=str(tmp), PYTHONDONTWRITEBYTECODE="1",
                PYTHONHASHSEED="0", VERIF_WORKER="1", PYTHONIOENCODING="utf8", PYTHONUTF8="1")
    if str(REPO) != "/repo":  # the processes that pkm starts must use the same code, not that of the installed packages
        keep["PYTHONPATH"] = os.pathsep.join(str(REPO / p) for p in SRC_DIRS)
    return keep


def setup_imports():
    for p in SRC_DIRS:
        p = str(REPO / p)
        if p in sys.path:
            sys.path.remove(p)
    for p in reversed(SRC_DIRS):
        sys.path.insert(0, str(REPO / p))
    if VT_SITE not in sys.path:
        sys.path.append(VT_SITE)
    if str(VERIF) not in sys.path:
        sys.path.insert(0, str(VERIF))


def load_check(prop) -> Check:
    setup_imports()
    return importlib.import_module(f"checks.{prop.lower()}").CHECK


def worker_main(argv):
    prop, index, total, seed, tier, scratch, budget, only, out = argv
    scratch = Path(scratch)
    sys.setrecursionlimit(3000)
    os.chdir(scratch)
    try:
        check = load_check(prop)
        cases = scratch / "cases"
        cases.mkdir(exist_ok=True)
        w = Worker(check, int(index), int(total), int(seed), tier, cases, time.monotonic() + float(budget),
                   only.split(",") if only != "-" else None)
        if index == "-1":
            res = replay_cases(w)
        else:
            res = w.run()
    except BaseException as e:
        res = dict(fatal="".join(traceback.format_exception(type(e), e, e.__traceback__)))
    Path(out).write_text(json.dumps(res))
    sys.stdout.flush()
    os._exit(0)


def replay_cases(w: Worker):
    """runs the cases listed in $scratch/replay.json; reports each outcome"""
    res = []
    byname = {t.name: t for t in w.check.tests}
    w.known_keys = set()
    for item in json.loads((w.scratch.parent / "replay.json").read_text()):
        test = byname[item["test"]]
        err = w.run_case(test, ast.literal_eval(item["case"]))
        res.append(dict(failed=err is not None and is_violation(err), harness=err is not None and not is_violation(err),
                        msg="" if err is None else f"{type(err).__name__}: {err}",
                        key=getattr(err, "key", None),
                        tb="" if err is None else "".join(traceback.format_exception(type(err), err, err.__traceback__))))
    return dict(replay=res)


# ------------------------------------------------------------------------------------- parent side

def _spawn(prop, index, total, seed, tier, root: Path, budget, only, uid):
    wdir = root / f"w{index}"
    wdir.mkdir()
    env = worker_env(wdir)
    out = wdir / "result.json"
    log = open(root / f"log{index}", "wb")
    if uid is not None:
        for p in [wdir, *wdir.rglob("*")]:
            os.chown(p, uid, uid)
    if (root / "replay.json").exists():
        shutil.copy(root / "replay.json", wdir / "replay.json")
    kw = dict(user=uid, group=uid, extra_groups=[]) if uid is not None else {}
    p = subprocess.Popen([VENV_PYTHON, "-B", str(VERIF / "run.py"), "--worker", prop, str(index), str(total), str(seed), tier,
                          str(wdir), str(budget), only or "-", str(out)], env=env, cwd=wdir, stdin=subprocess.DEVNULL,
                         stdout=log, stderr=subprocess.STDOUT, start_new_session=True, **kw)
    return p, out, root / f"log{index}"


def _drop_uid():
    if os.getuid() != 0:
        return None
    try:
        subprocess.run([VENV_PYTHON, "-c", "pass"], user=NOBODY, group=NOBODY, extra_groups=[], check=True,
                       stdin=subprocess.DEVNULL, cwd="/")
        return NOBODY
    except Exception:
        return None


def _kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except Exception:
        pass


def _run_workers(prop, indices, total, seed, tier, root, budget, only, uid):
    procs = [(_spawn(prop, i, total, seed, tier, root, budget, only, uid), i) for i in indices]
    end = time.monotonic() + budget + WALL_LIMIT + SHRINK_BUDGET + 30
    results, errors = [], []
    for (p, out, log), i in procs:
        try:
            p.wait(max(1.0, end - time.monotonic()))
        except subprocess.TimeoutExpired:
            pass
        _kill(p)
        p.wait()
        try:
            res = json.loads(out.read_text())
        except Exception:
            tail = log.read_bytes()[-3000:].decode("utf8", "replace")
            res = dict(fatal=f"worker {i} gave no result (exit {p.returncode})\n{tail}")
        if "fatal" in res:
            errors.append(res["fatal"])
        else:
            results.append(res)
    return results, errors


def main(argv):
    if argv and argv[0] == "--worker":
        return worker_main(argv[1:])
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--replay")
    ap.add_argument("--only", help="comma separated test names")
    ap.add_argument("--workers", type=int)
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("-v", action="store_true")
    args = ap.parse_args(argv)
    prop = args.prop.upper()
    tier = "thorough" if args.tier == "thorough" else "quick"
    start = time.monotonic()
    root = Path(tempfile.mkdtemp(prefix=f"verif-{prop}-"))
    os.chmod(root, 0o755)
    try:
        return _main(prop, tier, args, root, start)
    finally:
        shutil.rmtree(root, ignore_errors=True)


def _main(prop, tier, args, root, start):
    uid = _drop_uid()
    check = load_check(prop)
    if args.replay:
        data = json.loads(Path(args.replay).read_text())
        (root / "replay.json").write_text(json.dumps([data]))
        results, errors = _run_workers(prop, [-1], 1, args.seed, tier, root, 300, None, uid)
        if errors or results[0]["replay"][0]["harness"]:
            print("harness error:", errors or results[0]["replay"][0]["tb"])
            return 2
        r = results[0]["replay"][0]
        if r["failed"]:
            print(r["tb"])
            print(r["msg"])
            print(f"VIOLATION property={prop} replay={args.replay}")
            return 1
        print("the case passes")
        return 0

    errors = []
    known = _known_entries(prop)
    if known:
        (root / "replay.json").write_text(json.dumps([dict(test=e["test"], case=e["case"]) for e in known]))
        results, errs = _run_workers(prop, [-1], 1, args.seed, tier, root, 300, None, uid)
        errors += errs
        os.unlink(root / "replay.json")
        if results:
            for e, r in zip(known, results[0]["replay"]):
                if r["harness"]:
                    errors.append(r["tb"])
                elif r["failed"]:
                    print(f"KNOWN-FINDING: property={prop} {e['what']}")

    budget = float(os.environ.get("VERIF_BUDGET") or (150 if tier == "quick" else 3000))
    total = args.workers or check.workers
    results, errs = _run_workers(prop, range(total), total, args.seed, tier, root, budget, args.only, uid)
    errors += errs
    evals, labels, excluded = Counter(), Counter(), Counter()
    nontrivial, samples, failures = set(), {}, []
    timed_out = False
    for r in results:
        evals.update(r["evals"])
        labels.update(r["labels"])
        excluded.update(r["excluded"])
        nontrivial.update(r["nontrivial"])
        failures += r["failures"]
        errors += r["harness_errors"]
        timed_out |= r["timed_out"]
        for k, v in r["samples"].items():
            samples.setdefault(k, []).extend(v)
    picked = []
    for k in sorted(samples):
        for s in samples[k][2::5][:4] or samples[k][:2]:
            picked.append({"test": k, "case": s})
    coverage = dict(evaluations=sum(evals.values()), distinct_nontrivial=len(nontrivial), rule=check.rule,
                    samples=picked or [{"test": "-", "case": "no non-trivial case was reached"}],
                    per_test=dict(sorted(evals.items())), classes=dict(sorted(labels.items())),
                    excluded_known_findings=dict(excluded), stopped_by_time_budget=timed_out)
    evidence = dict(property=prop, tier=tier, seed=args.seed, level=check.level, coverage=coverage,
                    assumptions=check.assumptions, wall_s=round(time.monotonic() - start, 2),
                    violations=1 if failures else 0)
    ev = VERIF / "evidence"
    ev.mkdir(exist_ok=True)
    (ev / f"{prop}.json").write_text(json.dumps(evidence, indent=1, ensure_ascii=True) + "\n")

    if failures:
        best = min(failures, key=lambda f: len(f["case"]))
        rd = VERIF / "replays"
        rd.mkdir(exist_ok=True)
        path = rd / f"{prop}-{best['test']}-{case_hash(best['test'], best['case'])}.json"
        path.write_text(json.dumps(dict(property=prop, test=best["test"], case=best["case"], message=best["msg"]), indent=1))
        for f in {f["test"]: f for f in failures}.values():
            print(f"--- test {f['test']}")
            print("case:", f["case"][:3000])
            print(f["msg"])
            if args.v:
                print(f["tb"])
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    if errors:
        print("harness error:")
        for e in errors[:3]:
            print(e)
        return 2
    print(f"{prop}: held on {sum(evals.values())} cases, {len(nontrivial)} distinct non-trivial, "
          f"{evidence['wall_s']}s; " + ", ".join(f"{k}={v}" for k, v in sorted(evals.items())))
    if args.v:
        for k, v in sorted(labels.items()):
            print("   ", k, v)
    return 0
