"""C50: the pool of worker processes. Oracle: every task settles once, with the value or the failure of its function (known per kind of task), after at most one execution
(the executions are logged by the workers); tasks that misbehave (die, exit, write to the raw descriptors, return what cannot be sent back) harm no other task."""
import contextlib
import io
import os
import signal
import subprocess
import threading
import time

from hypothesis import strategies as st

import poolkit
from vlib import Check, VERIF
from pkm.utils.multiproc import ProcessPoolExecutor

CHECK = Check("C50", "pools of 1-3 workers with short and long periods of inactivity x histories of tasks (values, large and unusual values, exceptions, exits, crashes, prints, raw output, children that read or write, "
                     "cancellations, what cannot be sent) submitted from 1-3 threads, with pauses, and a shutdown while tasks wait; non-trivial = a worker was lost, or more tasks than workers were waiting", workers=8)

LIMIT = 30
kind = st.sampled_from(["value"] * 5 + ["kwargs", "odd", "big", "raise", "raise", "mute", "fatal", "interrupt", "generator", "lambda", "sticky", "print", "print", "raw", "child", "reader", "exit", "die", "die", "unsendable", "unsendable part"])
value = st.one_of(st.none(), st.integers(), st.text(max_size=4), st.lists(st.integers(0, 9), max_size=3), st.dictionaries(st.text(max_size=2), st.floats(allow_nan=False), max_size=2), st.booleans(), st.just(Ellipsis))
task = st.tuples(kind, value, st.sampled_from([0, 0, 0, 0.01, 0.05]), st.sampled_from([False] * 5 + [True]))
pause = st.tuples(st.just("pause"), st.sampled_from([0.02, 0.15, 0.3]))
text = st.text(st.characters(blacklist_categories=["Cs"]), max_size=10)


def child(pid):
    """whether this is a running child of this process"""
    try:
        state, parent = open(f"/proc/{pid}/stat").read().rpartition(")")[2].split()[:2]
    except OSError:
        return False
    return state != "Z" and int(parent) == os.getpid()


@CHECK.test("histories", st.tuples(st.integers(1, 3), st.sampled_from([15, 0.1, 0.03]), st.lists(st.lists(st.one_of(task, task, task, pause), min_size=1, max_size=6), min_size=1, max_size=3), text,
                                   st.sampled_from(["wait", "wait", "close", "close"])), quick=250, thorough=4000)
def check_histories(case, t):
    """whatever tasks do, each of them settles as its function says, and runs at most once"""
    n, inactivity, threads, said, end = case
    log = str(t.scratch() / "log")
    os.close(os.open(log, os.O_CREAT | os.O_WRONLY))
    paths = os.environ.get("PYTHONPATH", "").split(os.pathsep)
    if str(VERIF) not in paths:
        os.environ["PYTHONPATH"] = os.pathsep.join([*filter(None, paths), str(VERIF)])
    pool = ProcessPoolExecutor(n, max_inactivity_seconds=inactivity)
    started = []
    popen_init = subprocess.Popen.__init__
    peak = [0]

    def spawn(self, *args, **kwargs):
        if len(started) > 100:
            raise RuntimeError("workers are started again and again")
        popen_init(self, *args, **kwargs)
        started.append(self.pid)
        peak[0] = max(peak[0], len(alive()))

    def alive():
        # (the Popen objects are not kept here: a worker ends when the pipes to it are closed)
        return [pid for pid in started if child(pid)]

    def end_all():
        subprocess.Popen.__init__ = popen_init
        for pid in alive():
            with contextlib.suppress(ProcessLookupError):
                os.kill(pid, signal.SIGKILL)
    subprocess.Popen.__init__ = spawn
    t.cleanup(end_all)
    submitted, seen = [], {}
    lock = threading.Lock()
    out, err = io.StringIO(), io.StringIO()
    errors = []

    def submit(tasks):
        try:
            for item in tasks:
                if item[0] == "pause":
                    time.sleep(item[1])
                    continue
                k, arg, delay, cancel = item
                with lock:
                    number = len(submitted)
                    submitted.append(None)
                if k == "unsendable":
                    promise = pool.execute(poolkit.task, log, number, "value", arg=lambda: 1)
                elif k == "unsendable part":
                    promise = pool.execute(poolkit.task, log, number, "value", arg=[b"x" * 100000, threading.Lock()])
                elif k == "kwargs":
                    promise = pool.execute(poolkit.task, log, number, k, delay=delay, a=arg, b=(arg,))
                elif k == "print":
                    promise = pool.execute(poolkit.task, log, number, k, f"<{number}>{said}", delay)
                else:
                    promise = pool.execute(poolkit.task, log, number, k, None if k == "big" else arg, delay)
                seen[number] = []
                promise.when_completed(lambda p, i=number: seen[i].append(p))
                submitted[number] = (k, arg, promise, bool(promise.request_cancel()) if cancel else False)
        except BaseException as e:  # noqa
            errors.append(e)

    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
        submitters = [threading.Thread(target=submit, args=(tasks,), daemon=True) for tasks in threads]
        for s in submitters:
            s.start()
        for s in submitters:
            s.join(LIMIT)
        t.check(not errors, f"submitting a task failed: {errors}", key="submit")
        count = len(submitted)

        closed = threading.Event()

        def close():
            pool.close()
            closed.set()
        if end == "close":
            closer = threading.Thread(target=close, daemon=True)
            closer.start()
        deadline = time.time() + LIMIT
        for i, (k, arg, promise, canceled) in enumerate(submitted):
            if canceled:
                continue
            while not promise.is_completed() and time.time() < deadline:
                time.sleep(0.002)
            t.check(promise.is_completed(), f"task {i} ({k}) of {[(s[0], s[3]) for s in submitted]} never settles (pool of {n}, {inactivity}s, {end})", key="hangs")
            if k in ("value", "kwargs", "odd", "big", "print", "raw", "child", "reader"):
                want = {"kwargs": dict(a=arg, b=(arg,)), "odd": poolkit.Odd(arg), "big": b"x" * 300000, "print": "printed", "raw": "raw", "child": 3, "reader": 0}.get(k, arg)
                try:
                    got = promise.result(False)
                except BaseException as e:  # noqa
                    t.fail(f"task {i} ({k}) of {[(s[0], s[3]) for s in submitted]} failed: {e!r:.600}", key="innocent")
                t.check(got == want and type(got) == type(want), f"task {i} ({k}) returned {str(got)[:200]}, not {str(want)[:200]}", key="result")
            else:
                t.check(promise.is_failed(), f"task {i} ({k}) succeeded", key="failure")
                try:
                    promise.result(False)
                except BaseException as e:  # noqa
                    if k == "raise":
                        t.check(f"the message {i}" in str(e), f"the failure of task {i} does not tell its reason: {e}", key="message")
        if end == "wait":
            more = [pool.execute(poolkit.task, log, count + j, "value", j) for j in range(3)]
            for j, p in enumerate(more):
                while not p.is_completed() and time.time() < deadline:
                    time.sleep(0.002)
                t.check(p.is_completed() and not p.is_failed() and p.result(False) == j, f"a task after {[(s[0], s[3]) for s in submitted]} does not succeed", key="after")
            closer = threading.Thread(target=close, daemon=True)
            closer.start()
        closer.join(LIMIT)
        t.check(closed.is_set(), f"closing the pool never ends after {[(s[0], s[3]) for s in submitted]}", key="close")
        while alive() and time.time() < deadline:
            time.sleep(0.002)
        t.check(not alive(), "a worker survives the shutdown", key="survivor")
        for i, (k, arg, promise, canceled) in enumerate(submitted):
            if k == "print" and not canceled:
                # (the relay may still be busy)
                while (f"<{i}>{said}\n" not in out.getvalue() or f"<{i}>{said}" not in err.getvalue()) and time.time() < deadline:
                    time.sleep(0.002)
                t.check(f"<{i}>{said}\n" in out.getvalue() and f"<{i}>{said}" in err.getvalue(), f"the output of task {i} is lost: {out.getvalue()!r}, {err.getvalue()!r}", key="output")
    runs = open(log).read().split()
    for i in range(count):
        k, arg, promise, canceled = submitted[i]
        want = [0] if canceled or k.startswith("unsendable") else [1]
        t.check(runs.count(str(i)) in want, f"task {i} ({k}, canceled: {canceled}) ran {runs.count(str(i))} times", key="runs")
        t.check(len(seen[i]) == (0 if canceled else 1), f"task {i} ({k}): its observer was called {len(seen[i])} times", key="observed")
    t.check(peak[0] <= n, f"{peak[0]} workers, of at most {n}", key="peak")
    t.nontrivial(count > n or any(s[0] in ("exit", "die", "fatal", "interrupt") for s in submitted))
    t.label(end)


@CHECK.test("side by side", st.tuples(st.integers(1, 4), st.lists(st.sampled_from(["value", "raise", "die", "threads"]), max_size=4), st.integers(0, 3), st.sampled_from([15, 0.05]), st.sampled_from([0, 0.02, 0.15])), quick=60, thorough=800)
def check_side_by_side(case, t):
    """as many tasks as there may be workers are executed at the same time (here: each waits for all the others to start), also after tasks that misbehave, and what they print in several threads is relayed as it was"""
    n, before, extra, inactivity, pause = case
    log, first = str(t.scratch() / "log"), str(t.scratch() / "log")
    for path in (log, first):
        os.close(os.open(path, os.O_CREAT | os.O_WRONLY))
    paths = os.environ.get("PYTHONPATH", "").split(os.pathsep)
    if str(VERIF) not in paths:
        os.environ["PYTHONPATH"] = os.pathsep.join([*filter(None, paths), str(VERIF)])
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        pool = ProcessPoolExecutor(n, max_inactivity_seconds=inactivity)
        t.cleanup(lambda: threading.Thread(target=pool.close, daemon=True).start())
        promises = [pool.execute(poolkit.task, first, i, k, i) for i, k in enumerate(before)]
        deadline = time.time() + LIMIT
        if pause:
            for p in promises:
                while not p.is_completed() and time.time() < deadline:
                    time.sleep(0.002)
            time.sleep(pause)
        # with fewer tasks than workers before them, nothing else keeps a worker busy for long
        met = [pool.execute(poolkit.task, log, i, "meet", n) for i in range(n + extra)]
        for i, p in enumerate(met):
            while not p.is_completed() and time.time() < deadline:
                time.sleep(0.002)
            t.check(p.is_completed() and not p.is_failed(), f"task {i} of {n + extra}, by {n} workers, did not see {n} tasks start (after {before}): {open(log).read().split()}", key="parallel")
        want = [f"[{i}.{j}.{k}:" for i, b in enumerate(before) if b == "threads" for j in range(4) for k in range(4)]
        while out.getvalue().count("]") < len(want) and time.time() < deadline:
            time.sleep(0.005)
        said = out.getvalue()
        for w in want:
            t.check(said.count(w + "z" * 70000 + "]") == 1, f"what a thread of a task printed ({w}...) was not relayed as it was", key="threads")
    t.nontrivial(n > 1)
    t.label(f"{n} workers")
