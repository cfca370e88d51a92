"""C30: promises and cached attributes. Oracle: an outcome model over generated histories, and over generated interleavings at line granularity of threads that
complete, observe and await the same promises (a cooperative scheduler replaces the locks)."""
import time
import warnings
from concurrent.futures import ThreadPoolExecutor
from dataclasses import dataclass

from hypothesis import strategies as st

from sched import Scheduler
from vlib import Check
import pkm.utils.promises as promises
import pkm.utils.properties as properties
from pkm.utils.promises import Deferred, Promise, await_all_promises, await_all_promises_or_cancel
from pkm.utils.properties import cached_property, clear_cached_properties

CHECK = Check("C30", "histories of completions, failures, observers, waiters and chains, sequential and interleaved line by line between 2-4 threads; cached attributes read, set, cleared and "
                     "computed by several threads; non-trivial = an observer was added before and another after the completion, or two threads interfere", workers=6)


class Falsy(Exception):
    def __len__(self):
        return 0


class Base(BaseException):
    pass


ERRORS = [ValueError("v"), Falsy("f"), Base("b"), KeyError("k"), StopIteration(3)]
outcome = st.one_of(st.tuples(st.just("complete"), st.sampled_from([None, 0, 1, "x", "", False])), st.tuples(st.just("fail"), st.integers(0, len(ERRORS) - 1)))
which = st.integers(0, 1)
op = st.one_of(st.tuples(st.just("settle"), which, outcome), st.tuples(st.just("observe"), which, st.sampled_from(["value", "raise", "nested", "none"])), st.tuples(st.just("observe"), which, st.just("value")),
               st.tuples(st.just("wait"), which), st.tuples(st.just("poll"), which))


def same(a, b):
    return a is b or (type(a) == type(b) and not isinstance(a, BaseException) and a == b)


class World:
    """the promises of a case and everything that was seen of them"""

    def __init__(self, t, n=2):
        self.t = t
        self.deferred = [Deferred() for _ in range(n)]
        self.won = [None] * n
        self.observed = []  # (promise, [what each call saw], chained promise, kind)
        self.waited = []

    def outcome_of(self, p):
        if not p.is_completed():
            return None
        try:
            return "value", p.result(False)
        except BaseException as e:  # noqa
            return "error", e

    def check_flags(self, p, o):
        self.t.eq(p.is_completed(), o is not None, "is_completed", key="flags")
        self.t.eq(bool(p.is_failed()), o is not None and o[0] == "error", f"is_failed of a promise with the outcome {o}", key="flags")
        self.t.eq(bool(p.is_succeeded()), o is not None and o[0] == "value", f"is_succeeded of a promise with the outcome {o}", key="flags")

    def settle(self, i, o):
        kind, v = o
        o = ("value", v) if kind == "complete" else ("error", ERRORS[v])
        try:
            if kind == "complete":
                self.deferred[i].complete(v)
            else:
                self.deferred[i].fail(ERRORS[v])
        except ValueError as e:
            self.t.check("already" in str(e), f"settling raised {e!r}", key="raised")
            return False
        self.t.check(self.won[i] is None, f"the promise was settled twice, by {self.won[i]} and {o}", key="twice")
        self.won[i] = o
        return True

    def observe(self, i, kind):
        calls = []
        promise = self.deferred[i].promise()

        def callback(p):
            calls.append((p, self.outcome_of(p)))
            if kind == "raise":
                raise KeyError("callback")
            if kind == "nested":
                self.observe(i, "value")
                return "nested"
            return None if kind == "none" else ("seen", len(self.observed))

        entry = [i, calls, None, kind]
        self.observed.append(entry)
        entry[2] = promise.when_completed(callback)
        again = []
        entry.append(again)
        entry[2].when_completed(lambda p: again.append(self.outcome_of(p)))

    def wait(self, i):
        p = self.deferred[i].promise()
        try:
            got = "value", p.result()
        except BaseException as e:  # noqa
            if type(e).__name__ == "Abort":
                raise
            got = "error", e
        self.waited.append((i, got))

    def poll(self, i):
        p = self.deferred[i].promise()
        if p.is_completed():
            self.waited.append((i, self.outcome_of(p)))
        elif self.won[i] is None:
            return
        self.t.check(not (p.is_failed() and p.is_succeeded()), "a promise is failed and succeeded", key="flags")

    def verify(self, t):
        def same_outcome(a, b):
            return a is not None and b is not None and a[0] == b[0] and same(a[1], b[1])

        for i, d in enumerate(self.deferred):
            self.check_flags(d.promise(), self.won[i])
            if self.won[i]:
                t.check(same_outcome(self.outcome_of(d.promise()), self.won[i]), f"the outcome is {self.outcome_of(d.promise())} instead of {self.won[i]}", key="outcome")
        for i, got in self.waited:
            t.check(same_outcome(got, self.won[i]), f"a waiter got {got} instead of {self.won[i]}", key="waiter")
        for i, calls, chained, kind, again in self.observed:
            t.eq(len(calls), 1 if self.won[i] else 0, f"calls of an observer of a promise with the outcome {self.won[i]}", key="observer")
            if not self.won[i]:
                self.check_flags(chained, None)
                continue
            t.check(calls[0][0] is self.deferred[i].promise() and same_outcome(calls[0][1], self.won[i]), f"an observer saw {calls[0][1]} instead of {self.won[i]}", key="observer")
            o = self.outcome_of(chained)
            self.check_flags(chained, o)
            t.check(o is not None and o[0] == ("error" if kind == "raise" else "value"), f"the promise of an observer that {kind}s has the outcome {o}", key="chained")
            if kind in ("nested", "none"):
                t.eq(o[1], "nested" if kind == "nested" else None, "the value of the chained promise", key="chained")
            t.check(len(again) == 1 and same_outcome(again[0], o), f"an observer of the chained promise saw {again} instead of {o}", key="chained")


@CHECK.test("history", st.tuples(st.lists(op, min_size=2, max_size=10), st.lists(st.tuples(st.just("settle"), which, outcome), max_size=2)), quick=2000, thorough=30000)
def check_history(case, t):
    ops, last = case
    w = World(t)
    early = late = 0
    for o in ops + last:
        if o[0] == "settle":
            t.eq(w.settle(o[1], o[2]), True if w.won[o[1]] is None or w.won[o[1]] else None, "settling") if w.won[o[1]] is None else t.eq(w.settle(o[1], o[2]), False, "settling again", key="twice")
        elif o[0] == "observe":
            early, late = early + (w.won[o[1]] is None), late + (w.won[o[1]] is not None)
            w.observe(o[1], o[2])
        elif o[0] == "poll":
            w.poll(o[1])
        elif w.won[o[1]]:
            w.wait(o[1])
        else:
            try:
                w.deferred[o[1]].promise().result(False)
            except ValueError:
                pass
            else:
                t.fail("a promise that is not completed has a result", key="early")
    t.nontrivial(early > 0 and late > 0)
    w.verify(t)


@CHECK.test("threads", st.tuples(st.lists(st.lists(op, min_size=1, max_size=4), min_size=2, max_size=3), st.tuples(outcome, outcome), st.lists(st.integers(0, 3), min_size=10, max_size=200)), quick=1500, thorough=30000)
def check_threads(case, t):
    plans, final, choices = case
    s = Scheduler(choices, ["pkm/utils/promises.py"])
    old = promises.Lock, promises.Condition
    promises.Lock, promises.Condition = s.Lock, s.Condition
    t.cleanup(lambda: (setattr(promises, "Lock", old[0]), setattr(promises, "Condition", old[1])))
    w = World(t)

    def runner(plan):
        def run():
            for o in plan:
                getattr(w, o[0])(*o[1:])
        return run

    for plan in plans:
        s.spawn(runner(plan))
    s.spawn(lambda: [w.settle(i, o) for i, o in enumerate(final)])
    s.run()
    for e in s.failures:
        raise e
    t.check(not s.deadlock, "the threads wait for each other forever", key="deadlock")
    t.nontrivial(len({o[1] for p in plans for o in p}) < sum(map(len, plans)))
    w.verify(t)


@CHECK.test("executors", st.tuples(st.lists(st.tuples(outcome, st.sampled_from([0, 0, 0.002])), min_size=1, max_size=5), st.sampled_from([None, 1, 3]), st.sampled_from(["each", "all", "ignore", "cancel", "mapper"])), quick=300, thorough=3000)
def check_executors(case, t):
    plan, threads, how = case
    # an exception that is false is lost by the executor of the standard library itself
    plan = [(("fail", 0) if o == ("fail", 1) else o, d) for o, d in plan]
    ran = []

    def task(i, o, delay):
        time.sleep(delay)
        ran.append(i)
        if o[0] == "fail":
            raise ERRORS[o[1]]
        return o[1]

    pool = threads and ThreadPoolExecutor(threads)
    if pool:
        t.cleanup(lambda: pool.shutdown(wait=True))
    if how == "mapper" and pool:
        ps = [Promise.wrap_future(pool.submit(task, i, o, d), lambda fu: ("mapped", fu.result())) for i, (o, d) in enumerate(plan)]
    else:
        ps = [Promise.execute(pool or None, task, i, o, delay=d) for i, (o, d) in enumerate(plan)]
    seen = []
    chained = [p.when_completed(lambda q: seen.append(q) or "chained") for p in ps]
    errors = [ERRORS[o[1]] for o, _ in plan if o[0] == "fail"]
    t.nontrivial(len(plan) > 1)
    raised = None
    if how in ("all", "ignore", "cancel"):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                if how == "cancel":
                    await_all_promises_or_cancel(ps)
                else:
                    await_all_promises(ps, ignore_error=how == "ignore")
            except BaseException as e:  # noqa
                raised = e
        if how == "ignore":
            t.eq(raised, None, "raised while the errors are ignored", key="raised")
        else:
            t.check(raised is (errors[0] if errors else None), f"awaiting raised {raised!r}, expected {errors[:1]}", key="raised")
        if how == "ignore" or raised is None or (how == "cancel" and isinstance(raised, Exception)):
            t.check(all(p.is_completed() for p in ps), "an awaited promise is not completed", key="awaited")
        if how == "cancel" and isinstance(raised, Exception):
            return
    for i, (p, (o, _)) in enumerate(zip(ps, plan)):
        try:
            got = "value", p.result()
        except BaseException as e:  # noqa
            got = "error", e
        v = ("mapped", o[1]) if how == "mapper" and pool else o[1]
        t.check(got[0] == "value" and got[1] == v if o[0] == "complete" else got[1] is ERRORS[o[1]], f"task {i} gave {got} instead of {o}", key="result")
        t.eq(chained[i].result(), "chained", "the chained promise", key="chained")
    t.eq(sorted(ran), list(range(len(plan))), "the tasks that ran", key="ran")
    t.eq(sorted(ps.index(p) for p in seen), list(range(len(ps))), "the observers that were called", key="observer")


cop = st.tuples(st.sampled_from(["get", "get", "get", "delete", "clear", "set", "fail"]), st.integers(0, 1), st.sampled_from(["x", "y", "z"]))


def cached_class(kind, log, failing):
    class Plain:
        def __init__(self, n):
            self.n = n

        @cached_property
        def x(self):
            log.append((self.n, "x"))
            if failing.pop((self.n, "x"), None):
                raise KeyError("x")
            return [self.n, len(log)]

        @cached_property
        def y(self):
            log.append((self.n, "y"))
            if failing.pop((self.n, "y"), None):
                raise AttributeError("y")
            return None

        @cached_property
        def z(self):
            x = self.x
            log.append((self.n, "z"))
            if failing.pop((self.n, "z"), None):
                raise KeyError("z")
            return "z", x

        def __eq__(self, other):
            return True

        __hash__ = None

    if kind == "sub":
        class Sub(Plain):
            pass
        return Sub
    if kind == "frozen":
        frozen = dataclass(frozen=True)(type("Frozen", (), {"__annotations__": {"n": int}, **{k: Plain.__dict__[k] for k in "xyz"}}))
        return frozen
    return Plain


@CHECK.test("cached", st.tuples(st.sampled_from(["plain", "plain", "sub", "frozen"]), st.lists(cop, min_size=2, max_size=20)), quick=1000, thorough=10000)
def check_cached(case, t):
    kind, ops = case
    log, failing = [], {}
    cls = cached_class(kind, log, failing)
    objs = [cls(0), cls(1)]
    cache = [{}, {}]
    t.nontrivial(len({o for o in ops if o[0] == "get"}) < len([o for o in ops if o[0] == "get"]))

    def get(i, a, want):
        """the model: the value, or the error, and the computations"""
        if a in cache[i]:
            return
        if a == "z":
            if get(i, "x", want):
                return True
        want.append((i, a))
        if expected_failing.pop((i, a), None):
            return True
        cache[i][a] = ...

    for what, i, a in ops:
        if kind == "frozen" and what in ("delete", "clear", "set"):
            continue
        if what == "get":
            want, expected_failing = [], dict(failing)
            fails = get(i, a, want)
            n = len(log)
            try:
                v = getattr(objs[i], a)
            except (KeyError, AttributeError):
                t.check(fails, f"{a} failed", key="failed")
                v = None
            else:
                t.check(not fails, f"{a} did not fail", key="failed")
                if cache[i][a] is ...:
                    cache[i][a] = v
                t.check(v is cache[i][a], f"{a} is {v} instead of {cache[i][a]}", key="value")
            t.eq(log[n:], want, f"computations of reading {a}", key="computed")
            for k in ("x", "y", "z"):
                if cache[i].get(k) is ...:
                    cache[i][k] = getattr(objs[i], k)
        elif what == "delete":
            delattr(objs[i], a)
            cache[i].pop(a, None)
        elif what == "clear":
            clear_cached_properties(objs[i])
            cache[i].clear()
        elif what == "set":
            v = ["set"]
            setattr(objs[i], a, v)
            cache[i][a] = v
        elif what == "fail":
            failing[i, a] = True


@CHECK.test("cached threads", st.tuples(st.lists(st.lists(st.tuples(st.integers(0, 1), st.sampled_from(["x", "y", "z"])), min_size=1, max_size=4), min_size=2, max_size=4), st.booleans(), st.lists(st.integers(0, 3), min_size=10, max_size=150)), quick=800, thorough=15000)
def check_cached_threads(case, t):
    plans, fail, choices = case
    s = Scheduler(choices, ["pkm/utils/properties.py", "checks/c30.py"])
    old = properties.RLock
    properties.RLock = s.RLock
    t.cleanup(lambda: setattr(properties, "RLock", old))
    log, failing = [], {(0, "x"): True} if fail else {}
    cls = cached_class("plain", log, failing)
    objs = [cls(0), cls(1)]
    got, failed = [], []

    def runner(plan):
        def run():
            for i, a in plan:
                try:
                    got.append((i, a, getattr(objs[i], a)))
                except KeyError:
                    failed.append((i, a))
        return run

    for plan in plans:
        s.spawn(runner(plan))
    s.run()
    for e in s.failures:
        raise e
    t.check(not s.deadlock, "the threads wait for each other forever", key="deadlock")
    t.nontrivial(len({o for p in plans for o in p}) < sum(map(len, plans)))
    for i in (0, 1):
        for a in ("x", "y", "z"):
            values = [v for j, b, v in got if (j, b) == (i, a)]
            t.check(all(v is values[0] for v in values), f"two values of the same attribute: {values}", key="value")
            computed = bool(values) or a == "x" and any((j, b) == (i, "z") for j, b, v in got)
            t.eq(log.count((i, a)), computed + (bool(failed) and (i, a) == (0, "x")), f"computations of {a}", key="computed")
