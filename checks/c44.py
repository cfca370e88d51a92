"""C44: progress monitoring. Oracle: a scoping model of listeners (the innermost listener of a type is in effect) over generated nested programs."""
from hypothesis import strategies as st

from vlib import Check
from pkm.utils.monitors import Monitor, MonitoredEvent, MonitoredOperation
from pkm.utils.promises import Deferred

CHECK = Check("C44", "nested programs of operations, events, listening scopes (separate callbacks, generators that clean up, swallow, do not yield or listen themselves), errors and operations that end "
                     "asynchronously; non-trivial = a scope ends by an error, or a listener hides another one", workers=4)


class OpA(MonitoredOperation):
    pass


class OpB(MonitoredOperation):
    pass


class EvE(MonitoredEvent):
    pass


class EvF(MonitoredEvent):
    pass


OPS, EVS = {"A": OpA, "B": OpB}, {"E": EvE, "F": EvF}


class Boom(Exception):
    pass


class Hard(BaseException):
    pass


style = st.sampled_from(["parts", "parts", "enter only", "leave only", "with", "with", "with finally", "with swallow", "with no yield", "with plain", "with nested"])
types = st.sampled_from(["A", "B", "E", "F"])


def statements(body):
    return st.one_of(
        st.tuples(st.just("event"), st.sampled_from("EF"), st.sampled_from(["op", "op", "global", "notify"])),
        st.tuples(st.just("op"), st.sampled_from("AB"), body),
        st.tuples(st.just("op"), st.sampled_from("AB"), body),
        st.tuples(st.just("listen"), st.sampled_from(["op", "global", "global"]), types, style, body),
        st.tuples(st.just("listen"), st.sampled_from(["op", "global"]), types, style, body),
        st.tuples(st.just("add"), types, st.sampled_from(["parts", "enter only"])),
        st.tuples(st.just("raise"), st.sampled_from(["Boom", "Hard"])),
        st.tuples(st.just("try"), body),
        st.tuples(st.just("async"), st.sampled_from("AB"), st.sampled_from(["before", "after"]), st.sampled_from([None, 1, "Boom", "Hard"])),
        st.tuples(st.just("enter"), st.sampled_from("AB"), body),
    )


program = st.recursive(st.just([]), lambda b: st.lists(statements(b), min_size=1, max_size=4), max_leaves=12)


@st.composite
def scoped(draw):
    """a program inside of some listening scopes, so that most of its operations and events are heard"""
    body = draw(program)
    for _ in range(draw(st.integers(0, 3))):
        body = draw(st.lists(statements(st.just([])), max_size=1)) + [("listen", "global", draw(types), draw(style), body)] + draw(st.lists(statements(st.just([])), max_size=1))
    return body


class Listener:
    def __init__(self, n, type_, style, log):
        self.n, self.type, self.style, self.log = n, type_, style, log

    def callbacks(self):
        T, log, n, style = {**OPS, **EVS}[self.type], self.log, self.n, self.style
        if self.type in EVS:
            def on_it(e: T):
                log.append((n, "enter", id(e)))

            def leave_it(e: T):
                log.append((n, "leave", id(e)))
            return {"leave_it": leave_it} if style == "leave only" else {"on_it": on_it}

        def enter_it(e: T):
            log.append((n, "enter", id(e)))

        def leave_it(e: T):
            log.append((n, "leave", id(e)))

        def failed_it(e: T, err):
            log.append((n, "failed", id(e), type(err).__name__))

        if style == "parts":
            return {"enter_it": enter_it, "leave_it": leave_it, "failed_it": failed_it, "unrelated": 3}
        if style == "enter only":
            return {"enter_it": enter_it}
        if style == "leave only":
            return {"leave_it": leave_it}

        def with_it(e: T):
            log.append((n, "enter", id(e)))
            try:
                yield
            except BaseException as err:  # noqa
                log.append((n, "failed", id(e), type(err).__name__))
                raise
            log.append((n, "leave", id(e)))

        def with_finally(e: T):
            log.append((n, "enter", id(e)))
            try:
                yield
            finally:
                log.append((n, "leave", id(e)))

        def with_swallow(e: T):
            log.append((n, "enter", id(e)))
            try:
                yield
            except BaseException as err:  # noqa
                log.append((n, "failed", id(e), type(err).__name__))
            else:
                log.append((n, "leave", id(e)))

        def with_no_yield(e: T):
            log.append((n, "enter", id(e)))
            return
            yield

        def with_plain(e: T):
            log.append((n, "enter", id(e)))

        def with_nested(e: T):
            log.append((n, "enter", id(e)))

            def on_event(x: EvE):
                log.append((n, "event", id(x)))

            with e.listen(on_event=on_event):
                yield
        return {"with_it": {"with": with_it, "with finally": with_finally, "with swallow": with_swallow, "with no yield": with_no_yield, "with plain": with_plain, "with nested": with_nested}[style]}

    # what the model expects

    def on_enter(self, x):
        return [] if self.style == "leave only" else [(self.n, "enter", id(x))]

    def on_exit(self, x, err):
        if self.style in ("enter only", "with no yield", "with plain", "with nested"):
            return []
        failed = [(self.n, "failed", id(x), type(err).__name__)] if err is not None else []
        left = [(self.n, "leave", id(x))]
        return {"parts": failed + left, "leave only": left, "with": failed or left, "with finally": left, "with swallow": failed or left}[self.style]


@CHECK.test("programs", scoped().filter(bool), quick=2500, thorough=40000)
def check_programs(case, t):
    log, want = [], []
    keep = []  # so that ids are unique
    effect = {"global": {}}  # monitor -> type -> listener in effect
    counter = [0]
    error_or_hidden = [False]

    def listener(type_, style):
        counter[0] += 1
        return Listener(counter[0], type_, style, log)

    def expect_enter(l, x):
        keep.append(x)
        if l:
            want.extend(l.on_enter(x))

    def run_op(op, body, monitor, manager=None):
        l = effect["global"].get(type(op).__name__[-1])
        mid = id(op)
        expect_enter(l, op)
        effect[mid] = {}
        if l and l.style == "with nested":
            effect[mid]["E"] = Nested(l.n)
        err = None
        try:
            with manager or op:
                run(body, op, mid)
        except (Boom, Hard) as e:
            err = e
            error_or_hidden[0] = True
        if l:
            want.extend(l.on_exit(op, err))
        return err

    class Nested:
        style = "parts"

        def __init__(self, n):
            self.n = n

        def on_enter(self, x):
            return [(self.n, "event", id(x))]

    def run(body, op, mid):
        for s in body:
            kind = s[0]
            if kind == "event":
                e = EVS[s[1]]()
                via = mid if s[2] in ("op", "notify") and op is not None else "global"
                l = effect[via].get(s[1])
                expect_enter(l, e)
                if s[2] == "notify":
                    (op or Monitor).notify(e)
                elif s[2] == "op" and op is not None:
                    e.notify(op)
                else:
                    e.notify()
            elif kind in ("op", "enter"):
                o = OPS[s[1]]()
                if kind == "enter":
                    err = run_op(o, s[2], Monitor, Monitor.enter(o))
                else:
                    err = run_op(o, s[2], Monitor)
                if err is not None:
                    raise err
            elif kind == "listen":
                where, monitor = ("global", Monitor) if s[1] == "global" or op is None else (mid, op)
                l = listener(s[2], s[3])
                old = effect[where].get(s[2])
                error_or_hidden[0] |= old is not None
                effect[where][s[2]] = l
                try:
                    with monitor.listen(**l.callbacks()):
                        run(s[4], op, mid)
                finally:
                    effect[where][s[2]] = old
            elif kind == "add":
                if op is not None:
                    l = listener(s[1], s[2])
                    op.add_listeners(**l.callbacks())
                    effect[mid][s[1]] = l
            elif kind == "raise":
                raise {"Boom": Boom, "Hard": Hard}[s[1]]("raised")
            elif kind == "try":
                try:
                    run(s[1], op, mid)
                except (Boom, Hard):
                    pass
            elif kind == "async":
                o = OPS[s[1]]()
                l = effect["global"].get(s[1])
                d = Deferred()
                out = {"Boom": Boom("a"), "Hard": Hard("h")}.get(s[3], s[3])

                def settle():
                    if isinstance(out, BaseException):
                        d.fail(out)
                    else:
                        d.complete(out)

                expect_enter(l, o)
                if s[2] == "before":
                    settle()
                p = o.with_async(d.promise())
                if s[2] == "after":
                    t.eq(p.is_completed(), False, "the operation is over before its promise", key="async")
                    t.check(log == want, f"before the asynchronous end, the listeners got {log}, expected {want}", key="log")
                    settle()
                err = out if isinstance(out, BaseException) else None
                if l:
                    want.extend(l.on_exit(o, err))
                try:
                    r = p.result(False)
                    t.check(err is None and r == out, f"the promise of the operation gave {r!r} instead of {out!r}", key="result")
                except (Boom, Hard) as e:
                    t.check(e is err, f"the promise of the operation failed with {e!r} instead of {err!r}", key="result")
            t.check(log == want, f"after {kind}, the listeners got {[x[:2] + x[3:] for x in log]}, expected {[x[:2] + x[3:] for x in want]}", key="log")

    final = None
    try:
        run(case, None, "global")
    except (Boom, Hard) as e:
        final = e
    t.check(log == want, f"the listeners got {[x[:2] + x[3:] for x in log]}, expected {[x[:2] + x[3:] for x in want]}", key="log")
    t.check((final is not None) == model_raises(case), f"the program ended with {final!r}", key="passed through")
    t.nontrivial(error_or_hidden[0])
    # nobody listens any more
    n = len(log)
    for T in EVS.values():
        T().notify()
    for T in OPS.values():
        with T():
            pass
    t.eq(len(log), n, "calls of listeners that are out of scope", key="left behind")


def model_raises(body):
    """whether the program ends by an error"""
    for s in body:
        if s[0] == "raise":
            return True
        if s[0] in ("op", "enter") and model_raises(s[2]):
            return True
        if s[0] == "listen" and model_raises(s[4]):
            return True
    return False
