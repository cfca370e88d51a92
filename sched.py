"""Runs threads one at a time, switching between them at every line of the chosen source files and at every lock operation, in an order given by a list of numbers.
`Lock`, `RLock` and `Condition` replace those of the code under test, so that blocked threads are known and every run is repeatable."""
import sys
import threading


class Deadlock(Exception):
    pass


class Abort(BaseException):
    pass


class Scheduler:
    def __init__(self, choices, files):
        self.choices, self.files = list(choices), tuple(files)
        self.at = self.steps = 0
        self.threads, self.gates, self.blocked, self.done = [], [], {}, set()
        self.current = None
        self.deadlock = False
        self.failures = []
        self.ids = {}

    def me(self):
        return self.ids.get(threading.get_ident())

    def spawn(self, f):
        i = len(self.threads)
        self.gates.append(threading.Semaphore(0))

        def run():
            self.ids[threading.get_ident()] = i
            self.gates[i].acquire()
            sys.settrace(self.trace)
            try:
                f()
            except Abort:
                pass
            except BaseException as e:  # noqa
                self.failures.append(e)
            finally:
                sys.settrace(None)
                self.done.add(i)
                self.next(None)

        self.threads.append(threading.Thread(target=run, daemon=True))

    def trace(self, frame, event, arg):
        if not frame.f_code.co_filename.endswith(self.files):
            return None

        def local(frame, event, arg):
            if event == "line":
                self.switch()
            return local

        return local

    def runnable(self):
        return [i for i in range(len(self.threads)) if i not in self.done and (i not in self.blocked or self.blocked[i]())]

    def next(self, me):
        """pass the control to a runnable thread; `me` is the calling one, None if it has ended"""
        self.steps += 1
        r = self.runnable()
        if not r or self.steps > 20000:
            if len(self.done) < len(self.threads):
                self.deadlock = True
                for i, g in enumerate(self.gates):
                    if i not in self.done and i != me:
                        g.release()
                if me is not None:
                    raise Abort
            self.finished.release()
            return
        if me in r and self.at >= len(self.choices):
            n = me  # no choices are left: go on as long as possible
        else:
            n = r[(self.choices[self.at] if self.at < len(self.choices) else 0) % len(r)]
            self.at += 1
        if n == me:
            return
        self.gates[n].release()
        if me is not None:
            self.gates[me].acquire()
            if self.deadlock:
                raise Abort

    def switch(self):
        if (me := self.me()) is not None and not self.deadlock:
            self.next(me)

    def block(self, until):
        """wait until the condition holds"""
        me = self.me()
        if me is None:
            if not until():
                raise Deadlock("the main thread would wait forever")
            return
        while not until():
            if self.deadlock:
                raise Abort
            self.blocked[me] = until
            try:
                self.next(me)
            finally:
                self.blocked.pop(me, None)

    def run(self):
        self.finished = threading.Semaphore(0)
        for th in self.threads:
            th.start()
        self.next(None)
        self.finished.acquire()
        for th in self.threads:
            th.join(20)
            if th.is_alive():
                raise RuntimeError("a controlled thread did not end")

    # replacements of the primitives of `threading`

    def RLock(self):
        return _Lock(self, True)

    def Lock(self):
        return _Lock(self, False)

    def Condition(self, lock=None):
        return _Condition(self, lock or self.RLock())


class _Lock:
    def __init__(self, sched, reentrant):
        self.sched, self.reentrant, self.owner, self.count = sched, reentrant, None, 0

    def _me(self):
        return threading.get_ident()

    def acquire(self, *_):
        self.sched.switch()
        if not (self.reentrant and self.owner == self._me()):
            self.sched.block(lambda: self.owner is None)
        self.owner, self.count = self._me(), self.count + 1
        return True

    def release(self):
        if self.owner != self._me():
            raise RuntimeError("release of a lock that is not held")
        self.count -= 1
        if not self.count:
            self.owner = None
        self.sched.switch()

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *_):
        if self.sched.deadlock:
            return
        self.release()


class _Condition:
    def __init__(self, sched, lock):
        self.sched, self.lock, self.waiters = sched, lock, []
        self.acquire, self.release = lock.acquire, lock.release

    def __enter__(self):
        self.lock.acquire()
        return self

    def __exit__(self, *a):
        self.lock.__exit__(*a)

    def wait(self, timeout=None):
        token = [False]
        self.waiters.append(token)
        n, self.lock.count, self.lock.owner = self.lock.count, 0, None
        self.sched.block(lambda: token[0])
        self.sched.block(lambda: self.lock.owner is None)
        self.lock.owner, self.lock.count = threading.get_ident(), n
        return True

    def notify(self, n=1):
        for token in self.waiters[:n]:
            token[0] = True
        del self.waiters[:n]

    def notify_all(self):
        self.notify(len(self.waiters))
