"""What the worker processes of C50 run (a module of its own, as they import it by name)."""
import os
import subprocess
import sys
import time


class Odd:
    """a value with an identity that survives pickling"""

    def __init__(self, x):
        self.x = x

    def __eq__(self, other):
        return isinstance(other, Odd) and other.x == self.x

    def __repr__(self):
        return f"Odd({self.x!r})"


class Sticky:
    """pickles, but cannot be read back"""

    def __reduce__(self):
        return _explode, ()


def _explode():
    raise RuntimeError("unreadable")


class Fatal(BaseException):
    pass


class Mute(Exception):
    def __str__(self):
        raise ValueError("no text")

    __repr__ = __str__


def task(log, number, kind, arg=None, delay=0.0, **kwargs):
    fd = os.open(log, os.O_WRONLY | os.O_APPEND | os.O_CREAT)
    os.write(fd, f"{number}\n".encode())
    os.close(fd)
    if delay:
        time.sleep(delay)
    if kind == "value":
        return arg
    if kind == "kwargs":
        return kwargs
    if kind == "odd":
        return Odd(arg)
    if kind == "big":
        return b"x" * (arg or 300000)
    if kind == "raise":
        raise ValueError(f"the message {number}")
    if kind == "mute":
        raise Mute()
    if kind == "fatal":
        raise Fatal("fatal")
    if kind == "interrupt":
        raise KeyboardInterrupt()
    if kind == "generator":
        return (i for i in range(3))
    if kind == "lambda":
        return lambda: 1
    if kind == "sticky":
        return Sticky()
    if kind == "print":
        print(arg)
        print(arg, file=sys.stderr, end="")
        sys.stdout.write("")
        sys.stdout.flush()
        return "printed"
    if kind == "threads":
        import threading
        import time as time_
        threads = [threading.Thread(target=lambda j=j: [(print(f"[{number}.{j}.{i}:" + "z" * 70000 + "]"), time_.sleep(0)) for i in range(4)]) for j in range(4)]
        [x.start() for x in threads]
        [x.join() for x in threads]
        return "threads"
    if kind == "meet":
        end = time.time() + 20
        while len(set(open(log).read().split())) < arg:
            if time.time() > end:
                raise TimeoutError("the others did not start")
            time.sleep(0.005)
        return "met"
    if kind == "raw":
        os.write(1, b"raw out\n")
        os.write(2, b"raw err\n")
        return "raw"
    if kind == "child":
        return subprocess.run([sys.executable, "-S", "-c", "import sys; print('x'); print('y', file=sys.stderr); sys.exit(3)"]).returncode
    if kind == "reader":
        return subprocess.run([sys.executable, "-S", "-c", "import sys; print(repr(sys.stdin.read(1)))"], stdout=subprocess.PIPE).returncode
    if kind == "exit":
        sys.exit(arg)
    if kind == "die":
        os._exit(7)
    raise AssertionError(kind)
