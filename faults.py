"""Injected disk faults: the n-th operation that changes something under a directory fails, whatever function performs it (an audit hook sees them all)."""
import os
import sys
import threading

_WRITE_FLAGS = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND
_EVENTS = {"os.mkdir", "os.rename", "os.remove", "os.rmdir", "os.chmod", "os.link", "os.symlink", "os.truncate", "os.chown", "os.utime"}
_state = {"root": None, "left": None, "hit": None, "seen": 0, "exc": None}
_installed = False
_busy = threading.local()


class InjectedFault(OSError):
    pass


def _under(root, p):
    if isinstance(p, int) or p is None:
        return False
    try:
        p = os.fsdecode(p)
    except TypeError:
        return False
    if not os.path.isabs(p):
        p = os.path.join(os.getcwd(), p)
    return os.path.normpath(p).startswith(root + os.sep) or os.path.normpath(p) == root


def _hook(event, args):
    root = _state["root"]
    if root is None or getattr(_busy, "on", False):
        return
    if event == "open":
        p, mode, flags = args
        if not ((mode and any(c in mode for c in "wax+")) or (flags or 0) & _WRITE_FLAGS):
            return
        paths = [p]
    elif event in _EVENTS:
        paths = args[:2]
    else:
        return
    _busy.on = True
    try:
        if not any(_under(root, p) for p in paths):
            return
        _state["seen"] += 1
        if _state["left"] is None or sys.exc_info()[0] is not None:  # while another failure is handled there is no second one
            return
        _state["left"] -= 1
        if _state["left"] == 0:
            _state["hit"] = (event, str(paths[0]))
            _state["left"] = None
            exc = _state["exc"] or InjectedFault
            if ".pyc." in str(paths[0]):  # the interpreter's own writing of compiled files cleans up after I/O errors only
                exc = InjectedFault
            raise exc(f"injected failure of {event} {paths[0]}")
    finally:
        _busy.on = False


class fault_at:
    """with fault_at(root, n) as f: the n-th change under root fails (n None: none does); f.hit tells what failed, f.seen how many changes there were"""

    def __init__(self, root, n, exc=None):
        self.root, self.n, self.exc = str(root), n, exc

    def __enter__(self):
        global _installed
        if not _installed:
            sys.addaudithook(_hook)
            _installed = True
        _state.update(root=self.root, left=self.n, hit=None, seen=0, exc=self.exc)
        return self

    def __exit__(self, *_):
        self.hit, self.seen = _state["hit"], _state["seen"]
        _state.update(root=None, left=None)
        return False
