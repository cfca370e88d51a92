"""C34: the store of publishing credentials. Oracle: a dictionary, over generated histories of several openings with right and wrong passwords and failing writes."""
import base64
import os
import resource
import signal

from hypothesis import strategies as st

from vlib import Check
from pkm_cli.auth.publish_auth_store import PublishAuthenticationStore

CHECK = Check("C34", "histories of opening (right or wrong password), adding, replacing, removing and looking up credentials with generated names and secrets, and of writes that fail; non-trivial = credentials are "
                     "looked up after the store was opened again, or a wrong password or failing write is part of the history", workers=6)

free = st.text(alphabet=st.characters(blacklist_categories=("Cs",)), max_size=10)
names = st.one_of(st.sampled_from(["pypi", "my-repo", "a.b", "with space", "é", 'q"uote', "x = 1", "", "[table]"]), free)
secrets = st.one_of(st.sampled_from(["hunter2-secret", "pa\"ss\\word", "line\nbreak", "tab\there", "", "'''", '"""', "ünï€😀", "#no comment", "a" * 300, "\x00\x1f\x7f", "\r\n"]), free)
args_ = st.dictionaries(st.one_of(st.sampled_from(["username", "password", "token", "a.b", "x y"]), names), secrets, min_size=0, max_size=3)
passwords = ["correct horse", "pässwörd", "x"]
step = st.one_of(
    st.tuples(st.just("add"), names, args_), st.tuples(st.just("add"), names, args_), st.tuples(st.just("add again"), st.integers(0, 5), args_), st.tuples(st.just("rm"), st.integers(0, 5)), st.tuples(st.just("rm other"), names),
    st.tuples(st.just("reopen"), st.booleans()), st.tuples(st.just("wrong"), st.sampled_from(["then same", "then new", "then add"])), st.tuples(st.just("fail"), names, args_), st.tuples(st.just("lookup"), names))


def contains(data, secret):
    raw = secret.encode()
    if len(raw) < 6:
        return False
    decoded = base64.urlsafe_b64decode(data + b"=" * (-len(data) % 4))
    return any(raw in d or base64.b64encode(raw)[:-4] in d for d in (data, decoded))


@CHECK.test("histories", st.tuples(st.sampled_from(passwords), st.lists(step, min_size=1, max_size=8)), quick=500, thorough=20000)
def histories(case, t):
    password, steps = case
    d = t.scratch()
    path = d / "etc" / "store.enc"
    wrong = [p for p in passwords if p != password] + [password + " ", password.upper()]
    store = PublishAuthenticationStore(path)
    t.check(not store.is_unlocked() and not store.is_configuration_exists(), "a store that was never used is neither unlocked nor existing", key="new store")
    store.unlock(password)
    model = {}
    reopened = failing = False

    def same(s, what):
        for n in [*model, "never stored"]:
            t.eq(s.auth_args_for(n), model.get(n), f"the credentials of {n!r} {what}", key="other credentials")

    def fresh(what):
        s = PublishAuthenticationStore(path)
        t.eq(s.is_configuration_exists(), path.exists(), "the existence of the store", key="new store")
        s.unlock(password)
        same(s, what)
        return s

    for s in steps:
        op = s[0]
        pick = sorted(model)[s[1] % len(model)] if op in ("add again", "rm") and model else None
        if op in ("add", "add again"):
            name = pick if op == "add again" else s[1]
            if name is None:
                continue
            store.add_auth_args(name, dict(s[2]))
            model[name] = dict(s[2])
        elif op == "rm":
            if pick is not None:
                store.rm_auth_args(pick)
                del model[pick]
        elif op == "rm other":
            if s[1] in model:
                continue
            before = path.read_bytes() if path.exists() else None
            try:
                store.rm_auth_args(s[1])
            except KeyError:
                pass
            t.check(before is None or path.exists(), "the store is gone", key="store lost")
        elif op == "reopen":
            if not path.exists():
                continue
            reopened = reopened or bool(model)
            store = fresh("after opening the store again")
            if s[1]:
                store.unlock(password)  # a store may be unlocked more than once
        elif op == "wrong":
            if not path.exists():
                continue
            failing = True
            before = path.read_bytes()
            other = PublishAuthenticationStore(path)
            for w in wrong:
                try:
                    other.unlock(w)
                except IOError:
                    pass
                else:
                    t.fail(f"the wrong password {w!r} (instead of {password!r}) is accepted", key="wrong password accepted")
                t.check(not other.is_unlocked(), "the store counts as unlocked after a wrong password", key="unlocked by wrong password")
            if s[1] == "then add":  # the store asks for the password again; nobody can answer, so nothing can be added
                from pkm_cli.display.display import Display
                old = Display.__dict__["ask_password"] if "ask_password" in Display.__dict__ else None
                answers = [wrong[0]]
                instance_old = Display.ask_password
                Display.ask_password = lambda *_: answers[0]
                try:
                    other.add_auth_args("intruder", {"a": "b"})
                except Exception:  # noqa
                    pass
                finally:
                    Display.ask_password = instance_old
                    if old is None and "ask_password" in getattr(Display, "__dict__", {}):
                        del Display.ask_password
            t.eq(path.read_bytes(), before, "the file after a wrong password", key="wrong password damages")
            if s[1] == "then same":
                other.unlock(password)
                same(other, "after a wrong and then the right password")
                store = other
            else:
                store = fresh("after a wrong password")
        elif op == "fail":
            failing = True
            if not path.exists():
                continue
            before = path.read_bytes()
            limits = resource.getrlimit(resource.RLIMIT_FSIZE)
            old = signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_FSIZE, (40, limits[1]))
            try:
                store.add_auth_args(s[1], dict(s[2]))
            except OSError:
                pass
            else:
                t.fail("a write that did not fit was not reported", key="failed write unnoticed")
            finally:
                resource.setrlimit(resource.RLIMIT_FSIZE, limits)
                signal.signal(signal.SIGXFSZ, old)
            t.eq(path.read_bytes(), before, "the file after a failed write", key="failed write damages")
            t.eq(os.listdir(path.parent), [path.name], "the files beside the store after a failed write", key="failed write leaves files")
            store = fresh("after a failed write")
        else:
            t.eq(store.auth_args_for(s[1]), model.get(s[1]), f"the credentials of {s[1]!r}", key="other credentials")
        same(store, f"after {op}")
        if path.exists():
            data = path.read_bytes()
            for secret in [password, *(v for a in model.values() for v in a.values())]:
                t.check(not contains(data, secret), lambda: f"{secret!r} can be read from the file", key="secret readable")
    if path.exists():
        fresh("at the end")
    t.nontrivial(reopened or failing)
