"""Calls with and without lock_calls, from several threads."""
import ctypes as ct
import os
import threading
import time

from oracles.lib import Raises
from oracles.fake import library, parser
from pyclibrary import CLibrary

TEXT = """
int f(int a, int *b);
double g(void);
void h(int *x, double y);
int nest(int a);
"""


class Boom(Exception):
    pass


class Base(BaseException):
    pass


def free(lib, calls):
    """Can another thread call the library right now?"""
    done = threading.Event()
    out = []

    def go():
        try:
            calls()
            out.append("ok")
        except BaseException as e:
            out.append(repr(e))
        done.set()

    t = threading.Thread(target=go, daemon=True)
    t.start()
    return done.wait(5) and out == ["ok"]


class Monitor:
    def __init__(self, dll, hold=0.004):
        self.dll, self.inside, self.max, self.hold = dll, 0, 0, hold
        self.mu = threading.Lock()

    def behave(self, exc=None):
        def f(*a):
            with self.mu:
                self.inside += 1
                self.max = max(self.max, self.inside)
            time.sleep(self.hold)
            with self.mu:
                self.inside -= 1
            if exc:
                raise exc
            return 1

        return f


def run(o):
    for lock in (True, 1, "yes"):
        overlap(o, lock)
        errors(o, lock)
    for lock in (False, None, 0):
        free_running(o, lock)
    different(o)
    reentrant(o)
    held(o)


def names(lib, dll, mon, fail):
    for k, nm in enumerate(("f", "g", "h")):
        getattr(lib, nm)
        dll.funcs[nm].behave = mon.behave(Boom("x") if fail and k == 1 else None)
    return [lambda: lib.f(1), lambda: lib.g(), lambda: lib.h(y=2.0), lambda: lib.f(a=2, b=None)]


def overlap(o, lock):
    for fail in (False, True):
        for rep in range(o.scale(2, 10)):

            def go():
                lib, dll = library(o, TEXT, lock_calls=lock)
                mon = Monitor(dll)
                cs = names(lib, dll, mon, fail)
                start = threading.Barrier(6)

                def work(k):
                    start.wait()
                    for j in range(4):
                        try:
                            cs[(j + k) % len(cs)]()
                        except Boom:
                            pass

                ts = [threading.Thread(target=work, args=(k,), daemon=True) for k in range(6)]
                for t in ts:
                    t.start()
                for t in ts:
                    t.join(10)
                if any(t.is_alive() for t in ts):
                    return "blocked"
                return mon.max

            o.eq("six threads, lock_calls=%r, failing calls %s (%d)" % (lock, fail, rep), go, 1)


def errors(o, lock):
    """Whatever happens in a call, another thread can call afterwards."""
    kinds = [
        ("the C function raises", lambda lib, dll: setb(dll, "f", Boom("x")), lambda lib: lib.f(1), Boom),
        ("the C function raises a BaseException", lambda lib, dll: setb(dll, "f", Base("x")), lambda lib: lib.f(1), Base),
        ("ctypes refuses", lambda lib, dll: setb(dll, "f", ct.ArgumentError("x")), lambda lib: lib.f(1), ct.ArgumentError),
        ("missing argument", None, lambda lib: lib.f(), TypeError),
        ("None for int", None, lambda lib: lib.f(None), TypeError),
        ("unknown keyword", None, lambda lib: lib.f(1, zz=3), TypeError),
        ("normal", None, lambda lib: lib.f(1), None),
    ]
    for nm, prep, call, exc in kinds:

        def go():
            lib, dll = library(o, TEXT, lock_calls=lock)
            lib.f, lib.g
            if prep:
                prep(lib, dll)
            for k in range(3):
                try:
                    call(lib)
                    if exc:
                        return "no exception"
                except BaseException as e:
                    if exc is None or not isinstance(e, exc):
                        return repr(e)
            return free(lib, lambda: lib.g())

        o.eq("lock_calls=%r: %s, then a call from another thread" % (lock, nm), go, True)


def setb(dll, name, exc):
    def f(*a):
        raise exc

    dll.funcs[name].behave = f


def free_running(o, lock):
    def go():
        lib, dll = library(o, TEXT, lock_calls=lock)
        b = threading.Barrier(3)
        lib.f
        out = []

        def inside(*a):
            b.wait(5)
            return 1

        dll.funcs["f"].behave = inside

        def work():
            try:
                lib.f(1)
                out.append(1)
            except BaseException as e:
                out.append(repr(e))

        ts = [threading.Thread(target=work, daemon=True) for _ in range(3)]
        for t in ts:
            t.start()
        for t in ts:
            t.join(10)
        return out

    o.eq("lock_calls=%r: three calls at the same time" % (lock,), go, [1, 1, 1])


def different(o):
    def go():
        la, da = library(o, TEXT, lock_calls=True)
        lb, db = library(o, TEXT, lock_calls=True)
        la.f, lb.f
        b = threading.Barrier(2)
        out = []

        def inside(*a):
            b.wait(5)
            return 1

        da.funcs["f"].behave = inside
        db.funcs["f"].behave = inside

        def work(l):
            try:
                l.f(1)
                out.append(1)
            except BaseException as e:
                out.append(repr(e))

        ts = [threading.Thread(target=work, args=(l,), daemon=True) for l in (la, lb)]
        for t in ts:
            t.start()
        for t in ts:
            t.join(10)
        return out

    o.eq("two libraries do not block each other", go, [1, 1])


def reentrant(o):
    """A callback made by the library may call the library: it runs in the
    call, on the same thread."""

    def go():
        lib, dll = library(o, TEXT, lock_calls=True)
        lib.f, lib.nest
        out = []
        dll.funcs["nest"].behave = lambda a: 5
        dll.funcs["f"].behave = lambda *a: lib.nest(1)()
        done = []

        def work():
            done.append(lib.f(1)())

        t = threading.Thread(target=work, daemon=True)
        t.start()
        t.join(5)
        return done, free(lib, lambda: lib.g())

    o.eq("a call made from within a call", go, ([5], True))

    def late():
        """While a callback of one thread has called the library again and
        come back, the outer call is still going on: others have to wait."""
        lib, dll = library(o, TEXT, lock_calls=True)
        lib.f, lib.nest, lib.g
        ev = []
        started = threading.Event()

        def f(*a):
            lib.nest(1)
            started.set()
            time.sleep(0.15)
            ev.append("f ends")
            return 1

        dll.funcs["nest"].behave = lambda a: 5
        dll.funcs["f"].behave = f
        dll.funcs["g"].behave = lambda: ev.append("g") or 1.0
        t = threading.Thread(target=lambda: lib.f(1), daemon=True)
        t.start()
        started.wait(5)
        u = threading.Thread(target=lambda: lib.g(), daemon=True)
        u.start()
        t.join(5)
        u.join(5)
        return ev

    o.eq("a nested call does not release the lock of the outer one", late, ["f ends", "g"])


ARGS = [
    ("int %s", lambda r: r.choice([0, 1, -5])),
    ("double %s", lambda r: 0.0),
    ("char *%s", lambda r: r.choice([b"", b"abc", None])),
    ("int *%s", lambda r: r.choice([None, ct.pointer(ct.c_int(1)), (ct.c_int * 3)()])),
    ("void *%s", lambda r: r.choice([None, 0, ct.c_void_p(5)])),
    ("int (*%s)(int)", lambda r: r.choice([ct.CFUNCTYPE(ct.c_int, ct.c_int)(lambda x: x), lambda x: x, print])),
    ("struct sq *%s", lambda r: None),
    ("wchar_t *%s", lambda r: "abc"),
]


def held(o):
    """Whatever is passed and returned, the lock is held during the call and
    free afterwards."""
    rng = o.rng
    for rnd in range(o.scale(8, 60)):
        text = "struct sq { int a; };\nint other(void);\n"
        funs = []
        for j in range(10):
            n = rng.choice([0, 1, 1, 2, 3, 9])
            a = [rng.choice(ARGS) for _ in range(n)]
            ret = rng.choice(["int", "void", "double", "char *", "int *", "void *"])
            funs.append((a, ret))
            text += "%s fn%d(%s);\n" % (ret, j, ", ".join(x[0] % ("p%d" % i) for i, x in enumerate(a)) or rng.choice(["", "void"]))
        for lock in (True, False):
            lib, dll = library(o, text, lock_calls=lock)
            lib.other
            for j, (a, ret) in enumerate(funs):
                w = getattr(lib, "fn%d" % j)
                vals = [x[1](rng) for x in a]
                k = rng.randint(0, len(vals))
                omit = [i for i in range(k, len(vals)) if a[i][0] == "int *%s" and rng.random() < 0.5]

                def go():
                    seen = []
                    entered = threading.Event()
                    dll.funcs["other"].behave = lambda: entered.set() or 1
                    hold = []

                    def behave(*args):
                        t = threading.Thread(target=lambda: lib.other(), daemon=True)
                        t.start()
                        seen.append(entered.wait(0.01 if lock else 5))
                        hold.append(t)
                        return rng.choice([0, None, 1])

                    dll.funcs["fn%d" % j].behave = behave
                    w(*vals[:k], **{"p%d" % i: vals[i] for i in range(k, len(vals)) if i not in omit})
                    after = entered.wait(5)
                    for t in hold:
                        t.join(5)
                    return seen, after

                o.eq(
                    "lock_calls=%r: another call during %s fn(%s) with %r" % (lock, ret, ", ".join(x[0] % "" for x in a), [type(v).__name__ for v in vals]),
                    go,
                    ([not lock], True),
                )
