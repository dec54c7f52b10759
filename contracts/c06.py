"""C06: with lock_calls, calls to the library never overlap."""
from contracts.call_setup import *

FUNCTIONS = ["CFunction.__call__", "CLibrary.__init__", "CLibrary._get_function"]
HARNESSES = ["locked_call", "unlocked_call", "one_lock", "wrapper"]
SECS = 500
ASSUMPTIONS = [
    "threading.RLock excludes other threads between acquire and release (trusted)",
    "evaluation of the arguments (ctypes classes, pointers) does not raise beyond the exceptions of the contracts used",
]


def events(E, c):
    ev = E.norm(c.events.d["c"])
    n = E.rope_len(ev)
    if not z3.is_int_value(n):
        E.fail("a definite number of lock operations", "%r" % (ev,))
        raise PathEnd()
    return [E.nth(ev, k) for k in range(n.as_long())]


def locked_call(E):
    c = setup(E, lock=True)
    E.must_reach("called", "failed", "refused")
    sp = [Splat(E.norm(c.args))] if E.norm(c.args) else []
    got = outcome(E, lambda: E.call(c.f, sp, {"**": c.kw}))
    ev = events(E, c)
    what = [e[0] for e in ev]
    held, calls, worst = 0, 0, 0
    for w in what:
        if w == "acquire":
            held += 1
        elif w == "release":
            held -= 1
            E.prove(held >= 0, "only a lock that is held is released")
        elif w == "call":
            calls += 1
            E.prove(held > 0, "the C function is called while the lock is held")
    E.prove(held == 0, "the lock is released when the call is over")
    for w, o in ev:
        if w != "call":
            E.prove(o is c.lock, "the lock is that of the library")
    if calls == 0:
        E.reach("refused")
        E.prove(got[0] == "raise", "a call is made or refused")
    elif got[0] == "raise":
        E.reach("failed")
    else:
        E.reach("called")


def unlocked_call(E):
    c = setup(E, lock=False)
    E.must_reach("called", "failed", "refused")
    sp = [Splat(E.norm(c.args))] if E.norm(c.args) else []
    got = outcome(E, lambda: E.call(c.f, sp, {"**": c.kw}))
    what = [e[0] for e in events(E, c)]
    E.prove("acquire" not in what and "release" not in what, "no lock is used without lock_calls")
    E.reach("refused" if not what else "failed" if got[0] == "raise" else "called")


class NewLock:
    @staticmethod
    def enter(E, o):
        return o

    @staticmethod
    def exit(E, o, exc):
        pass


def one_lock(E):
    """A library opened with lock_calls has a lock of its own, a single one."""
    made = []

    def new(E, a, k):
        s = Stub(E, NewLock)
        E.world.d["locks"] = E.world.d.get("locks", ()) + (s,)
        return s

    E.model(threading.RLock, new)
    parser = SObj(E, CParser, dict(defs=symdict(E, "defs")))
    lock = E.fresh_t("lock", BOOL)
    lv = SV(lock, "bool")
    E.must_reach("locked", "unlocked")
    cls = CTypesCLibrary
    # what the metaclass does is C08
    def build(*_):
        return E.instantiate(cls, [E.fresh_opq("lib"), parser], dict(lock_calls=lv))

    E.models["objinst"] = (None, lambda E, o, c: False)
    got = outcome(E, build)
    if got[0] == "raise":
        return E.fail("a library can be opened", repr(got[1]))
    lib = got[1]
    locks = E.world.d.get("locks", ())
    if E.decide(lock):
        E.reach("locked")
        E.prove(len(locks) == 1, "one lock is made")
        E.prove(E.getattr(lib, "_lock_") is locks[0], "and it is the lock of the library")
        E.prove(locks[0].serial in [c.serial for c in E.cells], "made for this library")
    else:
        E.reach("unlocked")
        E.prove(len(locks) == 0, "no lock is made")
    E.prove(E.py_eq(E.truth(E.getattr(lib, "_lock_calls_")), E.truth(lv)), "the choice is recorded")


def wrapper(E):
    """Function wrappers lock when their library was opened with lock_calls."""
    lv = E.fresh("lock", "bool")
    fname = E.fresh("fname", "str")
    defs = MDict(E, None, (("functions", symdict(E, "functions")),))
    lib = SObj(E, CTypesCLibrary, dict(_lib_=Stub(E, LibObj), _defs_=defs, _lock_calls_=lv))
    E.model(getattr, lambda E, a, k: E.fresh_opq("func"))
    made = []
    E.contract(CFunction, lambda E, a, k: MkF(E, a, k))
    E.must_reach("made")
    got = outcome(E, lambda: E.call(E.wrap(CLibrary._get_function), [lib, fname], {}))
    if got[0] == "return":
        E.reach("made")
        f = E.resolve(got[1])
        E.prove(isinstance(f, Stub) and f.model is FModel, "a wrapper is returned")
        E.prove_eq(f.d["lock_call"], lv, "the wrapper locks exactly when its library does")
        E.prove(f.d["lib"] is lib, "with the lock of that library")


class LibObj:
    pass


class FModel:
    pass


def MkF(E, a, k):
    # (cls, lib, func, sig, name, lock_call)
    names = ["lib", "func", "sig", "name", "lock_call"]
    d = dict(zip(names, a[1:]))
    d.update(k)
    return Stub(E, FModel, lib=d["lib"], lock_call=d["lock_call"])
