"""C08: there is one live proxy per library file, and wrong bitness is refused."""
import os
import subprocess
import sys
import ctypes

from pyvc.sym import *
from pyclibrary import c_library, utils, backends
from pyclibrary.c_library import CLibrary, CLibraryMeta
from pyclibrary.backends.ctypes import CTypesCLibrary
from pyclibrary.backends import ctypes as ctbackend
from pyclibrary.utils import LibraryPath

FUNCTIONS = ["CLibraryMeta.__call__", "backends.identify_library", "backends.get_library_path", "ctypes.identify_library", "ctypes.get_library_path", "LibraryPath.__new__", "LibraryPath.arch", "LibraryPath.is_32bit", "LibraryPath.is_64bit", "LibraryPath.bitness", "get_arch", "check_output"]
HARNESSES = ["by_path", "by_name", "by_object", "architecture", "elf", "pe", "tool"]
ASSUMPTIONS = [
    "os.path.realpath identifies a file: two paths lead to the same file exactly when their real paths are equal (hard links are different files), and it is idempotent",
    "a WeakValueDictionary behaves as a dict of the live proxies",
    "creating an instance (type.__call__) links the library it is given, or raises",
    "`file` describes a library with the words 32-bit and 64-bit",
]


def realpath(E, p):
    r = E.app("realpath", [p], "str")
    E.assume(E.app("realpath", [r], "str").t == r.t)
    return r


def isfile(E, p):
    r = E.app("isfile", [p], "bool")
    E.assume(z3.Implies(r.t, E.lift(p) != z3.StringVal("")))
    return r


class Lib:
    """A loaded library object (a CDLL)."""

    @staticmethod
    def attr(E, o, name):
        return o.data[0][name]

    @staticmethod
    def isinstance(E, o, cls):
        return cls is ctypes.CDLL or cls is object

    @staticmethod
    def truth(E, o):
        return True

    @staticmethod
    def eq(E, a, b):
        return a is b


def world(E):
    w = MDict(E)
    E.model(os.path.realpath, lambda E, a, k: realpath(E, E.resolve(a[0])))
    E.model(os.path.isfile, lambda E, a, k: isfile(E, E.resolve(a[0])))
    live = z3.Function(E.name("live"), SORT["str"], O)
    libs = symdict(E, "libs", val=lambda k: SV(U.opq(live(k)), "obj"))
    E.set_class_attr(CLibraryMeta, "libs", libs)
    made = MList(E)
    proxy = E.fresh_opq("proxy")

    def create(E, cls, a, k):
        made.d["c"] = made.d["c"] + (Item((cls, E.mk_tuple([Item(x) for x in a]), tuple(sorted(k)))),)
        if E.choose(2):
            E.py_raise(OSError, "cannot be linked")
        return proxy

    E.models["typecall"] = (None, create)
    E.set_global(c_library, "CTypesCLibrary", CTypesCLibrary)
    arch = ((), (32,), (64,), (32, 64), "fails")[E.choose(5)]

    def get_arch(E, a, k):
        asked.d["c"] = asked.d["c"] + (Item(E.resolve(a[0])),)
        if arch == "fails":
            E.py_raise(RuntimeError, "no tool")
        return arch

    asked = MList(E)
    E.contract(utils.get_arch, get_arch)
    E.world.d["made"], E.world.d["asked"] = made, asked
    return libs, made, proxy, arch, asked


def finish(E, got, path, first, st, wrong, name):
    libs, made, proxy, arch, asked, before = st
    ms = [E.resolve(s.v) for s in made.d["c"]]
    now = E.getattr(CLibrary, "libs")
    other = E.fresh("other", "str")
    E.assume(other.t != E.lift(path))
    old = MDict(E)
    old.d["c"] = before
    was = E.dict_get(old, path)
    if wrong:
        E.reach("refused")
        E.prove(got[0] == "raise" and issubclass(got[1].cls, OSError), "%s: wrong bitness is refused with OSError" % name)
        E.prove(not ms, "%s: wrong bitness is refused before linking" % name)
        unchanged(E, now, before, "%s: no proxy is created" % name)
        return
    if was[0]:
        E.reach("shared")
        E.prove(not ms, "%s: a library with a live proxy is not linked again" % name)
        same(E, got, ("return", was[1]), "%s: the live proxy is returned" % name)
        unchanged(E, now, before, "%s: proxies are unchanged" % name)
        return
    E.reach("new")
    E.prove(len(ms) == 1, "%s: the library is opened once" % name)
    if len(ms) != 1:
        return
    cls, args, kws = ms[0]
    E.prove(E.resolve(cls) is CTypesCLibrary, "%s: class of the backend" % name)
    a = E.iter_segs(args)
    E.prove_eq(E.nth(a, 0), first, "%s: the library opened is the one asked for" % name)
    E.prove_eq(E.nth(a, 1), E.world.d["headers"], "%s: other arguments are passed on" % name)
    if got[0] == "raise":
        unchanged(E, now, before, "%s: nothing is kept when opening fails" % name)
        return
    same(E, got, ("return", proxy), "%s: the new proxy is returned" % name)
    r = E.dict_get(now, path)
    E.prove(r[0], "%s: the new proxy is known" % name)
    if r[0]:
        E.prove_eq(r[1], proxy, "%s: under the real path" % name)
    x, y = E.dict_get(old, other), E.dict_get(now, other)
    E.prove(x[0] == y[0], "%s: other files keep their proxies" % name)
    if x[0] and y[0]:
        E.prove_eq(y[1], x[1], "%s: other files keep their proxies" % name)


def open_(E, lib):
    E.world.d["headers"] = E.fresh_opq("headers")
    meta = E.wrap(CLibraryMeta.__dict__["__call__"])
    kw = [{}, dict(backend="ctypes"), dict(lock_calls=True)][E.choose(3)]
    return outcome(E, lambda: E.call(CLibrary, [lib, E.world.d["headers"]], dict(kw)))


def by_path(E):
    st = world(E)
    libs, made, proxy, arch, asked = st
    before = content(libs)
    lib = E.fresh("path", "str")
    E.assume(z3.Contains(lib.t, z3.StringVal(os.sep)))
    got = open_(E, lib)
    E.must_reach("refused", "shared", "new", "unknown")
    path = realpath(E, lib)
    if not E.decide(isfile(E, path).t):
        E.reach("unknown")
        E.prove(got[0] == "raise", "by path: an unknown path is refused")
        E.prove(not made.d["c"], "by path: an unknown path creates no proxy")
        unchanged(E, E.getattr(CLibrary, "libs"), before, "by path: no proxy is created")
        return
    wrong = bool(arch) and arch != "fails" and 64 not in arch
    finish(E, got, path, path, st + (before,), wrong, "by path")
    as_ = [E.resolve(s.v) for s in asked.d["c"]]
    E.prove(len(as_) >= 1, "by path: the architecture is looked at")
    for x in as_:
        E.prove_eq(E.getattr(x, "path") if isinstance(x, SObj) else x, path, "by path: architecture of the file")


def by_name(E):
    st = world(E)
    libs, made, proxy, arch, asked = st
    before = content(libs)
    lib = E.fresh("name", "str")
    E.assume(z3.Not(z3.Contains(lib.t, z3.StringVal(os.sep))))
    found = E.choose(2)
    where = E.app("found_at", [lib], "str")

    def find(E, a, k):
        E.prove_eq(a[0], lib, "by name: the name is searched for")
        if not found:
            E.py_raise(OSError, "not found")
        return E.call(LibraryPath, [where], {})

    E.contract(utils.find_library, find)
    got = open_(E, lib)
    E.must_reach("refused", "shared", "new", "unknown")
    if not found:
        E.reach("unknown")
        E.prove(got[0] == "raise", "by name: an unknown library is refused")
        E.prove(not made.d["c"], "by name: an unknown library creates no proxy")
        unchanged(E, E.getattr(CLibrary, "libs"), before, "by name: no proxy is created")
        return
    wrong = bool(arch) and arch != "fails" and 64 not in arch
    path = realpath(E, where)
    # opened through the path found
    ms = [E.resolve(s.v) for s in made.d["c"]]
    first = where
    if len(ms) == 1:
        a0 = E.resolve(E.nth(E.iter_segs(ms[0][1]), 0))
        if E.truth(E.py_eq(a0, path)):
            first = path
    finish(E, got, path, first, st + (before,), wrong, "by name")


def by_object(E):
    st = world(E)
    libs, made, proxy, arch, asked = st
    before = content(libs)
    nm = E.fresh("_name", "str")
    lib = Stub(E, Lib, dict(_name=nm))
    where = E.app("found_at", [nm], "str")
    found = E.choose(2)

    def find(E, a, k):
        E.prove_eq(a[0], nm, "by object: the name of the library is searched for")
        if not found:
            E.py_raise(OSError, "not found")
        return E.call(LibraryPath, [where], {})

    E.contract(utils.find_library, find)
    got = open_(E, lib)
    E.must_reach("shared", "new")
    if E.decide(isfile(E, nm).t):
        path = realpath(E, nm)
    elif found:
        path = realpath(E, where)
    else:
        E.prove(got[0] == "raise", "by object: an object without a file is refused")
        E.prove(not made.d["c"], "by object: an object without a file creates no proxy")
        return
    finish(E, got, path, lib, st + (before,), False, "by object")


def architecture(E):
    """LibraryPath.arch: what get_arch says, () when it cannot tell."""
    p = E.fresh("path", "str")
    arch = ((), (32,), (64,), (32, 64), "fails")[E.choose(5)]

    def get_arch(E, a, k):
        E.prove_eq(E.resolve(a[0]), p, "arch: the file is looked at")
        if arch == "fails":
            E.py_raise(RuntimeError, "no tool")
        return arch

    E.contract(utils.get_arch, get_arch)
    o = E.call(LibraryPath, [p], {})
    for label in ("arch", "arch asked again"):
        got = outcome(E, lambda: E.getattr(o, "arch"))
        same(E, got, ("return", () if arch == "fails" else arch), label)
    E.prove_eq(E.getattr(o, "path"), p, "LibraryPath: path")
    known = () if arch == "fails" else arch
    for label, want in (("is_32bit", 32 in known), ("is_64bit", 64 in known), ("bitness", ", ".join(map(str, known)))):
        same(E, outcome(E, lambda: E.getattr(o, label)), ("return", want if known else "n/a"), label)


class Out:
    """What the tool `file` prints, in bytes."""

    @staticmethod
    def attr(E, o, name):
        return BuiltinMethod(o, name)

    @staticmethod
    def m_decode(E, o, a, k):
        return o.data[0]


def elf(E):
    """get_arch on linux and darwin: the words of the description that `file` gives, which
    starts with the path unless -b is given and is about the link, when the
    path is one, unless -L is given."""
    p = E.fresh("path", "str")
    own, link = E.fresh("description", "str"), E.fresh("of the link", "str")
    is_link = E.fresh("is link", "bool")

    def check(E, a, k):
        args = [E.resolve(s.v) for s in E.iter_segs(a[0])]
        flags = "".join(x[1:] for x in args[1:-1])
        E.prove(args[0] == "file" and all(x[:1] == "-" and x[1:2] != "-" for x in args[1:-1]), "get_arch: the tool is called")
        E.prove_eq(args[-1], p, "get_arch: the file is looked at")
        out = own
        if "L" not in flags and E.decide(is_link.t):
            out = link
        if "b" not in flags:
            out = E.fresh("line", "str")
            d = link if "L" not in flags and E.decide(is_link.t) else own
            E.assume(out.t == z3.Concat(p.t, z3.StringVal(": "), d.t))
        return Stub(E, Out, out)

    E.contract(utils.check_output, check)
    system, words = (("linux", ("32-bit", "64-bit")), ("darwin", ("(for architecture i386)", "(for architecture x86_64)")))[E.choose(2)]
    E.set_global(sys, "platform", system)
    got = outcome(E, lambda: E.call(E.wrap(utils.get_arch), [p], {}))
    a, b = (z3.Contains(own.t, z3.StringVal(x)) for x in words)
    want = Choice([(z3.And(a, b), (32, 64)), (z3.And(a, z3.Not(b)), (32,)), (z3.And(z3.Not(a), b), (64,)), (z3.And(z3.Not(a), z3.Not(b)), ())])
    same(E, got, ("return", want), "get_arch")


def pe(E):
    """get_arch on windows: the machine of the header; on other systems, an error."""
    p = E.fresh("path", "str")
    m = E.fresh("machine", "str")

    def header(E, a, k):
        E.prove_eq(E.resolve(a[0]), p, "get_arch: the file is looked at")
        return m

    E.contract(utils.get_shared_library_arch, header)
    system = ("win32", "sunos5")[E.choose(2)]
    E.set_global(sys, "platform", system)
    got = outcome(E, lambda: E.call(E.wrap(utils.get_arch), [p], {}))
    if system != "win32":
        E.prove(got[0] == "raise" and issubclass(got[1].cls, OSError), "get_arch: unknown system")
        return
    is_ = lambda *names: z3.Or(*[m.t == z3.StringVal(n) for n in names])
    want = Choice([(is_("I386"), (32,)), (is_("IA64", "AMD64"), (64,)), (z3.Not(is_("I386", "IA64", "AMD64")), ())])
    same(E, got, ("return", want), "get_arch: machine")


class Process:
    """The tool as it runs (data: output, return code)."""

    @staticmethod
    def attr(E, o, name):
        return BuiltinMethod(o, name)

    @staticmethod
    def m_communicate(E, o, a, k):
        return (o.data[0], None)

    @staticmethod
    def m_poll(E, o, a, k):
        return o.data[1]

    m_wait = m_poll


def tool(E):
    """check_output: what the tool prints, an error if it fails."""
    out, rc = E.fresh("output", "str"), E.fresh("code", "int")
    cmd = E.fresh("command", "obj")
    n = [0]

    def popen(E, a, k):
        n[0] += 1
        E.prove(len(a) == 1 and E.resolve(k["stdout"]) == subprocess.PIPE and E.resolve(k.get("stderr")) == subprocess.STDOUT, "check_output: output is kept")
        E.prove_eq(a[0], cmd, "check_output: the command is run")
        return Stub(E, Process, out, rc)

    E.model(subprocess.Popen, popen)
    got = outcome(E, lambda: E.call(E.wrap(utils.check_output), [cmd], dict(stderr=subprocess.STDOUT)))
    E.prove(n[0] == 1, "check_output: the command is run once")
    if got[0] == "return":
        E.prove(rc.t == 0, "check_output: a failure is an error")
        E.prove_eq(got[1], out, "check_output: the output is returned")
    else:
        E.prove(rc.t != 0, "check_output: no error otherwise")
        E.prove(issubclass(got[1].cls, subprocess.CalledProcessError), "check_output: the error")
