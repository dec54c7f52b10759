"""Opening real library files by name, path and loaded object."""
import ctypes
import gc
import glob
import os
import shutil
import subprocess

from oracles.lib import Raises
from oracles.fake import parser
from pyclibrary import CLibrary, utils
from pyclibrary.c_library import CLibraryMeta

TEXT = "int which(void);"
SRC = "int which(void) { return %d; }\n"


def build(o):
    """Directories with real libraries; which() tells them apart."""
    base = os.path.realpath(o.dir("so"))
    dirs = {}
    for k, name in enumerate(["a", "b", "32-bit", "x y"]):
        d = os.path.join(base, name)
        os.makedirs(d)
        for j, so in enumerate(["libone.so", "libtwo.so.1"]):
            c = os.path.join(d, "s.c")
            with open(c, "w") as f:
                f.write(SRC % (10 * k + j))
            subprocess.run(["gcc", "-shared", "-fPIC", "-o", os.path.join(d, so), c], check=True, capture_output=True)
        dirs[name] = d
    return base, dirs


def elf32(path):
    """The header of a library for 32 bit machines."""
    with open(path, "wb") as f:
        f.write(b"\x7fELF\x01\x01\x01" + bytes(9) + b"\x03\0\x03\0\x01\0\0\0" + bytes(32))


class Links:
    """Counts the libraries linked."""

    def __enter__(self):
        self.n = 0
        self.init = ctypes.CDLL.__init__

        def init(s, *a, **k):
            self.n += 1
            return self.init(s, *a, **k)

        ctypes.CDLL.__init__ = init
        return self

    def __exit__(self, *a):
        ctypes.CDLL.__init__ = self.init


def count():
    gc.collect()
    return len(list(CLibraryMeta.libs.values()))


def run(o):
    base, dirs = build(o)
    hdr = parser(o, TEXT)
    saved = list(utils.LIBRARY_DIRS)
    cwd = os.getcwd()
    try:
        spellings(o, base, dirs, hdr)
        different(o, base, dirs, hdr)
        dying(o, base, dirs, hdr)
        bitness(o, base, dirs, hdr)
        unknown(o, base, dirs, hdr)
        histories(o, base, dirs, hdr)
    finally:
        utils.LIBRARY_DIRS[:] = saved
        os.chdir(cwd)


def ways(path, base, extra):
    """Arguments all leading to one file."""
    d, n = os.path.split(path)
    os.chdir(base)
    return [
        path,
        os.path.join(d, ".", n),
        os.path.join(d, "..", os.path.basename(d), n),
        os.path.relpath(path, base),
        "." + os.sep + os.path.relpath(path, base),
        d + os.sep * 2 + n,
    ] + extra


def setdirs(*ds):
    utils.LIBRARY_DIRS[:] = []
    utils.add_library_locations(list(ds))


def spellings(o, base, dirs, hdr):
    for name, d in dirs.items():
        path = os.path.join(d, "libone.so")
        links = os.path.join(base, "links_" + name)
        os.makedirs(links)
        os.symlink(path, os.path.join(links, "libl.so"))
        os.symlink("libl.so", os.path.join(links, "libll.so"))
        os.symlink(d, os.path.join(links, "dir"))
        extra = [os.path.join(links, x) for x in ("libl.so", "libll.so", "dir/libone.so")]
        setdirs(d, links)
        names = ["libone.so", "libl.so", "libll.so"]
        loaded = lambda p: ctypes.CDLL(p)
        ws = [("path", w) for w in ways(path, base, extra)]
        ws += [("name", n) for n in names]
        ws += [("object", w) for w in [path] + extra]
        for k, first in ws:
            for k2, second in ws:
                if not o.thorough and o.rng.random() > 0.45:
                    continue

                def go():
                    a = CLibrary(loaded(first) if k == "object" else first, hdr)
                    obj = loaded(second) if k2 == "object" else second
                    with Links() as ln:
                        b = CLibrary(obj, hdr)
                    return a is b, ln.n, a.which()(), b.which()()

                v = 10 * list(dirs).index(name)
                o.eq(("same", name, k, first, k2, second), go, (True, 0, v, v))


def different(o, base, dirs, hdr):
    paths = [os.path.join(d, n) for d in dirs.values() for n in ("libone.so", "libtwo.so.1")]
    kinds = ("path", "object", "name")
    for i, p in enumerate(paths):
        for j, q in enumerate(paths):
            if p == q:
                continue
            for k in kinds:
                k2 = o.rng.choice(kinds)

                def get(p, k):
                    if k == "object":
                        return CLibrary(ctypes.CDLL(p), hdr)
                    if k == "name":
                        setdirs(os.path.dirname(p))
                        return CLibrary(os.path.basename(p), hdr)
                    return CLibrary(p, hdr)

                def go():
                    a = get(p, k)
                    b = get(q, k2)
                    return a is b, a.which()(), b.which()(), get(p, k2) is a, get(q, k) is b

                val = lambda n: 10 * (n // 2) + n % 2
                o.eq(("different", p, k, q, k2), go, (False, val(i), val(j), True, True))
    # a copy is another file
    c = os.path.join(base, "libcopy.so")
    shutil.copy(paths[0], c)

    def cp():
        a, b = CLibrary(paths[0], hdr), CLibrary(c, hdr)
        return a is b

    o.eq("copy", cp, False)


def dying(o, base, dirs, hdr):
    path = os.path.join(dirs["a"], "libone.so")

    def go():
        n0 = count()
        a = CLibrary(path, hdr)
        n1 = count()
        del a
        n2 = count()
        with Links() as ln:
            b = CLibrary(path, hdr)
        return n1 - n0, n2 - n0, ln.n, b.which()(), CLibrary(path, hdr) is b

    o.eq("dies and opens again", go, (1, 0, 1, 0, True))


def bitness(o, base, dirs, hdr):
    """32 bit libraries, in directories with misleading names."""
    out = []
    for name in ("plain", "64-bit", "x 64-bit y"):
        d = os.path.join(base, "w", name)
        os.makedirs(d)
        p = os.path.join(d, "libw.so")
        elf32(p)
        os.symlink("libw.so", os.path.join(d, "libwl.so"))
        os.symlink(p, os.path.join(d, "lib64-bit.so"))
        for n in ("libw.so", "libwl.so", "lib64-bit.so"):
            out.append((d, n))
    if utils.LibraryPath(os.path.join(*out[0])).arch != (32,) or not shutil.which("file"):
        return
    for d, n in out:
        for by in ("path", "name"):

            def go():
                setdirs(d)
                before = count()
                with Links() as ln:
                    try:
                        CLibrary(os.path.join(d, n) if by == "path" else n, hdr)
                        got = "opened"
                    except OSError:
                        got = "refused"
                return got, ln.n, count() - before

            o.eq(("bitness", d, n, by), go, ("refused", 0, 0))
            o.eq(("arch", d, n), lambda: utils.LibraryPath(os.path.realpath(os.path.join(d, n))).arch, (32,))
    # what is known decides
    path = os.path.join(dirs["b"], "libone.so")
    saved = utils.get_arch
    for arch in ((), (32,), (64,), (32, 64), (64, 32), None):

        def fake(f):
            if arch is None:
                raise OSError("cannot tell")
            return arch

        def go():
            before = count()
            with Links() as ln:
                try:
                    r = CLibrary(path, hdr).which()()
                except OSError:
                    r = "refused"
            gc.collect()
            return r, ln.n

        utils.get_arch = fake
        try:
            o.eq(("known bitness", arch), go, ("refused", 0) if arch == (32,) else (20 // 2, 1))
        finally:
            utils.get_arch = saved
    o.eq("arch of a real library", lambda: utils.LibraryPath(path).arch, (64,))
    facts = lambda: [getattr(utils.LibraryPath(path), n) for n in ("is_32bit", "is_64bit", "bitness")]
    o.eq("facts of a real library", facts, [False, True, "64"])
    for arch in ((), (32,), (64,), (32, 64)):
        utils.get_arch = lambda f: arch
        try:
            o.eq(("facts", arch), facts, [32 in arch, 64 in arch, ", ".join(map(str, arch))] if arch else ["n/a"] * 3)
        finally:
            utils.get_arch = saved
    # what the tools of other systems say
    other = [
        ("darwin", "Mach-O universal binary (for architecture i386): x (for architecture x86_64): y", (32, 64)),
        ("darwin", "x (for architecture i386)", (32,)),
        ("darwin", "Mach-O x (for architecture x86_64)", (64,)),
        ("darwin", "64-bit", ()),
        ("linux", "x 32-bit y", (32,)),
        ("linux", "text", ()),
        ("win32", "I386", (32,)),
        ("win32", "AMD64", (64,)),
        ("win32", "IA64", (64,)),
        ("win32", "ARM", ()),
        ("sunos5", "", Raises(OSError)),
    ]
    tools = utils.check_output, utils.get_shared_library_arch, utils.sys.platform
    for system, text, want in other:
        utils.check_output = lambda *a, **k: text.encode()
        utils.get_shared_library_arch = lambda f: text
        utils.sys.platform = system
        try:
            o.eq(("get_arch", system, text), lambda: utils.get_arch(path), want)
        finally:
            utils.check_output, utils.get_shared_library_arch, utils.sys.platform = tools
    o.eq("failing tool", lambda: utils.check_output(["false"], stderr=subprocess.STDOUT), Raises(subprocess.CalledProcessError))
    o.eq("output of a tool", lambda: utils.check_output(["echo", "a b"], stderr=subprocess.STDOUT), b"a b\n")


def unknown(o, base, dirs, hdr):
    setdirs(*dirs.values())
    bad = [
        os.path.join(base, "none.so"),
        os.path.join(base, "a") + os.sep,
        os.path.join(base, "a"),
        os.path.join("nowhere", "libone.so"),
        os.path.join(base, "dangling.so"),
        "libnone_such_thing.so",
        os.path.join(base, "a", "libone.so", "x"),
    ]
    os.symlink(os.path.join(base, "gone"), os.path.join(base, "dangling.so"))
    for p in bad:

        def go():
            before = count()
            with Links() as ln:
                try:
                    CLibrary(p, hdr)
                    r = "opened"
                except Exception:
                    r = "refused"
            return r, ln.n, count() - before

        o.eq(("unknown", p), go, ("refused", 0, 0))
    # one that cannot be linked leaves nothing behind
    p = os.path.join(base, "libtext.so")
    open(p, "w").write("not a library")

    def go():
        before = count()
        try:
            CLibrary(p, hdr)
            r = "opened"
        except Exception:
            r = "refused"
        return r, count() - before

    o.eq("cannot be linked", go, ("refused", 0))
    o.eq("cannot be linked, again", go, ("refused", 0))

    def afterwards():
        go()
        shutil.copy(os.path.join(dirs["b"], "libone.so"), p)
        return CLibrary(p, hdr).which()()

    o.eq("can be linked afterwards", afterwards, 10)


def histories(o, base, dirs, hdr):
    """Random histories of openings and deaths."""
    paths = [os.path.join(d, n) for d in dirs.values() for n in ("libone.so", "libtwo.so.1")]
    for n in range(o.scale(60, 600)):
        def go():
            live = {}
            trace = []
            for _ in range(12):
                i = o.rng.randrange(len(paths))
                act = o.rng.choice(["path", "object", "name", "relative", "drop"])
                trace.append((act, i))
                if act == "drop":
                    live.pop(i, None)
                    gc.collect()
                    continue
                p = paths[i]
                if act == "object":
                    arg = ctypes.CDLL(p)
                elif act == "name":
                    setdirs(os.path.dirname(p))
                    arg = os.path.basename(p)
                elif act == "relative":
                    os.chdir(o.rng.choice([base, os.path.dirname(p), os.path.dirname(base)]))
                    arg = os.path.join(".", os.path.relpath(p))
                else:
                    arg = p
                with Links() as ln:
                    lib = CLibrary(arg, hdr)
                if i in live and (lib is not live[i] or ln.n):
                    return trace
                if any(lib is x for j, x in live.items() if j != i):
                    return trace
                live[i] = lib
                if lib.which()() != 10 * (i // 2) + i % 2:
                    return trace
            return "ok"

        o.eq(("history", n), go, "ok")
