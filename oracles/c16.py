"""Concrete search cases in a scratch directory."""
import os
import sys
import itertools

from oracles.lib import Raises
import specs.c16 as S
from pyclibrary import utils
import pyclibrary


def run(o):
    base = o.dir("fs")
    dirs = []
    for k in range(6):
        d = os.path.join(base, "d%d" % k)
        os.makedirs(d)
        dirs.append(d)
    # file fXY exists in the directories whose bit is set
    for bits in range(64):
        for k in range(6):
            if bits >> k & 1:
                open(os.path.join(dirs[k], "f%d.h" % bits), "w").close()
                open(os.path.join(dirs[k], "libf%d.so" % bits), "w").close()
    os.makedirs(os.path.join(dirs[1], "sub"))
    open(os.path.join(dirs[1], "sub", "s.h"), "w").close()
    # something that the standard directories hold
    std = None
    for root in ("/usr/local/include", "/usr/target/include", "/usr/include"):
        if os.path.isdir(root):
            for f in sorted(os.listdir(root)):
                if os.path.isfile(os.path.join(root, f)):
                    std = f
    if std:
        open(os.path.join(dirs[0], std), "w").close()
    saved = list(utils.HEADER_DIRS), list(utils.LIBRARY_DIRS)
    splat = sys.platform

    def setup(reg):
        utils.HEADER_DIRS[:] = []
        utils.LIBRARY_DIRS[:] = []
        utils.add_header_locations(list(reg))
        utils.add_library_locations(list(reg))

    def want(fn, *a):
        try:
            return fn(*a)
        except OSError:
            return Raises(OSError)

    def one(name, caller, reg, plat="linux"):
        def hdr():
            setup(reg)
            arg = None if caller is None else list(caller)
            sys.platform = plat
            try:
                before = list(utils.HEADER_DIRS)
                try:
                    return utils.find_header(name + ".h" if "." not in name else name, arg)
                finally:
                    if arg is not None and arg != list(caller):
                        raise AssertionError("the caller's list was changed: %r" % arg)
                    if list(utils.HEADER_DIRS) != before:
                        raise AssertionError("the registered directories changed")
            finally:
                sys.platform = splat

        def lib():
            setup(reg)
            arg = None if caller is None else list(caller)
            before = list(utils.LIBRARY_DIRS)
            try:
                return str(utils.find_library("lib" + name + ".so", arg))
            finally:
                if arg is not None and arg != list(caller):
                    raise AssertionError("the caller's list was changed: %r" % arg)
                if list(utils.LIBRARY_DIRS) != before:
                    raise AssertionError("the registered directories changed")

        hn = name + ".h" if "." not in name else name
        o.eq(("find_header", hn, caller, reg, plat), hdr, want(S.find_header, hn, caller, list(reg), plat))
        if "." not in name:
            o.eq(("find_library", name, caller, reg), lib, want(S.find_library, "lib" + name + ".so", caller, list(reg), lambda n: None))

    try:
        for reg in ([], [dirs[2]], [dirs[2], dirs[3]], [dirs[3], dirs[2], dirs[4]], [dirs[0], dirs[1], dirs[2], dirs[3]]):
            for caller in (None, [], [dirs[0]], [dirs[1], dirs[0]], [dirs[0], dirs[1], dirs[5]], [dirs[5], dirs[2]]):
                for bits in (0, 1, 2, 3, 4, 8, 12, 20, 28, 33, 48, 63, 36):
                    one("f%d" % bits, caller, reg)
                for plat in ("linux", "darwin", "win32", "linux2", "freebsd"):
                    if std:
                        one(std, caller, reg, plat)
                    one("sub/s.h", caller, reg, plat)
        for _ in range(o.scale(400, 20000)):
            reg = [o.rng.choice(dirs) for _ in range(o.rng.randrange(5))]
            caller = o.rng.choice([None, [o.rng.choice(dirs) for _ in range(o.rng.randrange(4))]])
            one("f%d" % o.rng.randrange(64), caller, reg)

        # registration
        bad = [os.path.join(base, "none"), os.path.join(dirs[1], "sub", "s.h")]
        pool = dirs[:4] + bad
        for n in range(4):
            for new in itertools.product(pool, repeat=n) if n < 3 else [tuple(o.rng.choice(pool) for _ in range(4)) for _ in range(60)]:
                for reg in ([], [dirs[0]]):
                    for add, name in ((utils.add_header_locations, "HEADER_DIRS"), (utils.add_library_locations, "LIBRARY_DIRS")):

                        def reg_it():
                            setup(reg)
                            arg = list(new)
                            other = "LIBRARY_DIRS" if name == "HEADER_DIRS" else "HEADER_DIRS"
                            add(arg)
                            if arg != list(new):
                                raise AssertionError("argument changed")
                            return list(getattr(utils, name)), list(getattr(utils, other))

                        o.eq(
                            (add.__name__, new, "after", reg),
                            reg_it,
                            (S.registered_after(list(reg), list(new)), list(reg)),
                        )
        # public functions, and parsers finding their headers
        from pyclibrary import CParser

        def parse(name, reg):
            setup(reg)
            p = CParser.__new__(CParser)
            return list(CParser.find_headers(p, [name]))

        for reg in ([], [dirs[2]], [dirs[2], dirs[3]]):
            for n in ("f0.h", "f4.h", "f12.h", "f8.h", os.path.join(dirs[4], "f63.h"), os.path.join(dirs[1], "sub/s.h")):
                w = want(S.header_path, n, None, list(reg), splat)
                if not isinstance(w, Raises):
                    o.eq(("CParser.find_headers", n, reg), lambda: parse(n, reg), [w])
        # system search comes last
        def system():
            setup([])
            r = utils.find_library("c")
            return bool(r)

        o.true("find_library('c') uses the system search", system)
        open(os.path.join(dirs[0], "c"), "w").close()
        for reg, caller, w in (([dirs[0]], None, 0), ([], [dirs[0]], 0)):

            def sys2():
                setup(reg)
                return str(utils.find_library("c", caller))

            o.eq(("find_library c", reg, caller), sys2, os.path.join(dirs[0], "c"))
    finally:
        sys.platform = splat
        utils.HEADER_DIRS[:], utils.LIBRARY_DIRS[:] = saved
