"""C16: headers and libraries are searched in the documented order."""
import sys
import os
from pyvc.sym import *
import specs.c16 as S
from pyclibrary import utils

FUNCTIONS = ["utils.find_header", "utils.find_library", "utils.add_header_locations", "utils.add_library_locations", "CParser.find_headers"]
HARNESSES = ["find_header", "find_library", "add_header_locations", "add_library_locations", "find_headers"]


def world(E):
    plat = E.fresh("platform", "str")
    E.world.d[("g", "sys", "platform")] = plat
    hd = mlist(E, "HEADER_DIRS", fn_elem(E, "hd", "str"))
    ld = mlist(E, "LIBRARY_DIRS", fn_elem(E, "ld", "str"))
    E.set_global(utils, "HEADER_DIRS", hd)
    E.set_global(utils, "LIBRARY_DIRS", ld)
    return plat, hd, ld


def some_dirs(E):
    if E.choose(2):
        return None
    return mlist(E, "dirs", fn_elem(E, "d", "str"))


def find_header(E):
    plat, hd, ld = world(E)
    name = E.fresh("name", "str")
    dirs = some_dirs(E)
    E.must_reach("found", "not found")
    b1, b2 = content(hd), dirs and content(dirs)
    got = outcome(E, lambda: E.call(E.wrap(utils.find_header), [name, dirs], {}))
    E.reach("found" if got[0] == "return" else "not found")
    unchanged(E, hd, b1, "find_header: registered directories unchanged")
    if dirs is not None:
        unchanged(E, dirs, b2, "find_header: caller's list unchanged")
    want = outcome(E, lambda: E.call(E.wrap(S.find_header), [name, dirs, hd, plat], {}))
    same(E, got, want, "find_header: result")


def sys_find(E, a, k):
    return E.lower(E.app("system_search", [E.resolve(a[0])], "obj"))


class SysFind:
    @staticmethod
    def call(E, o, a, k):
        r = E.app("system_search", [E.resolve(a[0])], "obj")
        E.assume(z3.Or(U.is_none(r.t), U.is_ustr(r.t)))
        return r


def find_library(E):
    plat, hd, ld = world(E)
    name = E.fresh("name", "str")
    dirs = some_dirs(E)
    f = Stub(E, SysFind)
    E.set_global(utils, "find_lib", f)
    E.must_reach("found", "not found")
    b1, b2 = content(ld), dirs and content(dirs)
    got = outcome(E, lambda: E.call(E.wrap(utils.find_library), [name, dirs], {}))
    E.reach("found" if got[0] == "return" else "not found")
    unchanged(E, ld, b1, "find_library: registered directories unchanged")
    if dirs is not None:
        unchanged(E, dirs, b2, "find_library: caller's list unchanged")
    want = outcome(E, lambda: E.call(E.wrap(S.find_library), [name, dirs, ld, f], {}))
    if got[0] == "return":
        r = E.resolve(got[1])
        E.prove(isinstance(r, SObj) and r.cls is utils.LibraryPath, "find_library: a LibraryPath is returned")
        if isinstance(r, SObj):
            got = ("return", r.base)
    same(E, got, want, "find_library: result")


def _add(E, f, which):
    plat, hd, ld = world(E)
    lst = (hd, ld)[which]
    other = (ld, hd)[which]
    before, ob = content(lst), content(other)
    new = mlist(E, "new", fn_elem(E, "nd", "str"))
    nb = content(new)
    b = MList(E, before)
    got = outcome(E, lambda: E.call(E.wrap(f), [new], {}))
    E.prove(got[0] == "return", "no exception")
    want = E.call(E.wrap(S.registered_after), [b, new], {})
    cur = E.get_global(utils, ("HEADER_DIRS", "LIBRARY_DIRS")[which])
    E.prove(cur is lst, "the registered list stays the same object")
    E.prove_eq(lst, want, "registered directories")
    unchanged(E, other, ob, "other list unchanged")
    unchanged(E, new, nb, "argument unchanged")


def add_header_locations(E):
    _add(E, utils.add_header_locations, 0)


def add_library_locations(E):
    _add(E, utils.add_library_locations, 1)


def find_headers(E):
    """CParser.find_headers against the contract of find_header."""
    from pyclibrary.c_parser import CParser

    world(E)

    def contract(E, a, k):
        n = E.resolve(a[0])
        if E.decide(E.app("hdr_found", [n], "bool").t):
            return E.app("hdr_path", [n], "str")
        E.py_raise(OSError, "not found")

    E.contract(utils.find_header, contract)
    hs = mlist(E, "headers", fn_elem(E, "h", "str"))
    before = content(hs)
    p = SObj(E, CParser)
    got = outcome(E, lambda: E.call(E.wrap(CParser.find_headers), [p, hs], {}))
    E.prove(got[0] == "return", "find_headers: no exception")
    if got[0] != "return":
        return
    r = E.resolve(got[1])
    n = E.rope_len(before)
    E.prove(E.rope_len(E.iter_segs(r)) == n, "find_headers: one path per header")
    k = E.fresh_t("k", INT)
    E.assume(z3.And(k >= 0, k < n))
    h = E.resolve(E.nth(before, SV(k, "int")))
    x = E.resolve(E.nth(E.iter_segs(r), SV(k, "int")))
    if E.decide(E.app("isfile", [h], "bool").t):
        E.prove_eq(x, h, "find_headers: an existing file is used as it is")
    elif E.decide(E.app("hdr_found", [h], "bool").t):
        E.prove_eq(x, E.app("hdr_path", [h], "str"), "find_headers: the path found is used")
    unchanged(E, hs, before, "find_headers: argument unchanged")
