"""C07: names resolve in a fixed order, whatever was accessed before."""
from pyvc.sym import *
import threading

import specs.c07 as S
from pyclibrary.c_library import CLibrary
from pyclibrary.c_parser import CParser
from pyclibrary.backends.ctypes import CTypesCLibrary

FUNCTIONS = ["CLibrary.__init__", "CLibrary.__getattr__", "CLibrary.__call__", "CLibrary._make_obj_", "CLibrary._all_names_", "CLibrary.__getitem__"]
HARNESSES = ["construct", "attribute", "category", "unknown_category", "definitions"]
SECS = 300
ASSUMPTIONS = [
    "wrapping a function, building a class and resolving a type are functions of their arguments (C02-C04)",
    "the definitions do not change between two accesses",
    "only values can be None (a typedef of void gives None as well and is left out)",
]


def lib_of(E):
    defs = {k: symdict(E, k) for k in S.CATEGORIES}
    d = MDict(E, None, tuple((k, defs[k]) for k in reversed(S.CATEGORIES)))
    parser = SObj(E, CParser, dict(defs=d))
    prefixes = mlist(E, "prefixes", fn_elem(E, "prefix", "str"))
    caches = MDict(E, None, tuple((k, MDict(E)) for k in reversed(S.CATEGORIES)))
    lib = SObj(E, CTypesCLibrary, dict(_headers_=parser, _defs_=d, _prefix_=prefixes, _objs_=caches, _all_objs_=MDict(E), _lock_calls_=False))
    return lib, d, defs, prefixes, caches


class Handle:
    """A library object that is loaded already."""

    @staticmethod
    def isinstance(E, o, cls):
        return cls is object


def construct(E):
    """The state the other harnesses start from is what the constructor makes:
    the definitions of the parser given or built from the headers given, the
    prefixes given, nothing accessed."""
    d = MDict(E, None, tuple((k, symdict(E, k)) for k in S.CATEGORIES))
    parser = SObj(E, CParser, dict(defs=d))
    files = mlist(E, "files", fn_elem(E, "file", "str"))
    option = E.fresh("option", "obj")
    built = []

    def make(E, a, k):
        a = a[1:]
        E.prove(len(a) == 1 and set(k) == {"option"}, "construct: the parser gets the headers and the other arguments")
        E.prove_segs_eq(E.iter_segs(a[0]), E.iter_segs(files), "construct: the parser gets the headers")
        E.prove_eq(k["option"], option, "construct: the parser gets the other arguments")
        built.append(1)
        return parser

    E.contract(CParser, make)
    kind = ("parser", "list", "other")[E.choose(3)]
    headers = {"parser": parser, "list": files, "other": E.fresh("text", "str")}[kind]
    linked = []
    handle = Stub(E, Handle)

    def link(E, a, k):
        linked.append(a[1:])
        return handle

    E.contract(CTypesCLibrary._link_library, link)
    path = E.fresh("path", "str")
    given = (handle, path)[E.choose(2)]
    conv = E.fresh("convention", "str")
    p = E.fresh("prefix", "str")
    many = mlist(E, "prefixes", fn_elem(E, "prefix", "str"))
    prefix, want = ((None, ()), (p, (Item(p),)), (many, E.iter_segs(many)))[E.choose(3)]
    lock = bool(E.choose(2))
    E.model(threading.RLock, lambda E, a, k: Stub(E, Handle))
    lib = SObj(E, CTypesCLibrary, {})
    kw = dict(prefix=prefix, lock_calls=lock, convention=conv)
    if kind == "list":
        kw["option"] = option
    E.must_reach("made")
    got = outcome(E, lambda: E.call(E.wrap(CLibrary.__init__), [lib, given, headers], kw))
    if kind == "other":
        E.prove(got[0] == "raise" and got[1].cls is ValueError and not linked, "construct: other headers are refused")
        return
    E.prove(got[0] == "return", "construct: no exception")
    if got[0] != "return":
        return
    E.reach("made")
    E.prove(len(built) == (kind == "list"), "construct: one parser")
    E.prove(E.resolve(lib.d["_headers_"]) is parser and E.resolve(lib.d["_defs_"]) is d, "construct: the definitions are those of the parser")
    E.prove_segs_eq(E.iter_segs(lib.d["_prefix_"]), want, "construct: the prefixes")
    E.prove(E.resolve(lib.d["_lib_"]) is handle and len(linked) == (given is path), "construct: the library")
    for a in linked:
        E.prove_eq(a[0], path, "construct: the path is linked")
        E.prove_eq(a[1], conv, "construct: with its convention")
    E.prove(E.resolve(lib.d["_lock_calls_"]) is lock, "construct: locking")
    base, ov = content(E.resolve(lib.d["_objs_"]))
    E.prove(base is None and {k for k, _ in ov} == set(S.CATEGORIES) and len({id(E.resolve(v)) for _, v in ov}) == len(S.CATEGORIES), "construct: the categories")
    for v in [v for _, v in ov] + [lib.d[k] for k in ("_all_objs_", "_structs_", "_unions_")]:
        E.prove(content(E.resolve(v)) == (None, ()), "construct: nothing is accessed yet")


def attribute(E):
    lib, d, defs, prefixes, caches = lib_of(E)
    name = E.fresh("name", "str")

    def get(E, a, k):
        if len(a) == 3:
            a = a[1:]
        typ, n = [E.resolve(x) for x in a]
        if E.decide(E.app("not_built", [typ, n], "bool").t):
            raise PyRaise(ExcVal(E.app("why_not", [typ, n])))
        r = E.app("object_of", [typ, n])
        if typ != "values":
            E.assume(z3.Not(U.is_none(r.t)))
        return r

    E.contract(CLibrary.__call__, get)

    class Get:
        @staticmethod
        def call(E, o, a, k):
            return get(E, [None] + list(a), k)

    g = Stub(E, Get)

    def spec(k):
        return E.call(E.wrap(S.by_attribute), [d, prefixes, k, g], {})

    # what was accessed before: any names, each kept with what it resolves to
    h = z3.Function(E.name("accessed"), STR, BOOL)

    def val(k):
        try:
            return spec(E.lower(SV(k, "str")))
        except PyRaise:
            raise PathEnd()

    cache = lib.d["_all_objs_"]
    cache.d["c"] = (SymDict(lambda k: h(k), val, None, None, None, "str"), ())
    before = {k: content(v) for k, v in defs.items()}
    E.must_reach("found", "not found")
    got = outcome(E, lambda: E.call(E.wrap(CLibrary.__getattr__), [lib, name], {}))
    E.reach("found" if got[0] == "return" else "not found")
    want = outcome(E, lambda: spec(name))
    same(E, got, want, "attribute access")
    # what is kept for later accesses is what the names resolve to
    base, ov = content(E.getattr(lib, "_all_objs_"))
    for k, v in ov:
        if got[0] == "return" and E.valid(E.lift(k) == name.t)[0] == "ok":
            E.prove_eq(v, got[1], "what is kept for a name is what it resolves to")
        else:
            w = outcome(E, lambda: spec(k))
            same(E, ("return", v), w, "what is kept for a name is what it resolves to")
    if got[0] == "return":
        E.prove(E.truth(E.contains(E.getattr(lib, "_all_objs_"), name)), "the object is kept")
    for k, v in defs.items():
        unchanged(E, v, before[k], "the definitions are not modified")


def leaves(E):
    E.contract(CTypesCLibrary._get_type, lambda E, a, k: E.app("class_of_type", [a[1]]))
    E.contract(CTypesCLibrary._get_struct, lambda E, a, k: E.app("class_of_struct", [a[1], a[2]]))
    E.contract(CLibrary._get_function, lambda E, a, k: SV(U.opq(z3.Function("wrapper", STR, O)(E.lift(E.resolve(a[1])))), "obj"))

    def eval_type(E, a, k):
        t = E.resolve(a[1])
        n = E.resolve(E.getitem(t, 0))
        return (E.app("resolved_base", [n], "str"),)

    E.contract(CParser.eval_type, eval_type)
    E.models["objitem"] = (None, lambda E, o, k: E.app("item", [o, k], "str"))


def category(E):
    lib, d, defs, prefixes, caches = lib_of(E)
    leaves(E)
    typ = S.CATEGORIES[E.choose(6)]
    name = E.fresh("name", "str")

    def spec(k):
        return E.call(E.wrap(S.by_category), [lib, d, prefixes, typ, k], {})

    h = z3.Function(E.name("accessed"), STR, BOOL)

    def val(k):
        try:
            return spec(E.lower(SV(k, "str")))
        except PyRaise:
            raise PathEnd()

    cache = E.getitem(caches, typ)
    cache.d["c"] = (SymDict(lambda k: h(k), val, None, None, None, "str"), ())
    E.must_reach("found", "not found")
    before = {k: content(v) for k, v in defs.items()}
    got = outcome(E, lambda: E.call(lib, [typ, name], {}))
    E.reach("found" if got[0] == "return" else "not found")
    want = outcome(E, lambda: spec(name))
    same(E, got, want, "access by category")
    for k in S.CATEGORIES:
        base, ov = content(E.getitem(caches, k))
        if k != typ:
            E.prove(base is None and ov == (), "nothing is kept for another category")
            continue
        for n, v in ov:
            w = outcome(E, lambda: spec(n))
            same(E, ("return", v), w, "what is kept for a name is what it resolves to")
    if got[0] == "return":
        again = outcome(E, lambda: E.call(lib, [typ, name], {}))
        same(E, again, got, "accessing again")
        E.prove(E.truth(E.contains(E.getitem(caches, typ), name)), "the object is kept")
    for k, v in defs.items():
        unchanged(E, v, before[k], "the definitions are not modified")


def unknown_category(E):
    lib, d, defs, prefixes, caches = lib_of(E)
    leaves(E)
    typ = E.fresh("typ", "str")
    for k in S.CATEGORIES:
        E.assume(typ.t != k)
    got = outcome(E, lambda: E.call(lib, [typ, E.fresh("name", "str")], {}))
    E.prove(got[0] == "raise" and got[1].cls is KeyError, "unknown categories raise KeyError")


def definitions(E):
    lib, d, defs, prefixes, caches = lib_of(E)
    k = S.CATEGORIES[E.choose(6)]
    got = outcome(E, lambda: E.call(E.wrap(CLibrary.__getitem__), [lib, k], {}))
    E.prove(got[0] == "return" and E.resolve(got[1]) is defs[k], "the definitions of a category")
