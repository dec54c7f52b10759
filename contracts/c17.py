"""C17: initialisation happens once and reaches parser and backend alike."""
import ctypes
import sys

from pyvc.sym import *
from pyvc import grammar
from pyvc.values import _ctr
import pyclibrary
from pyclibrary import c_parser

init_mod = sys.modules['pyclibrary.init']
from pyclibrary.c_parser import CParser
from pyclibrary.c_library import CLibrary
from pyclibrary.backends import ctypes as backend, init_libraries
from pyclibrary.backends.ctypes import CTypesCLibrary, init_clibrary

FUNCTIONS = ["init", "auto_init", "_init_cparser", "init_libraries", "init_clibrary"]
HARNESSES = ["initialise", "automatic", "parser", "types", "modifiers"]
ASSUMPTIONS = [
    "the platform is the one of this sandbox (linux): sys.platform is not varied",
    "what a pyparsing element matches is not interpreted; the grammar is followed as the term it is built as",
]

STANDARD = {
    "bool": ctypes.c_bool, "char": ctypes.c_char, "wchar": ctypes.c_wchar, "wchar_t": ctypes.c_wchar,
    "unsigned char": ctypes.c_ubyte, "short": ctypes.c_short, "short int": ctypes.c_short,
    "unsigned short": ctypes.c_ushort, "unsigned short int": ctypes.c_ushort, "int": ctypes.c_int,
    "unsigned": ctypes.c_uint, "unsigned int": ctypes.c_uint, "long": ctypes.c_long, "long int": ctypes.c_long,
    "unsigned long": ctypes.c_ulong, "unsigned long int": ctypes.c_ulong, "long long": ctypes.c_longlong,
    "long long int": ctypes.c_longlong, "unsigned long long": ctypes.c_ulonglong,
    "unsigned long long int": ctypes.c_ulonglong, "float": ctypes.c_float, "double": ctypes.c_double,
    "long double": ctypes.c_longdouble, "uint8_t": ctypes.c_uint8, "int8_t": ctypes.c_int8,
    "uint16_t": ctypes.c_uint16, "int16_t": ctypes.c_int16, "uint32_t": ctypes.c_uint32, "int32_t": ctypes.c_int32,
    "uint64_t": ctypes.c_uint64, "int64_t": ctypes.c_int64, "size_t": ctypes.c_size_t, "ssize_t": ctypes.c_ssize_t,
}
if sys.version_info >= (3, 12):
    STANDARD["time_t"] = ctypes.c_time_t
BASE = [
    "char", "wchar", "wchar_t", "bool", "void", "int", "float", "double", "int8_t", "uint8_t", "int16_t", "uint16_t",
    "int32_t", "uint32_t", "int64_t", "uint64_t", "size_t", "ssize_t",
]


def flags(E):
    a, b = bool(E.choose(2)), bool(E.choose(2))
    E.set_class_attr(CParser, "_init", a)
    E.set_class_attr(CLibrary, "_init", b)
    return a or b


def arguments(E):
    types = None if E.choose(2) else symdict(E, "types", iterable=True)
    mods = None if E.choose(2) else mlist(E, "mods", fn_elem(E, "mod", "str"))
    return types, mods


def keyseq(E, d):
    return () if d is None else E.iter_segs(d)


def initialise(E):
    """init: both parts are initialised with the arguments, once."""
    done = flags(E)
    types, mods = arguments(E)
    before = [None if x is None else content(x) for x in (types, mods)]
    calls = MList(E)

    def cparser(E, a, k):
        a = list(a) + [k[n] for n in ("extra_types", "extra_modifiers") if n in k]
        calls.d["c"] = calls.d["c"] + (Item(("parser", E.mk_tuple(E.iter_segs(a[0])), E.mk_tuple(E.iter_segs(a[1])))),)

    def libs(E, a, k):
        d = MDict(E)
        d.d["c"] = content(E.resolve(a[0]))
        # the backend may change the dict it is given
        E.dict_set(E.resolve(a[0]), E.fresh("added", "str"), E.fresh("class"))
        calls.d["c"] = calls.d["c"] + (Item(("backend", d)),)

    E.contract(c_parser._init_cparser, cparser)
    E.contract(init_libraries, libs)
    got = outcome(E, lambda: E.call(E.wrap(init_mod.init), [], dict(extra_types=types, extra_modifiers=mods)))
    cs = [E.resolve(s.v) for s in calls.d["c"]]
    E.must_reach("done", "first")
    E.reach("done" if done else "first")
    if done:
        E.prove(got[0] == "raise" and got[1].cls is RuntimeError, "init: a second initialisation is refused")
        E.prove(not cs, "init: a second initialisation changes nothing")
    else:
        E.prove(got[0] == "return", "init: no exception")
        p, b = [c for c in cs if c[0] == "parser"], [c for c in cs if c[0] == "backend"]
        E.prove(len(p) == 1 and len(b) == 1, "init: parser and backend are initialised once")
        if len(p) == 1 and len(b) == 1:
            E.prove_segs_eq(E.iter_segs(p[0][1]), keyseq(E, types), "init: the parser gets every extra type")
            E.prove_segs_eq(E.iter_segs(p[0][2]), () if mods is None else content(mods), "init: the parser gets every extra modifier")
            n = E.fresh("n", "str")
            w = (False, None) if types is None else E.dict_get(types, n)
            g = E.dict_get(b[0][1], n)
            E.prove(w[0] == g[0], "init: the backend gets the extra types, and nothing else")
            if w[0] and g[0]:
                E.prove_eq(g[1], w[1], "init: the backend gets the classes of the extra types")
        for c in (CParser, CLibrary):
            E.prove(E.truth(E.getattr(c, "_init")), "init: initialisation is recorded")
    for x, b in zip((types, mods), before):
        if x is not None:
            unchanged(E, x, b, "init: arguments are not modified")


def automatic(E):
    """auto_init: init with the arguments, completed on windows."""
    flags(E)
    types, mods = arguments(E)
    win = E.choose(4)
    os = (None, "win32", "linux2", "darwin")[win]
    before = [None if x is None else content(x) for x in (types, mods)]
    calls = MList(E)

    def rec(E, a, k):
        a = list(a) + [k[n] for n in ("extra_types", "extra_modifiers") if n in k]
        d = MDict(E)
        if a and a[0] is not None:
            d.d["c"] = content(E.resolve(a[0]))
            E.dict_set(E.resolve(a[0]), E.fresh("added", "str"), E.fresh("class"))
        calls.d["c"] = calls.d["c"] + (Item((d, E.mk_tuple(E.iter_segs(a[1])) if len(a) > 1 and a[1] is not None else ())),)
        if E.choose(2):
            E.py_raise(RuntimeError, "once")

    E.contract(init_mod.init, rec)
    got = outcome(E, lambda: E.call(E.wrap(init_mod.auto_init), [], dict(extra_types=types, extra_modifiers=mods, os=os)))
    cs = [E.resolve(s.v) for s in calls.d["c"]]
    E.prove(got[0] == "return" or got[1].cls is RuntimeError, "auto_init: no other exception")
    E.prove(len(cs) == 1, "auto_init: initialises once")
    if len(cs) == 1:
        d, m = cs[0]
        extra = init_mod.WIN_TYPES if os == "win32" else {}
        n = E.fresh("n", "str")
        w = (False, None) if types is None else E.dict_get(types, n)
        g = E.dict_get(d, n)
        for x, v in extra.items():
            if E.truth(E.py_eq(n, x)):
                w = (True, v)
        E.prove(w[0] == g[0], "auto_init: extra types")
        if w[0] and g[0]:
            E.prove_eq(g[1], w[1], "auto_init: classes of the extra types")
        want = () if mods is None else content(mods)
        if os == "win32":
            want = tuple(want) + tuple(Item(x) for x in init_mod.WIN_MODIFIERS)
        E.prove_segs_eq(E.iter_segs(m), want, "auto_init: modifiers")
    for x, b in zip((types, mods), before):
        if x is not None:
            unchanged(E, x, b, "auto_init: arguments are not modified")
    E.prove_eq(E.wrap(init_mod.WIN_MODIFIERS), E.wrap(list(init_mod.WIN_MODIFIERS)), "auto_init: WIN_MODIFIERS is unchanged")


def run_parser(E):
    grammar.install(E)

    def kwl(E, a, k):
        # a matcher of exactly these words
        return grammar.g(E, "words", E.mk_tuple(E.iter_segs(a[0])))

    E.contract(c_parser.kwl, kwl)
    types = None if E.choose(2) else mlist(E, "types", fn_elem(E, "type", "str"))
    mods = None if E.choose(2) else mlist(E, "mods", fn_elem(E, "mod", "str"))
    before = [None if x is None else content(x) for x in (types, mods)]
    got = outcome(E, lambda: E.call(E.wrap(c_parser._init_cparser), [types, mods], {}))
    E.prove(got[0] == "return", "_init_cparser: no exception")
    for x, b in zip((types, mods), before):
        if x is not None:
            unchanged(E, x, b, "_init_cparser: arguments are not modified")
    return types, mods


def words(E, o):
    return [x.data[1][0] for x in grammar.parts(E, o).values() if x.data[0] == "words"]


def parser(E):
    """The parser knows standard and extra types as base types."""
    types, mods = run_parser(E)
    want = [Item(x) for x in BASE + (["time_t"] if sys.version_info >= (3, 12) else [])]
    extra = () if types is None else content(types)
    for label, v in (
        ("the list of base types", E.get_global(c_parser, "base_types")),
        ("the words accepted as types", [w for w in words(E, E.get_global(c_parser, "fund_type"))]),
    ):
        if isinstance(v, list):
            E.prove(len(v) == 1, "_init_cparser: one list of words for types")
            v = v[0]
        for x in want:
            E.prove(E.truth(E.contains(v, x.v)), "_init_cparser: %s keeps the standard types" % label)
        if types is not None:
            n = E.rope_len(extra)
            j = E.fresh_t("j", INT)
            E.assume(z3.And(j >= 0, j < n))
            E.prove(E.truth(E.contains(v, E.nth(extra, SV(j, "int")))), "_init_cparser: %s has every extra type" % label)
    el = E.get_global(c_parser, "extra_type_list")
    E.prove_segs_eq(E.iter_segs(el), extra, "_init_cparser: extra types are recorded")


def modifiers(E):
    """The parser skips extra modifiers in type specifications."""
    types, mods = run_parser(E)
    if mods is None:
        return
    em = E.get_global(c_parser, "extra_modifier")
    n = E.rope_len(content(mods))
    if not E.decide(n > 0):
        return
    ws = words(E, em)
    E.prove(len(ws) == 1, "_init_cparser: modifiers are matched by one list of words")
    if len(ws) == 1:
        j = E.fresh_t("j", INT)
        E.assume(z3.And(j >= 0, j < n))
        E.prove(E.truth(E.contains(ws[0], E.nth(content(mods), SV(j, "int")))), "_init_cparser: every extra modifier is matched")


def types(E):
    """The backend knows standard and extra types."""
    extra = symdict(E, "extra", iterable=False)
    n = E.fresh("n", "str")
    given = E.dict_get(extra, n)
    got = outcome(E, lambda: E.call(E.wrap(init_libraries), [extra], {}))
    E.prove(got[0] == "return", "init_libraries: no exception")
    tab = E.getattr(CTypesCLibrary, "_types_")
    r = E.dict_get(tab, n)
    if given[0]:
        E.prove(r[0], "backend: every extra type is known")
        if r[0]:
            E.prove_eq(r[1], given[1], "backend: extra types have the class given")
        return
    std = dict(STANDARD)
    for k in std:
        if E.truth(E.py_eq(n, k)):
            E.prove(r[0], "backend: standard types are kept")
            if r[0]:
                E.prove_eq(r[1], std[k], "backend: class of a standard type")
            return
