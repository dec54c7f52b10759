"""Random types against the class they denote, computed independently."""
import copy
import ctypes as ct

from oracles.lib import Raises
from oracles.fake import library

BASES = {
    "char": ct.c_char, "wchar_t": ct.c_wchar, "void": None, "int": ct.c_int, "unsigned int": ct.c_uint, "short": ct.c_short, "unsigned char": ct.c_ubyte,
    "long": ct.c_long, "unsigned long": ct.c_ulong, "long long": ct.c_longlong, "unsigned long long": ct.c_ulonglong, "float": ct.c_float,
    "double": ct.c_double, "long double": ct.c_longdouble, "uint8_t": ct.c_uint8, "int16_t": ct.c_int16, "size_t": ct.c_size_t,
    "unsigned short": ct.c_ushort, "int64_t": ct.c_int64, "enum E0": ct.c_int,
}
PTR = {"char": ct.c_char_p, "wchar_t": ct.c_wchar_p, "wchar": ct.c_wchar_p, "void": ct.c_void_p}


class Bad(Exception):
    pass


def flat(spec, mods, tab):
    while spec in tab:
        spec, inner = tab[spec]
        mods = inner + mods
    return spec, mods


def denote(lib, spec, mods, tab):
    spec, mods = flat(spec, mods, tab)
    mods = list(mods)
    if spec in PTR and mods[:1] == ["*"]:
        cls = PTR[spec]
        mods.pop(0)
    elif spec in BASES:
        cls = BASES[spec]
    elif spec.startswith("struct "):
        cls = lib("structs", spec[7:])
    elif spec.startswith("union "):
        cls = lib("unions", spec[6:])
    else:
        raise Bad()
    while mods:
        m = mods.pop(0)
        if isinstance(m, str):
            for _ in m:
                cls = ct.POINTER(cls)
        elif isinstance(m, list):
            run = list(m)
            while mods and isinstance(mods[0], list):
                run += mods.pop(0)
            for d in reversed(run):
                if d == -1:
                    cls = ct.POINTER(cls)
                elif cls is None:
                    raise Bad()
                else:
                    cls = cls * d
        else:
            if not mods or mods[0] != "*":
                raise Bad()
            mods.pop(0)
            args = [denote(lib, a, am, tab) for a, am in m if (a, am) != ("void", [])]
            cls = ct.CFUNCTYPE(cls, *args)
    return cls


def gen_mods(rng, depth, spec, tab):
    """Modifiers that C allows after spec."""
    out = []
    for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 4, 6])):
        prev = out[-1] if out else flat(spec, [], tab)[1][-1:] and flat(spec, [], tab)[1][-1]
        r = rng.random()
        if r < 0.45:
            out.append("*")
        elif r < 0.8:
            if isinstance(prev, tuple):
                continue
            out.append([rng.choice([-1, 0, 1, 2, 3, 5, 7])])
        elif r < 0.97 and depth < 2:
            if isinstance(prev, tuple):
                continue
            args = []
            for _ in range(rng.choice([0, 1, 2, 3, 5])):
                a = pick(rng, tab)
                args.append((a, gen_mods(rng, depth + 1, a, tab)))
            if rng.random() < 0.2:
                args = [("void", [])]
            out.append(tuple(args))
            out.append("*")
    return out


def pick(rng, tab):
    r = rng.random()
    if r < 0.25 and tab:
        return rng.choice(list(tab))
    if r < 0.4:
        return rng.choice(["char", "void", "wchar_t"])
    if r < 0.5:
        return rng.choice(["struct S0", "union U0"])
    return rng.choice(list(BASES))


def to_type(Type, spec, mods, rng):
    ms = []
    for m in mods:
        if isinstance(m, tuple):
            ms.append(tuple((rng.choice([None, "a%d" % k]), to_type(Type, a, am, rng), None) for k, (a, am) in enumerate(m)))
        else:
            ms.append(list(m) if isinstance(m, list) else m)
    return Type(spec, *ms)


HEADER = "enum E0 {ea, eb};\nstruct S0 {int a; struct S0 *next;};\nunion U0 {int i; float f;};\nint f0(int a);\n"
FIXED = [
    ("int", ["*", [3]], lambda: ct.POINTER(ct.c_int) * 3),
    ("int", [[3], "*"], lambda: ct.POINTER(ct.c_int * 3)),
    ("int", [[2], [3]], lambda: ct.c_int * 3 * 2),
    ("int", [[2], [3], [4], "*", [5], [6]], lambda: ct.POINTER(ct.c_int * 4 * 3 * 2) * 6 * 5),
    ("int", [[-1], [3]], lambda: ct.POINTER(ct.c_int * 3)),
    ("char", ["*"], lambda: ct.c_char_p),
    ("char", ["*", "*"], lambda: ct.POINTER(ct.c_char_p)),
    ("char", [[-1]], lambda: ct.POINTER(ct.c_char)),
    ("char", [[4], "*"], lambda: ct.POINTER(ct.c_char * 4)),
    ("char", ["&"], lambda: ct.POINTER(ct.c_char)),
    ("int", ["&"], lambda: ct.POINTER(ct.c_int)),
    ("int", ["*", "&"], lambda: ct.POINTER(ct.POINTER(ct.c_int))),
    ("int", ["**"], lambda: ct.POINTER(ct.POINTER(ct.c_int))),
    ("double", [[2, 3], [4]], lambda: ct.c_double * 4 * 3 * 2),
    ("wchar_t", ["*", [2]], lambda: ct.c_wchar_p * 2),
    ("void", ["*", "*", "*"], lambda: ct.POINTER(ct.POINTER(ct.c_void_p))),
    ("void", [(), "*"], lambda: ct.CFUNCTYPE(None)),
    ("void", [(("void", []),), "*"], lambda: ct.CFUNCTYPE(None)),
    ("int", [(("void", ["*"]),), "*"], lambda: ct.CFUNCTYPE(ct.c_int, ct.c_void_p)),
    ("int", [(("int", []), ("char", ["*"])), "*", "*"], lambda: ct.POINTER(ct.CFUNCTYPE(ct.c_int, ct.c_int, ct.c_char_p))),
    ("int", [(("int", []),), "*", [4]], lambda: ct.CFUNCTYPE(ct.c_int, ct.c_int) * 4),
    ("int", [(("int", []),), "__cdecl", "*"], lambda: ct.CFUNCTYPE(ct.c_int, ct.c_int)),
    ("int", [(("int", []),), "*", (("double", []),), "*"], lambda: ct.CFUNCTYPE(ct.CFUNCTYPE(ct.c_int, ct.c_int), ct.c_double)),
    ("int", [(("int", []),)], None),
    ("int", [(("int", []),), [3]], None),
    ("void", [[3]], None),
    ("nosuch_t", [], None),
    ("nosuch_t", ["*"], None),
    ("int", [(("nosuch_t", []),), "*"], None),
    ("int", [(), "__stdcall", "*"], None),
]


def run(o):
    from pyclibrary import build_array
    from pyclibrary.c_parser import Type

    rng = o.rng
    lib, dll = library(o, HEADER)
    hp = lib._headers_
    for k, (spec, mods, want) in enumerate(FIXED):
        name = "fixed%d" % k
        hp.add_def("types", name, to_type(Type, spec, mods, rng))
        for _ in range(2):
            o.eq("type %s %r" % (spec, mods), lambda: lib("types", name), want() if want else Raises(Exception), lambda a, b: a is b)
    for dims, vals in [((3,), [1, 2]), (4, None), ((2, 3), None), ((2, 3, 4), None), ((1, 5), [(1, 2, 3, 4, 5)])]:
        for typ, c in (("int", ct.c_int), (ct.c_double, ct.c_double), ("struct S0", lib("structs", "S0")), ("enum E0", ct.c_int)):
            if vals and not isinstance(typ, type) and typ.startswith("struct"):
                continue

            def arr():
                a = build_array(lib, typ, dims, vals) if vals else build_array(lib, typ, dims)
                t = c
                for d in reversed(dims if isinstance(dims, tuple) else (dims,)):
                    t = t * d
                if type(a) is not t:
                    return "class %r" % type(a)
                if vals and isinstance(vals[0], int):
                    return list(a)[: len(vals)] == vals and list(a)[len(vals):] == [0] * (t._length_ - len(vals))
                if vals:
                    return list(a[0]) == list(vals[0])
                return bytes(a) == bytes(ct.sizeof(t))

            o.eq("build_array %r %r %r" % (typ, dims, vals), arr, True)
    for rnd in range(o.scale(600, 8000)):
        lib, dll = library(o, HEADER)
        hp = lib._headers_
        tab, names = {}, []
        for k in range(rng.choice([4, 10, 20])):
            spec = pick(rng, tab)
            mods = gen_mods(rng, 0, spec, tab)
            if rng.random() < 0.05:
                # not representable
                mods.append(tuple([("int", [])]))
                spec = rng.choice([spec, "nosuch_t"])
            name = "t%d" % k
            tab[name] = (spec, mods)
            names.append(name)
            hp.add_def("types", name, to_type(Type, spec, mods, rng))
        text = repr(tab)
        before = repr({k: dict(hp.defs[k]) for k in hp.data_list if k != "fnmacros"})
        want = {}

        def expected(name):
            if name not in want:
                try:
                    want[name] = (denote(lib, name, [], tab),)
                except Exception:
                    want[name] = None
            return want[name]

        def asks():
            for _ in range(3 * len(names)):
                name = rng.choice(names)
                e = expected(name)
                way = rng.randrange(2)
                try:
                    got = (lib("types", name) if way == 0 else getattr(lib, name),)
                except Exception as x:
                    # classes that are None cannot be told from unknown names
                    if e is None or e == (None,) and way == 1:
                        continue
                    return "%s: %s %s" % (name, type(x).__name__, x)
                if e is None:
                    return "%s: %r for a type that cannot be represented" % (name, got[0])
                if got[0] is not e[0]:
                    return "%s: %r, not %r" % (name, got[0], e[0])
            return "ok"

        o.eq(text, asks, "ok")
        o.eq(text + " definitions", lambda: repr({k: dict(hp.defs[k]) for k in hp.data_list if k != "fnmacros"}), before)
        # result and arguments of functions
        n = rng.randint(0, 6)
        ns = [rng.choice(names) for _ in range(n + 1)]
        es = [expected(x) for x in ns]
        if all(e is not None for e in es) and not any(e == (None,) for e in es[1:]):
            hp.add_def("functions", "g", Type(Type(ns[0]), tuple(("p%d" % k, Type(x), None) for k, x in enumerate(ns[1:]))))

            def sig():
                f = lib.g
                return [f.res_type] + list(f.arg_types), [dll.funcs["g"].restype] + list(dll.funcs["g"].argtypes)

            exp = [e[0] for e in es]
            o.eq(text + " function of %r" % ns, sig, (exp, exp), lambda a, b: all(x is y for l in a for x, y in zip(l, exp)) and all(len(l) == len(exp) for l in a))
