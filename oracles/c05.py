"""Results of calls: every position, name, automatic pointer."""
import ctypes as ct
import itertools

from oracles.lib import Raises
from oracles.fake import library

TYPES = [
    ("int %s", False, lambda r: r.choice([7, ct.c_int(5), -1])),
    ("double %s", False, lambda r: r.choice([1.5, ct.c_double(2.25)])),
    ("int *%s", True, lambda r: ct.pointer(ct.c_int(11))),
    ("double *%s", True, lambda r: ct.pointer(ct.c_double(0.5))),
    ("unsigned short *%s", True, lambda r: ct.pointer(ct.c_ushort(3))),
    ("int **%s", True, lambda r: ct.pointer(ct.pointer(ct.c_int(4)))),
    ("void **%s", True, lambda r: ct.pointer(ct.c_void_p(8))),
    ("char *%s", False, lambda r: r.choice([b"abc", ct.c_char_p(b"xyz")])),
]
RETS = [
    ("int", [3, -2, 0]),
    ("double", [1.5, 0.0]),
    ("char *", [b"hello", None]),
    ("int *", ["ptr"]),
    ("void", [None]),
    ("void *", [1234, ct.c_void_p(77)]),
]


def val(x):
    return x.value if hasattr(x, "value") else x


def alike(a, b):
    if isinstance(a, ct._Pointer) and isinstance(b, ct._Pointer):
        return bool(a) == bool(b) and (not a or ct.addressof(a.contents) == ct.addressof(b.contents))
    return a is b or (type(a) is type(b) and a == b)


def run(o):
    rng = o.rng
    for rnd in range(o.scale(60, 800)):
        funs = []
        text = ""
        for j in range(10):
            n = rng.randint(0, 6) if rng.random() < 0.9 else rng.randint(9, 24)
            types = [rng.choice(TYPES) for _ in range(n)]
            ret, vals = rng.choice(RETS)
            names = ["p%d" % i for i in range(n)]
            rng.shuffle(names)
            funs.append((types, ret, vals, names))
            text += "%s f%d(%s);\n" % (ret, j, ", ".join(t[0] % nm for t, nm in zip(types, names)))
        lib, dll = library(o, text)
        for j, (types, ret, vals, names) in enumerate(funs):
            n = len(types)
            given = {}
            auto = []
            for i in range(n):
                if types[i][1] and rng.random() < 0.6:
                    auto.append(i)
                else:
                    given[i] = types[i][2](rng)
            rv = rng.choice(vals)
            if rv == "ptr":
                rv = ct.pointer(ct.c_int(9))
            label = "%s f(%s) auto %s returning %r" % (ret, ", ".join(t[0] % nm for t, nm in zip(types, names)), auto, rv)

            def behave(*args):
                # the C function writes through the pointers
                for i in auto:
                    if isinstance(args[i][0], int):
                        args[i][0] = 40 + i
                return rv

            def call():
                w = getattr(lib, "f%d" % j)
                dll.funcs["f%d" % j].behave = behave
                k = 0
                while k in given:
                    k += 1
                k = rng.randint(0, k)
                return w(*[given[i] for i in range(k)], **{names[i]: given[i] for i in given if i >= k})

            kind, r = o.outcome(call)
            if kind != "ok":
                o.eq(label, call, None, cmp=lambda a, b: True)
                continue
            passed = list(dll.funcs["f%d" % j].calls[-1][0])
            want = [val(a[0]) if i in auto else val(a) for i, a in enumerate(passed)]
            o.eq(label + ": return value", lambda: r(), val(rv), cmp=alike)
            for i in range(n):
                o.eq(label + ": [%d]" % i, lambda: r[i], want[i], cmp=alike)
                o.eq(label + ": [%r]" % names[i], lambda: r[names[i]], want[i], cmp=alike)
            lst = lambda a, b: len(a) == len(b) and all(alike(x, y) for x, y in zip(a, b))
            o.eq(label + ": auto()", lambda: list(r.auto()), [want[i] for i in auto], cmp=lst)

            def unpack():
                a, b = r
                return [a] + list(b)

            o.eq(label + ": unpacking", unpack, [val(rv)] + want, cmp=lst)
            o.eq(label + ": unpacking again", unpack, [val(rv)] + want, cmp=lst)
            o.eq(label + ": unknown name", lambda: r["nosuch"], Raises(KeyError))
            for bad in (1.0, None, (0,), b"p0"):
                o.eq(label + ": [%r]" % (bad,), lambda: r[bad], Raises(ValueError))

                def setbad():
                    r[bad] = 1

                o.eq(label + ": [%r] = 1" % (bad,), setbad, Raises(ValueError))

            def setno():
                r["nosuch"] = 1

            o.eq(label + ": unknown name set", setno, Raises(KeyError))
            o.eq(label + ": position out of range", lambda: r[n], Raises(IndexError))
            # replacement
            for i in range(n):
                new = ct.pointer(ct.c_int(100 + i)) if i in auto else ct.c_int(200 + i)
                key = rng.choice([i, names[i]])

                def put():
                    r[key] = new
                    want[i] = 100 + i if i in auto else 200 + i
                    return [r[q] for q in range(n)] + [list(r.auto())] + [r()] + [r.args[i] is new]

                want2 = list(want)
                want2[i] = 100 + i if i in auto else 200 + i

                def cmp(a, b):
                    return (
                        lst(a[:n], b[:n])
                        and lst(a[n], b[n])
                        and alike(a[n + 1], b[n + 1])
                        and a[n + 2]
                    )

                o.eq(
                    label + ": replace %r" % (key,),
                    put,
                    want2 + [[want2[q] for q in auto], val(rv), True],
                    cmp=cmp,
                )
                want = want2
