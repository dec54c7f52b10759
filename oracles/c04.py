"""Calls of wrapped functions with every small combination of arguments."""
import ctypes as ct
import itertools

from oracles.lib import Raises
from oracles.fake import library, parser
from pyclibrary import CLibrary

PRE = """
typedef int *pint;
typedef pint *ppint;
typedef struct pt { int x; int y; } pt;
typedef double real;
typedef char byte8;
"""

# C text with %s for the name, auto pointer class (or None), is a pointer
I, D, C = ct.c_int, ct.c_double, ct.c_char
P = ct.POINTER
TYPES = [
    ("int %s", None, None, I),
    ("double %s", None, None, D),
    ("real %s", None, None, D),
    ("int *%s", P(I), P(I), P(I)),
    ("double **%s", P(P(D)), P(P(D)), P(P(D))),
    ("pint %s", P(I), P(I), P(I)),
    ("ppint %s", P(P(I)), P(P(I)), P(P(I))),
    ("pint *%s", P(P(I)), P(P(I)), P(P(I))),
    ("void *%s", P(ct.c_void_p), ct.c_void_p, ct.c_void_p),
    ("void **%s", P(ct.c_void_p), P(ct.c_void_p), P(ct.c_void_p)),
    ("char **%s", P(ct.c_char_p), P(ct.c_char_p), P(ct.c_char_p)),
    ("const unsigned short *%s", P(ct.c_ushort), P(ct.c_ushort), P(ct.c_ushort)),
    ("int ***%s", None, P(P(P(I))), P(P(P(I)))),
    ("double %s[]", None, P(D), P(D)),
    ("int %s[3]", None, "skip", I * 3),
    ("int (*%s)(int)", None, "fn", ct.CFUNCTYPE(I, I)),
]
GIVE, NONE, OMIT = "give", "None", "omit"


def null_ok(x, cls):
    if cls == "fn":
        return isinstance(x, ct._CFuncPtr) and not x
    if cls is ct.c_void_p:
        return isinstance(x, ct.c_void_p) and x.value is None
    return type(x) is cls and not x


def check(o, label, lib, dll, fname, types, pos, kw, res):
    """Call with positional values pos and keywords kw (dict of position)."""
    f = dll.funcs.get(fname)
    before = len(f.calls) if f else 0
    n = len(types)
    # expected
    vals = {}
    bad = False
    for i, v in enumerate(pos):
        vals[i] = v
    for i, v in kw.items():
        vals[i] = v
    plan = []
    for i in range(max(n, len(pos))):
        if i >= n:
            plan.append(("v", vals[i]))
        elif i in vals and vals[i] is not None:
            plan.append(("v", vals[i]))
        elif i in vals:
            if types[i][2] is None:
                bad = True
            plan.append(("null", types[i][2]))
        else:
            if types[i][1] is None:
                bad = True
            plan.append(("auto", types[i][1]))

    def go():
        w = getattr(lib, fname)
        ff = dll.funcs[fname]
        ff.calls.clear()
        ff.behave = lambda *a: res
        try:
            r = w(*pos, **{"a%d" % i: v for i, v in kw.items()})
        except TypeError:
            return "TypeError", len(ff.calls)
        if len(ff.calls) != 1:
            return "calls", len(ff.calls)
        args, k = ff.calls[0]
        out = []
        if k:
            return "keywords", k
        if len(args) != len(plan):
            return "arguments", len(args)
        for (what, x), a in zip(plan, args):
            if what == "v":
                out.append("ok" if a is x else "%r for %r" % (a, x))
            elif what == "null":
                out.append("ok" if null_ok(a, x) else "%r for NULL of %r" % (a, x))
            else:
                good = type(a) is x and bool(a)
                out.append("ok" if good else "%r for new %r" % (a, x))
        for j, (what, x) in enumerate(plan):
            if what == "auto" and any(args[j] is args[k] for k in range(len(args)) if k != j):
                out.append("shared pointer")
        if r.rval is not res:
            out.append("rval")
        if list(r.args) != list(args) or any(p is not q for p, q in zip(r.args, args)):
            out.append("args")
        return [x for x in out if x != "ok"]

    want = ("TypeError", 0) if bad else []
    o.eq(label, go, want)


def run(o):
    rng = o.rng
    res = object()
    nfun = 0
    pending = []

    def sigs():
        for t in TYPES:
            yield [t]
        for a in TYPES[:10]:
            yield [a, TYPES[0]]
            yield [TYPES[3], a]
        for _ in range(o.scale(120, 1200)):
            yield [rng.choice(TYPES) for _ in range(rng.randint(0, 6))]

    batch = list(sigs())
    for start in range(0, len(batch), 20):
        part = batch[start : start + 20]
        text = PRE
        for j, types in enumerate(part):
            args = ", ".join(t[0] % ("a%d" % i) for i, t in enumerate(types)) or rng.choice(["void", ""])
            conv = rng.choice(["", "", "", "__stdcall ", "__cdecl "])
            text += "int %sf%d(%s);\n" % (conv, j, args)
        lib, dll = library(o, text)
        for j, types in enumerate(part):
            n = len(types)
            nul = lambda i: types[i][2] != "skip"
            combos = []
            if n <= 2:
                for k in range(n + 1):
                    for modes in itertools.product((GIVE, NONE), repeat=k):
                        for rest in itertools.product((GIVE, NONE, OMIT), repeat=n - k):
                            combos.append((modes, rest))
            else:
                for _ in range(o.scale(8, 25)):
                    k = rng.randint(0, n)
                    w = rng.choice([(GIVE,), (GIVE, NONE), (GIVE, OMIT), (GIVE, NONE, OMIT)])
                    combos.append(
                        (
                            tuple(rng.choice([m for m in w if m != OMIT]) for _ in range(k)),
                            tuple(rng.choice(w) for _ in range(n - k)),
                        )
                    )
                # give what has to be given, so that the call is made
                for _ in range(o.scale(6, 20)):
                    k = rng.randint(0, n)

                    def mode(i, pos):
                        c = [GIVE]
                        if types[i][2] is not None:
                            c.append(NONE)
                        if types[i][1] is not None and not pos:
                            c += [OMIT, OMIT]
                        return rng.choice(c)

                    combos.append(
                        (tuple(mode(i, True) for i in range(k)), tuple(mode(i, False) for i in range(k, n)))
                    )
            for pm, km in combos:
                if any(m == NONE and not nul(i) for i, m in enumerate(pm + km)):
                    continue
                pos = [object() if m == GIVE else None for m in pm]
                kw = {}
                order = [i for i in range(len(pm), n) if km[i - len(pm)] != OMIT]
                rng.shuffle(order)
                for i in order:
                    kw[i] = object() if km[i - len(pm)] == GIVE else None
                label = "int f(%s); positional %s, keywords %s" % (
                    ", ".join(t[0] % ("a%d" % i) for i, t in enumerate(types)),
                    list(pm),
                    {"a%d" % i: ("None" if v is None else "give") for i, v in kw.items()},
                )
                check(o, label, lib, dll, "f%d" % j, types, pos, kw, res)
            # falsy values are values
            for v in (0, 0.0, b"", "", False, ()):
                check(o, "falsy value %r positional, int f%d of %d parameters" % (v, j, n), lib, dll, "f%d" % j, types, [v] * n, {}, res)
                check(o, "falsy value %r by keyword, int f%d of %d parameters" % (v, j, n), lib, dll, "f%d" % j, types, [], {i: v for i in range(n)}, res)

            def unknown():
                w = getattr(lib, "f%d" % j)
                ff = dll.funcs["f%d" % j]
                ff.calls.clear()
                try:
                    w(*[object()] * n, nosuch=1)
                except TypeError:
                    return len(ff.calls)
                return "accepted"

            o.eq("unknown keyword for f(%s)" % ", ".join(t[0] % "x" for t in types), unknown, 0)
            # more values than parameters
            check(o, "more values than parameters %d" % n, lib, dll, "f%d" % j, types, [object() for _ in range(n + 2)], {}, res)
        # the declared types are handed to the C function
        for j, types in enumerate(part):

            def decl():
                getattr(lib, "f%d" % j)
                ff = dll.funcs["f%d" % j]
                return list(ff.argtypes), ff.restype

            want = [t[3] for t in types]
            o.eq(
                "argtypes of f(%s)" % ", ".join(t[0] % "x" for t in types),
                decl,
                (want, I),
            )

    # the arguments reach real C code
    calls(o)


def calls(o):
    import os, subprocess

    d = o.dir("real")
    src = os.path.join(d, "real.c")
    open(src, "w").write(
        """
#include <stddef.h>
typedef struct pt { int x; int y; } pt;
int add(int a, int b, int *sum, double *half){ *sum = a + b; *half = (a - b) / 2.0; return a * 1000 + b; }
int isnull(int *a, void *b, pt *c){ return (a == NULL) + 2 * (b == NULL) + 4 * (c == NULL); }
int swap(pt *p, pt **q){ int t = p->x; p->x = p->y; p->y = t; *q = p; return t; }
double none(void){ return 2.5; }
"""
    )
    so = os.path.join(d, "libreal.so")
    r = subprocess.run(["gcc", "-shared", "-fPIC", "-o", so, src], capture_output=True)
    if r.returncode:
        return
    p = parser(
        o,
        """
typedef struct pt { int x; int y; } pt;
int add(int a, int b, int *sum, double *half);
int isnull(int *a, void *b, pt *c);
int swap(pt *p, pt **q);
double none(void);
""",
    )
    lib = CLibrary(so, p)
    for a, b in [(1, 2), (-5, 7), (100, 3)]:
        for call in (lambda: lib.add(a, b), lambda: lib.add(b=b, a=a), lambda: lib.add(a, b=b)):

            def go():
                r = call()
                ret, args = r
                return ret, tuple(args), r["sum"], r["half"], r.auto()

            o.eq(
                "compiled add(%d, %d)" % (a, b),
                go,
                (a * 1000 + b, (a, b, a + b, (a - b) / 2.0), a + b, (a - b) / 2.0, [a + b, (a - b) / 2.0]),
            )
    o.eq("compiled isnull(None, None, None)", lambda: lib.isnull(None, None, None)(), 7)
    o.eq("compiled isnull(a=None)", lambda: lib.isnull(a=None)(), 1)
    o.eq("compiled isnull(c=None)", lambda: lib.isnull(c=None)(), 4)
    o.eq("compiled isnull()", lambda: lib.isnull()(), 0)
    o.eq("compiled none()", lambda: lib.none()(), 2.5)
