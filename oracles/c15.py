"""Caches: which are used, and what they restore."""
import copy
import os
import pickle

from oracles.lib import Raises
from pyclibrary import CParser
from pyclibrary.c_parser import Type

A = """
#define N 3
#define SQ(x) ((x)*(x))
#pragma pack(push, 2)
typedef const struct s_ { int a; char b[N]; struct s_ *next; } s, *sp;
#pragma pack(pop)
union u { int i; double d; };
enum e { E0, E1 = 5, E2 };
typedef unsigned int (*fp)(const char *, volatile sp);
const char * const name = "abc";
int f(s *x, fp cb, int n = 3);
static const int arr[2][N];
"""
B = """
#undef N
#define N 7
#define M (N + %d)
struct s2 { s x; unsigned f : 3; };
enum { ANON = M };
double g%d(void);
int v = %d;
"""


def canon(x):
    """Everything that matters in a definition."""
    if isinstance(x, Type):
        return ("Type",) + tuple(canon(y) for y in tuple(x)) + (canon(x.type_quals),)
    if isinstance(x, dict):
        return (type(x).__name__, sorted(((repr(k), canon(v)) for k, v in x.items())))
    if isinstance(x, (list, tuple)) and type(x) in (list, tuple):
        return (type(x).__name__,) + tuple(canon(y) for y in x)
    if isinstance(x, tuple):
        return (type(x).__name__,) + tuple(canon(y) for y in x)
    if callable(x):
        return "callable"
    return repr(x)


def defs(p):
    return canon(p.defs), canon(p.file_defs)


class World:
    def __init__(self, o, name):
        self.d = o.dir("c15_" + name)
        self.paths = [os.path.join(self.d, n) for n in ("a.h", "b.h", "c.h")]
        self.cache = os.path.join(self.d, "x.cache")
        self.other = os.path.join(self.d, "other.h")
        with open(self.other, "w") as f:
            f.write("#define COPIED 1\nint copied(void);\n")
        self.write(0)

    def write(self, n, mtime=1000):
        texts = [A, B % (n, n, n), "#define C%d %d\nstruct s_ w%d;\n#undef GONE\n" % (n, n, n)]
        for p, t in zip(self.paths, texts):
            with open(p, "w", encoding="latin-1") as f:
                f.write(t)
            os.utime(p, (mtime, mtime))

    def age(self, t):
        os.utime(self.cache, (t, t))


def options(w):
    """(name, keyword arguments) of different parsers."""
    src = CParser([w.other])
    src2 = CParser([w.other], macros={"K": "2"})
    return [
        ("plain", {}),
        ("replace", dict(replace={"double": "float"})),
        ("replace2", dict(replace={"double": "long"})),
        ("replace3", dict(replace={"double": "float", "volatile": ""})),
        ("encoding", dict(encoding="latin-1")),
        ("encoding2", dict(encoding="cp1252")),
        ("macros", dict(macros={"GONE": "4", "KEPT": "5"}, values={"KEPT": 5})),
        ("macros2", dict(macros={"GONE": "4"})),
        ("types", dict(types={"T": Type("int", "*")})),
        ("types2", dict(types={"T": Type("int", "*", type_quals=(("const",), ()))})),
        ("copy", dict(copy_from=src)),
        ("copies", dict(copy_from=[src, src2])),
        ("copies2", dict(copy_from=[src2, src])),
        ("copy2", dict(copy_from=[src2])),
    ]


def run(o):
    validity(o)
    restored(o)
    crossed(o)
    damaged(o)
    missing(o)
    rewritten(o)
    orders(o)


def fresh(w, files, kw):
    return defs(CParser(files, **kw))


def restored(o):
    """A restored parser has the definitions of the one that wrote."""
    w = World(o, "restored")
    for name, kw in options(w):
        for files in (w.paths, w.paths[:1], w.paths[:2], w.paths[::-1] if name == "plain" else w.paths, [w.paths[0], w.paths[1], w.paths[0]]):
            def go():
                w.write(0)
                if os.path.exists(w.cache):
                    os.remove(w.cache)
                a = CParser(files, cache=w.cache, **kw)
                want = fresh(w, files, kw)
                w.write(1)  # not parsed: the cache is newer
                b = CParser(files, cache=w.cache, **kw)
                c = CParser(files, cache=w.cache, check_cache_validity=False, **kw)
                return defs(a) == want, defs(b) == want, canon(c.defs["functions"]) == canon(a.defs["functions"])

            o.eq(("restored", name, [os.path.basename(f) for f in files]), go, (True, True, True))
    # again and again
    def chain():
        w.write(0)
        os.remove(w.cache)
        a = CParser(w.paths, cache=w.cache)
        b = CParser(w.paths, cache=w.cache)
        b.write_cache(w.cache)
        c = CParser(w.paths, cache=w.cache)
        return defs(a) == defs(b) == defs(c)

    o.eq("chain of restored parsers", chain, True)


def validity(o):
    """Ages of the cache and of each header, which may be missing."""
    w = World(o, "validity")
    ages = (900, 1000, 1000.5, 1100)
    for check in (True, False):
        for t in ages:
            for which in range(3):
                for gone in (None, 0, 1, 2):
                    def go():
                        w.write(0, 500)
                        if os.path.exists(w.cache):
                            os.remove(w.cache)
                        CParser(w.paths, cache=w.cache)
                        w.age(1000)
                        w.write(1, 500)
                        os.utime(w.paths[which], (t, t))
                        if gone is not None:
                            os.remove(w.paths[gone])
                        try:
                            p = CParser(w.paths, cache=w.cache, check_cache_validity=check)
                        except IOError:
                            return "missing"
                        finally:
                            if gone is not None:
                                w.write(1, 500)
                        return "cache" if "g0" in p.defs["functions"] else "parsed"

                    valid = not check or t <= 1000 or gone == which
                    want = "cache" if valid else "missing" if gone is not None else "parsed"
                    o.eq(("age", t, "of", which, "gone", gone, "check", check), go, want)


def crossed(o):
    """A cache written with some options is not used with others."""
    w = World(o, "crossed")
    os_ = options(w)
    for name, kw in os_:
        for name2, kw2 in os_:
            if not o.thorough and name != "plain" and name2 != "plain" and o.rng.random() < 0.5:
                continue

            def go():
                w.write(0)
                if os.path.exists(w.cache):
                    os.remove(w.cache)
                CParser(w.paths, cache=w.cache, **kw)
                w.write(1)
                p = CParser(w.paths, cache=w.cache, **kw2)
                want = fresh(w, w.paths, kw2)
                used = "g0" in p.defs["functions"]
                return used, used or defs(p) == want

            o.eq(("written with", name, "used with", name2), go, (name == name2, True))
    for f1 in (w.paths, w.paths[:2], w.paths[1:], [w.paths[1], w.paths[0], w.paths[2]], w.paths + w.paths[:1]):
        for f2 in (w.paths, w.paths[:2], w.paths[1:], [w.paths[1], w.paths[0], w.paths[2]], w.paths + w.paths[:1]):
            def go():
                w.write(0)
                if os.path.exists(w.cache):
                    os.remove(w.cache)
                CParser(f1, cache=w.cache)
                w.write(1)
                p = CParser(f2, cache=w.cache)
                want = fresh(w, f2, {})
                used = "g0" in p.defs["functions"]
                return used, used or defs(p) == want

            o.eq(("files", list(map(os.path.basename, f1)), list(map(os.path.basename, f2))), go, (f1 == f2, True))
    # another version of the format
    for delta in (-1, 1, 100):
        def go():
            w.write(0)
            os.remove(w.cache)
            v = CParser.cache_version
            try:
                CParser.cache_version = v + delta
                CParser(w.paths, cache=w.cache)
            finally:
                CParser.cache_version = v
            w.write(1)
            p = CParser(w.paths, cache=w.cache)
            return "g0" in p.defs["functions"], defs(p) == fresh(w, w.paths, {})

        o.eq(("version", delta), go, (False, True))

    # the directory may change
    def moved():
        w.write(0)
        os.remove(w.cache)
        a = CParser(w.paths, cache=w.cache)
        d = o.dir("moved")
        new = []
        for p in w.paths:
            q = os.path.join(d, os.path.basename(p))
            os.replace(p, q)
            new.append(q)
        p = CParser(new, cache=w.cache)
        w.write(0)
        return canon(p.defs) == canon(a.defs)

    o.eq("headers moved", moved, True)


def damaged(o):
    """Truncated and unreadable caches are ignored."""
    w = World(o, "damaged")
    CParser(w.paths, cache=w.cache)
    good = open(w.cache, "rb").read()
    step = max(1, len(good) // o.scale(60, 600))
    cuts = sorted(set(list(range(0, len(good), step)) + [1, 2, len(good) - 1, len(good) - 2]))
    bad = [("cut", n, good[:n]) for n in cuts]
    bad += [("garbage", 0, b"garbage"), ("text", 0, b"\n\n"), ("zeros", 0, bytes(200)), ("ones", 0, b"\xff" * 200)]
    for x in (None, 3, [], {}, {"opts": {}}, "text", (1, 2), {"version": CParser.cache_version}):
        bad.append(("pickle", repr(x), pickle.dumps(x)))
    full = pickle.loads(good)
    for k in sorted(full):
        d = dict(full)
        del d[k]
        bad.append(("without", k, pickle.dumps(d)))
    bad.append(("unknown class", 0, good.replace(b"pyclibrary.c_parser", b"pyclibrary.c_nowher")))
    want = {}
    for what, n, data in bad:
        for check in (True, False):
            if what == "without" and not check:
                continue

            def go():
                w.write(1, 10**9)
                with open(w.cache, "wb") as f:
                    f.write(data)
                p = CParser(w.paths, cache=w.cache, check_cache_validity=check)
                if not want:
                    want[0] = fresh(w, w.paths, {})
                again = pickle.load(open(w.cache, "rb"))
                return defs(p) == want[0], again.get("version")

            o.eq(("damaged", what, n, "check", check), go, (True, CParser.cache_version))


def missing(o):
    w = World(o, "missing")

    def go(valid, gone, cache, known):
        w.write(0)
        if os.path.exists(w.cache):
            os.remove(w.cache)
        if cache:
            CParser(w.paths, cache=w.cache)
        if not valid:
            w.age(10)
        paths = list(w.paths)
        for g in gone:
            os.remove(paths[g])
        if known == "name":
            paths = [os.path.basename(p) if i in gone else p for i, p in enumerate(paths)]
        try:
            p = CParser(paths, cache=w.cache)
            return canon(p.defs["functions"]) == full
        except IOError:
            return "missing"
        finally:
            w.write(0)

    full = canon(CParser(w.paths).defs["functions"])
    for gone in ((), (0,), (1,), (2,), (0, 1), (0, 2), (0, 1, 2)):
        for known in ("path", "name"):
            o.eq(("missing", gone, known, "valid cache"), lambda: go(True, gone, True, known), True)
            o.eq(("missing", gone, known, "no cache"), lambda: go(True, gone, False, known), "missing" if gone else True)
        # the cache is older than a header that is there
        want = True if not gone else True if len(gone) == 3 else "missing"
        o.eq(("missing", gone, "old cache"), lambda: go(False, gone, True, "path"), want)
    for gone in ((0,), (1,), (2,)):

        def plain():
            w.write(0)
            os.remove(w.paths[gone[0]])
            try:
                CParser(w.paths)
            finally:
                w.write(0)

        o.eq(("missing", gone, "no cache asked"), plain, Raises(IOError))


def rewritten(o):
    """A cache that is not used is written again, one that is used is not."""
    w = World(o, "rewritten")

    def go(change):
        w.write(0)
        if os.path.exists(w.cache):
            os.remove(w.cache)
        CParser(w.paths, cache=w.cache)
        w.write(1)
        if change == "age":
            w.age(10)
        elif change == "gone":
            os.remove(w.cache)
        elif change == "damaged":
            open(w.cache, "wb").write(b"x")
        kw = dict(encoding="latin-1") if change == "options" else {}
        CParser(w.paths, cache=w.cache, **kw)
        w.write(2)
        p = CParser(w.paths, cache=w.cache, **kw)
        return sorted(k for k in p.defs["functions"] if k.startswith("g"))

    for change in ("none", "age", "gone", "damaged", "options"):
        o.eq(("rewritten", change), lambda: go(change), ["g0"] if change == "none" else ["g1"])

    # cached results do not depend on what happened to other parsers
    def isolated():
        w.write(0)
        os.remove(w.cache)
        a = CParser(w.paths, cache=w.cache)
        want = defs(a)
        b = CParser(w.paths, cache=w.cache)
        b.add_def("values", "Z", 1)
        b.defs["macros"].clear()
        c = CParser(w.paths, cache=w.cache)
        return defs(c) == want, defs(a) == want

    o.eq("isolated", isolated, (True, True))


def orders(o):
    """Names defined in several files, copied and removed."""
    d = o.dir("orders")
    cache = os.path.join(d, "c")
    for n in range(o.scale(25, 250)):
        texts = []
        for i in range(3):
            t = ""
            for _ in range(o.rng.randrange(1, 5)):
                nm = "XYZ"[o.rng.randrange(3)]
                t += o.rng.choice(["#define %s %d\n", "#define %s() %d\n", "#undef %s\n", "int %s_v = %d;\n", "enum %s_e { %s_k = %d };\n"]).replace("%s", nm).replace("%d", str(o.rng.randrange(9)))
            texts.append(t)
        files = []
        for i, t in enumerate(texts):
            p = os.path.join(d, "f%d.h" % i)
            open(p, "w").write(t)
            os.utime(p, (1000, 1000))
            files.append(p)
        kw = {}
        if o.rng.random() < 0.6:
            kw["macros"] = {"X": "10", "Y": "11"}
        if o.rng.random() < 0.6:
            kw["copy_from"] = [CParser(o.rng.sample(files, 2)), CParser(o.rng.sample(files, 1))]
        use = [o.rng.choice(files) for _ in range(o.rng.randrange(0, 4))]

        def go():
            if os.path.exists(cache):
                os.remove(cache)
            a = CParser(use, cache=cache, **kw)
            for f in files:
                os.utime(f, (1000, 1000))
            b = CParser(use, cache=cache, **kw)
            return defs(a) == defs(b)

        o.eq(("orders", n, texts, list(map(os.path.basename, use)), sorted(kw)), go, True)
