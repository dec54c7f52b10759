"""Random structures against classes built by hand."""
import ctypes as ct

from pyclibrary import CLibrary
from oracles.fake import library, parser

SCAL = {
    "int": ct.c_int, "char": ct.c_char, "unsigned short": ct.c_ushort, "double": ct.c_double, "long long": ct.c_longlong,
    "float": ct.c_float, "unsigned char": ct.c_ubyte, "enum E0": ct.c_int, "unsigned int": ct.c_uint, "E0T": ct.c_int, "intT": ct.c_int,
}
BITS = {"int": ct.c_int, "unsigned int": ct.c_uint, "unsigned short": ct.c_ushort, "unsigned char": ct.c_ubyte}
PTRS = {"char": ct.c_char_p, "void": ct.c_void_p, "wchar_t": ct.c_wchar_p}


class World:
    def __init__(self, rng, n):
        self.rng, self.n = rng, n
        self.kind = [rng.choice(["struct", "struct", "union"]) for _ in range(n)]
        self.tag = [rng.random() < 0.8 for _ in range(n)]  # tagged, or only a typedef
        self.alias = [None if self.tag[k] and rng.random() < 0.4 else "T%d" % k for k in range(n)]
        self.pack = [rng.choice([None, None, None, 1, 2, 4, 8]) for k in range(n)]
        self.uniq = 0
        self.refs = [set() for _ in range(n)]
        self.vals = [set() for _ in range(n)]
        self.fails = [False] * n
        # anonymous parts are structures of their own: not among the n
        self.members = [self.body(k, 0) for k in range(n)]
        self.fix()

    def name(self, nm="m"):
        self.uniq += 1
        return "%s%d" % (nm, self.uniq)

    def ref(self, k):
        """How a structure is mentioned."""
        return "%s S%d" % (self.kind[k], k) if self.tag[k] and (not self.alias[k] or self.rng.random() < 0.5) else "T%d" % k

    def body(self, k, depth):
        """A list of members (name, kind, ...)"""
        rng = self.rng
        out = []
        for _ in range(rng.choice([1, 1, 2, 3, 5]) if depth else rng.choice([1, 2, 3, 5, 8, 14])):
            r = rng.random()
            if r < 0.3:
                out.append([self.name(), "scal", rng.choice(list(SCAL)), [rng.randint(1, 4) for _ in range(rng.choice([0, 0, 0, 1, 2, 3]))]])
            elif r < 0.45:
                t = rng.choice(list(BITS))
                out.append([None if rng.random() < 0.3 else self.name(), "bits", t, rng.randint(1, 8 * ct.sizeof(BITS[t]))])
            elif r < 0.55:
                out.append([self.name(), "ptr", rng.choice(["int", "double", "char", "void", "wchar_t", "E0T"]), rng.choice([1, 1, 2, 3])])
            elif r < 0.7:
                out.append([self.name(), "sptr", rng.randrange(self.n), rng.choice([1, 1, 2]), rng.choice([None, None, 2])])
            elif r < 0.8:
                if k:
                    out.append([self.name(), "sval", rng.randrange(k), rng.choice([None, None, 3])])
            elif r < 0.86:
                out.append([self.name(), "fun", rng.choice(["int", "void", "sptr"]), [rng.choice(["int", "char *", "sptr"]) for _ in range(rng.randint(0, 3))], rng.randrange(self.n)])
            elif r < 0.97:
                if depth < 2:
                    out.append([None if rng.random() < 0.7 else self.name(), "anon", rng.choice(["struct", "union"]), self.body(k, depth + 1)])
            elif r < 0.98:
                out.append([rng.choice(["undefd_t", "undefd_t *"]), "bad"])
            elif not depth and not any(m[0] is None or m[0] == "anon_member0" for m in out):
                out.append(["anon_member0", "scal", "int", []])
        if not [m for m in out if m[1] != "anon" and m[0]]:
            out.append([self.name(), "scal", "int", []])
        return out

    def walk(self, ms):
        for m in ms:
            yield m
            if m[1] == "anon":
                yield from self.walk(m[3])

    def closure(self):
        reach = []
        for k in range(self.n):
            seen, todo = set(), [k]
            while todo:
                x = todo.pop()
                for m in self.walk(self.members[x]):
                    for y in self.uses(m):
                        if y not in seen:
                            seen.add(y)
                            todo.append(y)
            reach.append(seen)
        return reach

    def uses(self, m):
        if m[1] in ("sptr", "sval"):
            return [m[2]]
        if m[1] == "fun" and "sptr" in [m[2]] + m[3]:
            return [m[4]]
        return []

    def fix(self):
        """No structure in the structures it refers to (a known finding)."""
        reach = self.closure()
        for k in range(self.n):
            for m in self.walk(self.members[k]):
                if m[1] == "sval" and (k in reach[m[2]] or m[2] == k):
                    m[1:] = ["scal", "int", []]
            # an anonymous one never had a name to be known by
            if not self.tag[k]:
                for j in range(self.n):
                    for m in self.walk(self.members[j]):
                        if k in self.uses(m) and j <= k:
                            m[1:] = ["scal", "int", []]
        reach = self.closure()
        bad = [any(m[1] == "bad" for m in self.walk(ms)) for ms in self.members]
        self.fails = [bad[k] or any(bad[j] for j in reach[k]) for k in range(self.n)]

    # --- text
    def decl(self, m, ind):
        t = m[1]
        if t == "scal":
            return "%s %s%s" % (m[2], m[0], "".join("[%d]" % d for d in m[3]))
        if t == "bits":
            return "%s %s:%d" % (m[2], m[0] or "", m[3])
        if t == "ptr":
            return "%s %s%s" % (m[2], "*" * m[3], m[0])
        if t == "sptr":
            return "%s %s%s%s" % (self.ref(m[2]), "*" * m[3], m[0], "[%d]" % m[4] if m[4] else "")
        if t == "sval":
            return "%s %s%s" % (self.ref(m[2]), m[0], "[%d]" % m[3] if m[3] else "")
        if t == "fun":
            f = lambda a: self.ref(m[4]) + " *" if a == "sptr" else a
            return "%s (*%s)(%s)" % (f(m[2]), m[0], ", ".join(f(a) for a in m[3]) or "void")
        if t == "anon":
            return "%s {\n%s%s} %s" % (m[2], self.text_of(m[3], ind + "  "), ind, m[0] or "")
        return "%s %s" % (m[0], self.name("bad"))

    def text_of(self, ms, ind):
        return "".join("%s%s;\n" % (ind, self.decl(m, ind)) for m in ms)

    def text(self):
        out = ["enum E0 {e0a, e0b};", "typedef enum E0 E0T;", "typedef int intT;"]
        for k in range(self.n):
            if self.alias[k] and self.tag[k]:
                # forward declaration of the alias
                out.append("typedef %s S%d T%d;" % (self.kind[k], k, k))
        for k in range(self.n):
            if self.pack[k]:
                out.append("#pragma pack(push, %d)" % self.pack[k])
            b = "{\n%s}" % self.text_of(self.members[k], "  ")
            if self.tag[k]:
                out.append("%s S%d %s;" % (self.kind[k], k, b))
            else:
                out.append("typedef %s %s T%d;" % (self.kind[k], b, k))
            if self.pack[k]:
                out.append("#pragma pack(pop)")
        return "\n".join(out) + "\n"

    # --- classes with the same layout
    def ref_class(self, k, kind=None, ms=None, memo=None):
        memo = memo if memo is not None else {}
        key = ("s", k) if ms is None else id(ms)
        if key in memo:
            return memo[key]
        base = ct.Structure if (kind or self.kind[k]) == "struct" else ct.Union
        c = type("R", (base,), {})
        memo[key] = c
        if self.pack[k]:
            c._pack_ = self.pack[k]
        fields = []
        for j, m in enumerate(self.members[k] if ms is None else ms):
            if m[1] == "scal":
                t = SCAL[m[2]]
                for d in reversed(m[3]):
                    t = t * d
                f = (m[0], t)
            elif m[1] == "bits":
                f = (m[0] or "pad_%d" % j, BITS[m[2]], m[3])
            elif m[1] in ("ptr", "fun"):
                f = (m[0], ct.c_void_p)
            elif m[1] == "sptr":
                f = (m[0], ct.c_void_p * m[4] if m[4] else ct.c_void_p)
            elif m[1] == "sval":
                t = self.ref_class(m[2], memo=memo)
                f = (m[0], t * m[3] if m[3] else t)
            else:
                f = (m[0] or "in_%d" % j, self.ref_class(k, m[2], m[3], memo))
            fields.append(f)
        c._fields_ = fields
        return c


def is_class(w, lib, k, cls, what, ms=None, kind=None, memo=None):
    """None, or what is wrong."""
    base = ct.Structure if (kind or w.kind[k]) == "struct" else ct.Union
    ref = w.ref_class(k, kind, ms, memo)
    ms = w.members[k] if ms is None else ms
    if not issubclass(cls, base):
        return "%s: not a %s" % (what, base)
    fs = list(cls._fields_)
    if len(fs) != len(ms):
        return "%s: %d members" % (what, len(fs))
    if (ct.sizeof(cls), ct.alignment(cls)) != (ct.sizeof(ref), ct.alignment(ref)):
        return "%s: size %d alignment %d, not %d %d" % (what, ct.sizeof(cls), ct.alignment(cls), ct.sizeof(ref), ct.alignment(ref))
    names = []
    S = lambda j: lib(w.kind[j] + "s", ("S%d" if w.tag[j] else "T%d") % j)

    def ptr(t, n):
        for _ in range(n):
            t = ct.POINTER(t)
        return t

    for f, m, rf in zip(fs, ms, ref._fields_):
        where = "%s.%s" % (what, m[0])
        if m[0] is not None and f[0] != m[0]:
            return "%s: named %r" % (where, f[0])
        if f[0] in names:
            return "%s: name %r again" % (where, f[0])
        names.append(f[0])
        if (len(f) == 3) != (m[1] == "bits") or m[1] == "bits" and f[2] != m[3]:
            return "%s: width %r" % (where, f[2:])
        a, b = getattr(cls, f[0]), getattr(ref, rf[0])
        # the names generated inside unnamed members may hide those outside
        if m[0] is not None and (a.offset, a.size) != (b.offset, b.size):
            return "%s: at %d size %d, not %d %d" % (where, a.offset, a.size, b.offset, b.size)
        want = None
        if m[1] in ("scal", "bits"):
            want = rf[1]
        elif m[1] == "ptr":
            want = ptr(PTRS[m[2]], m[3] - 1) if m[2] in PTRS else ptr(SCAL[m[2]], m[3])
        elif m[1] == "sptr":
            want = ptr(S(m[2]), m[3])
            want = want * m[4] if m[4] else want
        elif m[1] == "sval":
            want = S(m[2])
            want = want * m[3] if m[3] else want
        elif m[1] == "fun":
            g = {"int": ct.c_int, "void": None, "char *": ct.c_char_p}
            if w.uses(m):
                g["sptr"] = ct.POINTER(S(m[4]))
            if f[1]._restype_ is not g[m[2]] or list(f[1]._argtypes_) != [g[x] for x in m[3]]:
                return "%s: function type" % where
            continue
        else:
            r = is_class(w, lib, k, f[1], where, m[3], m[2], memo)
            if r:
                return r
            if m[0] is None:
                for x in m[3]:
                    if x[0] and x[0] != "anon_member0" and getattr(cls, x[0], None) is None:
                        return "%s: no direct access to %s" % (where, x[0])
                    if x[0] and x[0] != "anon_member0" and getattr(cls, x[0]).offset != b.offset + getattr(f[1], x[0]).offset:
                        return "%s: direct access to %s elsewhere" % (where, x[0])
            continue
        if f[1] is not want:
            return "%s: class %r, not %r" % (where, f[1], want)
    return None


def history(w, rng, lib, steps):
    """Random accesses; what is wrong with the first wrong one."""
    seen = {}
    for _ in range(steps):
        k = rng.randrange(w.n)
        ways = []
        if w.tag[k]:
            ways += ["tag", "attr", "prefix"]
        if w.alias[k]:
            ways += ["alias", "type", "attr alias", "prefix alias"]
        way = rng.choice(ways)
        kind = w.kind[k] + "s"
        try:
            cls = {
                "tag": lambda: lib(kind, "S%d" % k),
                "attr": lambda: getattr(lib, "S%d" % k),
                "prefix": lambda: getattr(lib, "%d" % k) if not w.alias[k] else lib(kind, "%d" % k),
                "alias": lambda: lib(kind, "T%d" % k),
                "type": lambda: lib("types", "T%d" % k),
                "attr alias": lambda: getattr(lib, "T%d" % k),
                "prefix alias": lambda: lib("types", "%d" % k),
            }[way]()
        except Exception as e:
            if not w.fails[k]:
                return "S%d by %s: %s %s" % (k, way, type(e).__name__, e)
            continue
        if w.fails[k]:
            return "S%d by %s: gives %r, a member has no type" % (k, way, cls)
        if seen.setdefault(k, cls) is not cls:
            return "S%d by %s: another class" % (k, way)
        r = is_class(w, lib, k, cls, "S%d" % k, memo={})
        if r:
            return "by %s %s" % (way, r)
    return None


FIND = "struct A { struct B *b; int x; }; struct B { struct A a; int y; }; A is accessed first"
FIXED = [
    ("struct N { int v; struct N *next, *prev[2]; };", "N", "structs", ["v", "next", "prev"]),
    ("struct P { struct Q *q; int x; }; struct Q { struct P *p; struct Q *n; };", "P", "structs", ["q", "x"]),
    ("struct U { union { int a; struct { short b, c; }; }; int :4; int d:3; union {int e;}; };", "U", "structs", None),
]


def run(o):
    rng = o.rng

    def finding():
        lib, dll = library(o, "struct A { struct B *b; int x; };\nstruct B { struct A a; int y; };\n")
        a = lib("structs", "A")
        return a._fields_[0][1] is ct.POINTER(lib("structs", "B"))

    o.true(FIND, finding)
    for text, name, kind, want in FIXED:

        def fixed():
            lib, dll = library(o, text)
            c = lib(kind, name)
            got = [f[0] for f in c._fields_]
            if c is not lib(kind, name) or c is not getattr(lib, name):
                return "another class"
            if want is None:
                return (len(set(got)) == 4 and c.b.offset == 0 and c.c.offset == 2 and c.a.offset == 0 and bool(c.d) and bool(c.e)) or got
            return got == want or got

        o.eq(text, fixed, True)
    for _ in range(o.scale(350, 5000)):
        w = World(rng, rng.choice([1, 2, 3, 5, 8]))
        text = w.text()

        def case():
            lib, dll = library(o, text, prefix=["S", "T"])
            r = history(w, rng, lib, 3 * w.n + 3)
            return r or "ok"

        o.eq(text, case, "ok")
