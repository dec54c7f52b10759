"""Random declarators of any nesting, written out as C and parsed in every
place a declarator can stand, against their linearisation computed from the
tree they were generated from."""
import os

BASES = ["int", "char", "double", "unsigned long int", "signed char", "long long", "void", "struct S", "union V", "enum E"]
QUALS = [(), (), (), (), ("const",), ("volatile",), ("const", "volatile")]
VALUES = ["10", "0", "1.5", "K", '"a,b)"', "'('"]


class Level:
    """One level of the nest: what is written around a name or parenthesis."""

    def __init__(self, cc, ptrs, ref, center, params, arrays):
        self.cc, self.ptrs, self.ref, self.center = cc, ptrs, ref, center
        self.params, self.arrays = params, arrays

    def text(self, name):
        s = (self.cc + " " if self.cc else "") + "".join("*%s " % " ".join(q) for q in self.ptrs)
        if self.center is not None:
            s += "(" + self.center.text(name) + ")"
        else:
            s += ("&" if self.ref else "") + (name or "")
        if self.params is not None:
            s += "(" + ", ".join(p.text() for p in self.params) + ")"
        return s + "".join("[%s]" % (n if n is not None else "") for n in self.arrays)

    def modifiers(self):
        r = [(self.cc, ())] if self.cc else []
        r += [("*", q) for q in self.ptrs]
        r += [([int(n) if n is not None else -1], ()) for n in self.arrays]
        if self.params is not None:
            r.append((tuple(p.value() for p in self.params), ()))
        if self.ref:
            r.append(("&", ()))
        return r + (self.center.modifiers() if self.center else [])

    def depth(self):
        return 1 + (self.center.depth() if self.center else 0)


class Declared:
    """Base type, qualifiers, declarator, name."""

    def __init__(self, base, pre, post, level, name, default=None):
        self.base, self.pre, self.post, self.level, self.name, self.default = base, pre, post, level, name, default

    def text(self):
        s = " ".join(self.pre + (self.base,) + self.post) + " " + self.level.text(self.name)
        return s + (" = " + self.default if self.default else "")

    def type(self):
        ms = self.level.modifiers()
        return (self.base,) + tuple(m for m, _ in ms), (self.pre + self.post,) + tuple(q for _, q in ms)

    def value(self):
        return (self.name, self.type(), self.default)


def level(rng, depth, named, top, refs=True):
    cc = rng.choice(["__stdcall", "__cdecl"]) if named and rng.random() < 0.1 else ""
    ptrs = [rng.choice(QUALS) for _ in range(rng.choice([0, 0, 1, 1, 2, 3]))]
    inner = None
    if depth > 0 and rng.random() < 0.6:
        inner = level(rng, depth - 1, named, False, refs)
        if not named and not (inner.ptrs or inner.ref or inner.arrays or inner.center):
            inner.ptrs = [()]
        if not named and not inner.ptrs and not inner.ref and inner.arrays and inner.params is not None:
            inner.params = None
    ref = inner is None and refs and rng.random() < 0.08
    params = None
    arrays = []
    k = rng.random()
    # An unnamed parameter starts with neither its arguments nor a name
    if k < 0.3 and (named or inner is not None):
        params = [param(rng, depth - 1, i) for i in range(rng.choice([0, 1, 1, 2, 3]))]
    elif k < 0.55:
        arrays = [rng.choice([None, "1", "2", "10", "3"]) for _ in range(rng.choice([1, 1, 2, 3]))]
    return Level(cc, ptrs, ref, inner, params, arrays)


def param(rng, depth, i):
    named = rng.random() < 0.5
    d = declared(rng, depth, "p%d" % i if named else None)
    if rng.random() < 0.15:
        d.default = rng.choice(VALUES)
    return d


def declared(rng, depth, name, base=None):
    base = base or rng.choice(BASES)
    return Declared(base, rng.choice(QUALS), rng.choice(QUALS), level(rng, max(depth, 0), name is not None, True), name)


def plain(t):
    """A type as (modifiers, qualifiers), parameters included."""
    from pyclibrary.c_parser import Type

    if type(t) is not Type:
        raise TypeError("not a Type: %r" % (t,))
    ms = []
    for m in t:
        if type(m) is tuple:
            m = tuple((n, plain(x), v) for n, x, v in m)
        elif isinstance(m, Type):
            m = plain(m)
        elif isinstance(m, list):
            m = list(m)
        ms.append(m)
    return tuple(ms), tuple(tuple(q) if q else () for q in t.type_quals)


def nested(flat):
    """The form in which a function is recorded."""
    ms, qs = flat
    return ((ms[:-1], qs[:-1]), ms[-1])


def plain_function(f):
    assert len(f) == 2, f
    return (plain(f[0]), tuple((n, plain(x), v) for n, x, v in f[1]))


def is_function(flat):
    return type(flat[0][-1]) is tuple


def recorded(p, kind, d):
    """The type recorded for a declaration."""
    flat = d.type()
    if kind == "typedef":
        return plain(p.defs["types"][d.name])
    if kind == "member":
        return plain([m for m in p.defs["structs"]["H"]["members"] if m[0] == d.name][0][1])
    if is_function(flat):
        if d.name in p.defs["variables"]:
            return "a variable"
        return plain_function(p.defs["functions"][d.name])
    if d.name in p.defs["functions"]:
        return "a function"
    return plain(p.defs["variables"][d.name][1])


def expected(kind, d):
    flat = d.type()
    return nested(flat) if is_function(flat) and kind not in ("typedef", "member") else flat


def parse(o, text):
    from pyclibrary import CParser

    path = os.path.join(o.tmp, "d.h")
    with open(path, "w") as f:
        f.write(text)
    return CParser([path], cache=None)


def check(o, kind, decls, text, secs=60):
    got = {}

    def run():
        p = parse(o, text)
        for d in decls:
            try:
                got[d.name] = recorded(p, kind, d)
            except KeyError as e:
                got[d.name] = "not recorded: %s" % e
        return got

    o.eq("%s: %s" % (kind, text), run, {d.name: expected(kind, d) for d in decls}, secs=secs)


def one(o, kind, depth):
    rng = o.rng
    base = rng.choice(BASES + ["T"])
    n = rng.choice([1, 1, 1, 2, 3]) if kind != "body" else 1
    first = declared(rng, depth, "d0", base)
    decls = [first]
    for i in range(1, n):
        d = declared(rng, depth, "d%d" % i, base)
        d.pre = first.pre
        decls.append(d)
    head = " ".join(first.pre + (base,))
    body = ", ".join(" ".join(d.post) + " " + d.level.text(d.name) for d in decls)
    if kind == "typedef":
        text = "typedef %s %s;\n" % (head, body)
    elif kind == "member":
        text = "struct H { %s %s; };\n" % (head, body)
    elif kind == "body":
        lv = first.level
        while lv.center is not None:
            lv = lv.center
        lv.ref, lv.arrays = False, []
        if lv.params is None:
            lv.params = [param(rng, depth, i) for i in range(rng.choice([0, 1, 2]))]
        text = "%s %s %s { int q = 1; if (q) { return; } }\n" % (rng.choice(["", "static", "inline", "extern"]), head, " ".join(first.post) + " " + first.level.text("d0"))
    else:
        text = "%s %s %s%s;\n" % (rng.choice(["", "", "static", "extern"]), head, body, rng.choice(["", "", " = 5"]))
    check(o, kind, decls, text)


def small(o):
    """Every combination of two levels with at most one thing each."""
    P = lambda: Declared("int", (), (), Level("", [], False, None, None, []), None)
    one_of = [
        dict(), dict(ptrs=[()]), dict(ptrs=[("const",)]), dict(ptrs=[(), ("volatile",)]), dict(arrays=["3"]), dict(arrays=["2", None]),
        dict(params=[]), dict(params=[P()]), dict(ref=True), dict(cc="__stdcall"), dict(ptrs=[()], arrays=["2"]), dict(ptrs=[()], params=[P(), P()]),
    ]
    mk = lambda center=None, cc="", ptrs=(), ref=False, params=None, arrays=(): Level(cc, list(ptrs), ref, center, params, list(arrays))
    decls = []
    for i, a in enumerate(one_of):
        for j, b in enumerate([None] + one_of):
            if b is not None and a.get("ref"):
                continue
            center = None if b is None else mk(**b)
            decls.append(Declared("int", (), (), mk(center, **a), "v%d_%d" % (i, j)))
    for kind, fmt in (("variable", "%s;\n"), ("typedef", "typedef %s;\n"), ("member", None)):
        if fmt:
            check(o, kind, decls, "".join(fmt % d.text() for d in decls))
        else:
            check(o, kind, decls, "struct H { %s };\n" % " ".join(d.text() + ";" for d in decls))
    # as the only parameter of a function, named and unnamed
    fs = []
    for d in decls:
        for name in ("x", None):
            lv = d.level
            if name is None and (lv.cc or lv.center and (lv.center.cc or not (lv.center.ptrs or lv.center.ref or lv.center.arrays))):
                continue
            if name is None and lv.center is None and lv.params is not None:
                continue
            a = Declared("char", (), (), lv, name)
            fs.append(Declared("int", (), (), Level("", [], False, None, [a], []), "f_%s_%s" % (d.name, name)))
    check(o, "variable", fs, "".join(d.text() + ";\n" for d in fs))


def forms(o, it):
    """The flat and nested forms of a function type."""
    from pyclibrary.c_parser import Type

    rng = o.rng
    d = declared(rng, 2, "f")
    lv = d.level
    lv.center, lv.ref, lv.arrays = None, False, []
    lv.params = [param(rng, 1, i) for i in range(rng.randint(0, 3))]

    def build(flat):
        ms, qs = flat
        ms = [tuple((n, build(x), v) for n, x, v in m) if type(m) is tuple else m for m in ms]
        return Type(*ms, type_quals=qs)

    t = build(d.type())
    o.eq("%r: nested form" % (t,), lambda: plain_function(t.add_compatibility_hack()), nested(d.type()))
    o.eq("%r: there and back" % (t,), lambda: plain(t.add_compatibility_hack().remove_compatibility_hack()), d.type())
    v = build(declared(rng, 2, "v").type())
    if type(v[-1]) is not tuple:
        o.eq("%r: other types stay as they are" % (v,), lambda: plain(v.remove_compatibility_hack()), plain(v))
    n = rng.randint(0, 6)
    o.eq("Type with %d lists of qualifiers" % n, lambda: Type("int", *["*"] * n).type_quals, ((),) * (n + 1))


BASIC = ["int", "unsigned int", "char", "signed char", "unsigned long int", "T", "struct S", "enum E"]


def members(o, it):
    """A structure or union with members of every form: plain ones of any
    declarators, bit-fields with and without a name, defaults, members that
    are structures."""
    rng = o.rng
    kind = rng.choice(["struct", "union"])
    tag = rng.choice(["H", "H", ""])
    text, want = [], []
    for i in range(rng.choice([0, 1, 2, 3, 5, 8]) if it else 0):
        k = rng.randint(0, 7)
        base = rng.choice(BASIC)
        if k == 0:
            w = rng.choice([1, 2, 3, 7, 10, 31])
            q = rng.choice([(), (), ("const",), ("volatile",)])
            text.append("%s m%d : %d;" % (" ".join(q + (base,)), i, w))
            want.append(("m%d" % i, ((base,), (q,)), None, w))
        elif k == 1:
            w = rng.choice([0, 1, 5, 16])
            text.append("%s : %d;" % (base, w))
            want.append((None, ((base,), ((),)), None, w))
        elif k == 2:
            v = rng.choice([0, 1, 17, 0x20])
            text.append("%s m%d = %d;" % (base, i, v))
            want.append(("m%d" % i, ((base,), ((),)), v))
        elif k == 3:
            u = rng.choice(["struct", "union"])
            name = rng.choice(["", "m%d" % i])
            text.append("%s I%d { int x%d; } %s;" % (u, i, i, name))
            want.append((name or None, (("%s I%d" % (u, i),), ((),)), None))
        else:
            ds = [declared(rng, 1, "m%d_%d" % (i, j), base) for j in range(rng.choice([1, 1, 2, 3]))]
            for d in ds:
                d.pre, d.post = (), ()
            text.append("%s %s;" % (base, ", ".join(d.level.text(d.name) for d in ds)))
            want += [(d.name, d.type(), None) for d in ds]
    src = "%s %s { %s }%s;\n" % (kind, tag, " ".join(text), "" if tag else " v")
    if not text:
        src = "%s %s;\n" % (kind, tag or "H")
        tag = tag or "H"

    def run():
        p = parse(o, src)
        s = p.defs[kind + "s"][tag or "anon_%s0" % kind]
        t = p.defs["types"]["%s %s" % (kind, tag or "anon_%s0" % kind)]
        return type(s).__name__, [m[:1] + (plain(m[1]),) + m[2:] for m in s["members"]], plain(t)

    o.eq("members of %s" % src, run, ({"struct": "Struct", "union": "Union"}[kind], want,
         ((kind, tag or "anon_%s0" % kind), ((), ()))))


def run(o):
    small(o)
    for it in range(o.scale(60, 800)):
        members(o, it)
    for it in range(o.scale(40, 400)):
        forms(o, it)
    for it in range(o.scale(160, 2500)):
        one(o, o.rng.choice(["variable", "variable", "typedef", "member", "body"]), o.rng.choice([0, 1, 2, 3]))
