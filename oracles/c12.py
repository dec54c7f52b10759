"""Random enums in random headers, numbered as C does."""
from oracles.fake import parser


class Gen:
    def __init__(self, rng):
        self.rng = rng
        self.lines = []
        self.values = {}
        self.enums = {}
        self.unnamed = []
        self.macros = {}
        self.n = 0

    def name(self, pre):
        self.n += 1
        return "%s%d" % (pre, self.n)

    def expr(self, local):
        """(text, value) of an initialiser"""
        rng = self.rng
        known = list(local.items()) * 2 + list(self.values.items()) + list(self.macros.items())

        def atom(d):
            r = rng.random()
            if r < 0.4 and known:
                n, v = rng.choice(known)
                return rng.choice([(n, v), (n, v), ("(%s)" % n, v), ("((%s))" % n, v)])
            if r < 0.7 or d > 2:
                v = rng.choice([0, 1, 2, 3, 7, 10, 255, 1000, 65536])
                return rng.choice([(str(v), v), (hex(v), v), (hex(v).upper().replace("X", "x"), v), (str(v) + "U", v), (str(v) + "UL", v)])
            if r < 0.8:
                a = atom(d + 1)
                return "-(%s + 2)" % a[0], -(a[1] + 2)
            a, b = atom(d + 1), atom(d + 1)
            op = rng.choice(["+", "-", "*", "|", "&", "^"])
            return "(%s %s %s)" % (a[0], op, b[0]), eval("(%d) %s (%d)" % (a[1], op, b[1]))

        r = rng.random()
        if r < 0.2:
            v = rng.choice([-1, -5, 0, 12])
            return str(v), v
        if r < 0.3:
            k = rng.randrange(8)
            return "1 << %d" % k, 1 << k
        if r < 0.45 and known:
            a = rng.choice(known)
            return "%s + 1" % a[0], a[1] + 1
        return atom(0)

    def body(self):
        rng = self.rng
        d, parts, nxt = {}, [], 0
        for _ in range(rng.choice([1, 2, 3, 5, 8])):
            n = self.name(rng.choice(["A", "B", "v_", "int", "_x"]))
            if rng.random() < 0.45:
                t, nxt = self.expr(d)
                parts.append("%s%s= %s" % (n, rng.choice(["", " "]), t))
            else:
                parts.append(n)
            d[n] = nxt
            self.values[n] = nxt
            nxt += 1
        sep = rng.choice([", ", ",", ",\n    "])
        return d, sep.join(parts) + rng.choice(["", "", ","])

    def item(self):
        rng = self.rng
        r = rng.random()
        if r < 0.12:
            n = self.name("M")
            v = rng.choice([0, 1, 17, 255, -3])
            self.macros[n] = v
            self.lines.append("#define %s %s" % (n, v if v >= 0 else "(%d)" % v))
        elif r < 0.42:
            n = rng.choice(["E0", "E1", "E2", "anon_enum0", "anon_enum1", "anon_enum2", "enumx"])
            if n in self.enums:
                return
            d, b = self.body()
            self.enums[n] = d
            self.lines.append("enum %s%s{ %s }%s;" % (n, rng.choice(["", " ", "\n"]), b, rng.choice(["", " ev_%s" % n])))
        elif r < 0.52:
            n = self.name("F")
            d, b = self.body()
            self.enums[n] = d
            self.lines.append("typedef enum %s { %s } T%s;" % (n, b, n))
        elif r < 0.72:
            d, b = self.body()
            self.unnamed.append(d)
            form = rng.randrange(3)
            if form == 0:
                self.lines.append("enum { %s };" % b)
            elif form == 1:
                self.lines.append("typedef enum { %s } %s;" % (b, self.name("UT")))
            else:
                self.lines.append("enum { %s } %s;" % (b, self.name("uv")))
        else:
            n = rng.choice(sorted(self.enums) + ["E0", "E1", "E9"])
            i = self.name("m")
            self.lines.append(
                rng.choice([
                    "enum %s %s;", "enum %s *%s;", "enum %s f%s(int a);", "typedef enum %s T%s;", "const enum %s %s;",
                    "enum %s %s[3];",
                ]) % (n, i)
                if rng.random() < 0.7
                else rng.choice(["int g%s(enum %s e, int k);" % (i, n), "struct S%s { int k; enum %s x; };" % (i, n), "enum %s (*p%s)(enum %s);" % (n, i, n)])
            )


def one(o, it):
    rng = o.rng
    g = Gen(rng)
    for _ in range(rng.choice([2, 5, 10])):
        g.item()
    text = "\n".join(g.lines) + "\n"
    # names that look generated, defined after unnamed enums, could clash
    seen = False
    for l in g.lines:
        if "enum {" in l:
            seen = True
        if seen and "anon_enum" in l and "{" in l:
            return
    case = repr(text)
    r = o.outcome(lambda: parser(o, text))
    if r[0] != "ok":
        return o.eq(case, lambda: (_ for _ in ()).throw(r[1] or RuntimeError("no answer")), None)
    p = r[1]
    for n, d in g.enums.items():
        o.eq("enum %s of %s" % (n, case), lambda: list(dict(p.defs["enums"][n]).items()), list(d.items()))
        o.true("type enum %s of %s" % (n, case), lambda: "enum " + n in p.defs["types"])
    for n, v in g.values.items():
        o.eq("value %s of %s" % (n, case), lambda: p.defs["values"][n], v)
    used = []
    for d in g.unnamed:
        own = [n for n, e in p.defs["enums"].items() if list(dict(e).items()) == list(d.items()) and n not in g.enums]
        if not o.eq("unnamed %r of %s" % (d, case), lambda: len(own), 1):
            return
        used.append(own[0])
    o.eq("unnamed enums have names of their own in %s" % case, lambda: len(set(used)), len(used))


def across(o, it):
    """Two files, or definitions copied from another parser."""
    import os
    from pyclibrary import CParser

    rng = o.rng
    d = o.dir("e%d" % it)
    a, b = Gen(rng), Gen(rng)
    b.n = 500
    for _ in range(4):
        a.item()
    b.macros.update(a.macros)
    b.values.update(a.values)
    b.enums.update(a.enums)
    for _ in range(5):
        b.item()
    if any("anon_enum" in l and "{" in l for l in b.lines):
        return
    if any("anon_enum" in l and "{" in l for l in a.lines) and a.unnamed:
        return
    fa, fb = os.path.join(d, "a.h"), os.path.join(d, "b.h")
    open(fa, "w").write("\n".join(a.lines) + "\n")
    open(fb, "w").write("\n".join(b.lines) + "\n")
    if it % 2:
        p = CParser([fa, fb])
    else:
        p = CParser([fb], copy_from=CParser([fa]))
    case = "%r then %r (way %d)" % (a.lines, b.lines, it % 2)
    for n, v in b.values.items():
        o.eq("value %s of %s" % (n, case), lambda: p.defs["values"][n], v)
    for n, e in b.enums.items():
        o.eq("enum %s of %s" % (n, case), lambda: dict(p.defs["enums"][n]), e)
    for e in a.unnamed + b.unnamed:
        o.eq("unnamed %r of %s" % (e, case), lambda: len([1 for x in p.defs["enums"].values() if dict(x) == e]), 1)


def run(o):
    for it in range(o.scale(800, 8000)):
        one(o, it)
    for it in range(o.scale(200, 2000)):
        across(o, it)
