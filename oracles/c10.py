"""Random sequences of pack pragmas and structs against the documented rules."""
import os

from pyclibrary import CParser

LABELS = ["a", "b", "lbl", "r1"]


class Ref:
    """The rules, on a stack of (value, label) records."""

    def __init__(self):
        self.recs, self.cur = [], None

    def set(self, n=None):
        self.cur = n

    def push(self, label=None, n=None):
        self.recs.append((n, label))
        self.cur = n

    def pop(self, label=None, n=None):
        if label is None:
            self.recs = self.recs[:-1]
        else:
            where = [k for k, r in enumerate(self.recs) if r[1] == label]
            if where:
                self.recs = self.recs[: where[0]]
        if n is not None:
            self.cur = n
        else:
            self.cur = self.recs[-1][0] if self.recs else None


class Gen:
    def __init__(self, rng):
        self.rng, self.ref, self.lines, self.want, self.k = rng, Ref(), [], {}, 0

    def pragma(self, live):
        rng, ref = self.rng, self.ref
        n = rng.choice([1, 2, 4, 8, 16])
        label = rng.choice(LABELS)
        kind = rng.choice(["set", "none", "push", "push", "push", "pop", "pop", "other"])
        if kind == "other":
            t = rng.choice(["pack(show)", "once", "comment(lib, \"x\")", "warning(push)", "warning(pop)", "pack_it(2)", "mypack(3)", "GCC diagnostic push", "omp parallel", "warning(disable: 4)"])
            act = None
            if rng.random() < 0.4:
                self.lines += ["#pragma " + t] * rng.randrange(1, 4)
        elif kind == "set":
            t, act = "pack(%d)" % n, lambda: ref.set(n)
        elif kind == "none":
            t, act = "pack()", lambda: ref.set()
        else:
            args, kw = [kind], {}
            if rng.random() < 0.5:
                args.append(label)
                kw["label"] = label
            if rng.random() < 0.5:
                args.append(str(n))
                kw["n"] = n
            sp = rng.choice(["", "", " "])
            t = "pack%s(%s%s%s)" % (rng.choice(["", "", " "]), sp, rng.choice([",", ", ", " , "]).join(args), sp)
            act = lambda: getattr(ref, kind)(**kw)
        self.lines.append(rng.choice(["#pragma ", "# pragma ", " #pragma  "]) + t)
        if live and act:
            act()

    def struct(self, live):
        rng = self.rng
        self.k += 1
        s = rng.choice(["struct", "union"])
        name = "S%d" % self.k
        nl = rng.choice([" ", "\n"])
        form = rng.randrange(5)
        body = "{%sint a;%schar b;%s}" % (nl, nl, nl)
        if form == 0:
            t = "typedef %s %s %s T%d;" % (s, name, body, self.k)
        elif form == 1:
            t = "%s %s %s v%d, *w%d;" % (s, name, body, self.k, self.k)
        elif form == 2:
            t = "%s %s %s; int z%d;" % (s, name, body, self.k)
        elif form == 3:
            t = "%s %s f%d(int a); %s %s %s;" % (s, name, self.k, s, name, body)
        else:
            t = "%s %s %s;" % (s, name, body)
        self.lines += t.split("\n")
        if live:
            self.want[(s + "s", name)] = self.ref.cur

    def item(self, live, depth):
        rng = self.rng
        r = rng.random()
        if r < 0.45:
            self.pragma(live)
        elif r < 0.8:
            self.struct(live)
        elif r < 0.9 or depth > 1:
            self.k += 1
            self.lines += rng.choice(["", "/* a\n\n comment */ int c%d;", "int \\\n d%d;", "// #pragma pack(1)", "#define X%d 3", "extern int e%d;"]).replace("%d", str(self.k)).split("\n")
        else:
            c = rng.choice([True, False])
            self.lines.append(rng.choice(["#if %d", "#if %d == 1", "#if 1 && %d"]) % c)
            self.items(live and c, depth + 1, rng.randrange(1, 4))
            if rng.random() < 0.5:
                self.lines.append("#else")
                self.items(live and not c, depth + 1, rng.randrange(1, 4))
            self.lines.append("#endif")

    def items(self, live, depth, n):
        for _ in range(n):
            self.item(live, depth)


def packs(paths):
    p = CParser(paths, cache=None)
    return {(t, n): d["pack"] for t in ("structs", "unions") for n, d in p.defs[t].items() if n.startswith("S")}


def write(o, k, text):
    path = os.path.join(o.tmp, "h%d.h" % k)
    with open(path, "w") as f:
        f.write(text)
    return path


FIXED = [
    ("struct S0 {int a;};\n#pragma pack(2)\nstruct S1 {int a;};\n#pragma pack(push, x, 4)\nstruct S2 {int a;};\n#pragma pack(push, y)\nstruct S3 {int a;};\n"
     "#pragma pack(push, x, 8)\nstruct S4 {int a;};\n#pragma pack(pop, x)\nstruct S5 {int a;};\n#pragma pack(pop)\nstruct S6 {int a;};",
     [None, 2, 4, None, 8, None, None]),
    ("#pragma pack(1)\nstruct S0 {int a;};", [1]),
    ("#pragma pack(push, 1)\n#pragma pack(push, 2)\n#pragma pack(pop)\nstruct S0 {int a;};\n#pragma pack(pop, 8)\nstruct S1 {int a;};\n#pragma pack(pop)\n#pragma pack(pop)\nstruct S2 {int a;};", [1, 8, None]),
    ("#pragma pack(push, a, 1)\n#pragma pack(push, b, 2)\n#pragma pack(push, c, 4)\n#pragma pack(pop, b)\nstruct S0 {int a;};\n#pragma pack(pop, zz)\nstruct S1 {int a;};\n#pragma pack(pop, a, 16)\nstruct S2 {int a;};", [1, 1, 16]),
]


def run(o):
    for k, (text, want) in enumerate(FIXED):
        path = write(o, k, text)
        o.eq(text, lambda: packs([path]), {("structs", "S%d" % j): w for j, w in enumerate(want)})
    for k in range(o.scale(400, 6000)):
        gs = []
        for j in range(o.rng.choice([1, 1, 2])):
            g = Gen(o.rng)
            g.k = 1000 * j
            g.items(True, 0, o.rng.choice([4, 8, 15]))
            gs.append(g)
        texts = ["\n".join(g.lines) + "\n" for g in gs]
        paths = [write(o, j, t) for j, t in enumerate(texts)]
        want = {}
        for g in gs:
            want.update(g.want)
        o.eq("\n--- other file ---\n".join(texts), lambda: packs(paths), want)
