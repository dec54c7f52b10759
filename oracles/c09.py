"""Random nested conditionals against a preprocessor written from the C
standard: a recursive one, that first parses the groups of the whole text."""
import os
import re

from pyclibrary import CParser

OBJ = ["X0", "X1", "X2", "XY", "X"]
FN = ["F0", "F1"]
JUNK = ["#define", "#define 3", "#undef", "#pragma", "#error \"oops", "#include <x.h>", "#undef X0", "#define X1 9", "#define F0(a) (a + 2)", "#line 3", "#undef F0", "#define XY"]


class Gen:
    def __init__(self, rng):
        self.rng = rng
        self.k = 0

    def term(self, d=0):
        rng = self.rng
        r = rng.random()
        if r < 0.2 or d > 3:
            return rng.choice(["0", "1", "2", "X0", "X1", "X2", "X9"])
        if r < 0.5:
            n = rng.choice(OBJ + FN + ["X9"])
            return rng.choice(["defined(%s)", "defined %s", "defined ( %s )"]) % n
        if r < 0.65:
            return "!" + rng.choice(["", " "]) + self.par(d)
        op = rng.choice(["&&", "||", "==", "!=", ">", "<", ">="])
        return "%s %s %s" % (self.par(d), op, self.par(d))

    def par(self, d):
        t = self.term(d + 1)
        return t if re.fullmatch(r"\w+|defined ?\( ?\w+ ?\)", t) else "(%s)" % t

    def hash(self, d):
        s = self.rng.choice(["#", "#", "#", " #", "# ", "\t# ", "  #  "])
        return s + d

    def cond(self):
        t = self.term()
        if self.rng.random() < 0.1:
            t = t.replace(" ", " \\\n", 1)
        return t

    def text(self, depth):
        """Lines (continued ones are one string)"""
        rng, out = self.rng, []
        for _ in range(rng.choice([0, 1, 2, 3, 4])):
            r = rng.random()
            if r < 0.35:
                self.k += 1
                out.append(rng.choice(["int v%d = X0;", "int X1 = %d + X2;", "int f%d(X9, XY);", "", "int X0 \\\n[%d] ;"]) .replace("%d", str(self.k)))
            elif r < 0.5:
                n = rng.choice(["X0", "X1", "X2"])
                out.append(self.hash("define %s %d" % (n, rng.choice([0, 1, 2]))))
            elif r < 0.55:
                out.append(self.hash(rng.choice(["define XY", "define F0(a) a", "define F1(a,b) (a+b)", "define X"])))
            elif r < 0.65:
                out.append(self.hash("undef %s" % rng.choice(OBJ + FN)))
            elif r < 0.7:
                out.append(rng.choice(["#", "#pragma once", "# 3 \"x.h\"", "#pragma pack(1)", "#warning be careful", "#pragma pack(show)", "#pragma pack(push, x, 2)", "#pragma pack(pop, y)", "#pragma pack()"]))
            elif r < 0.75:
                out += self.dead()
            elif depth < 5:
                out += self.group(depth + 1)
        return out

    def dead(self):
        """Lines that mean nothing where they are"""
        rng = self.rng
        out = [self.hash(rng.choice(["if 0", "if defined(X9)", "ifdef X9"]))]
        for _ in range(rng.randrange(4)):
            out.append(rng.choice(JUNK + ["int dead;", "#if (\nint x;\n#endif", "#ifdef\n#else\nint x;\n#endif", "#ifndef X9\n#undef X1\n#else\n#define X2 7\n#endif", "#if 1\n#define X2 5\nint y;\n#elif 1\nint z;\n#endif"]))
        out = [l for x in out for l in x.split("\n")]
        if rng.random() < 0.5:
            out += [self.hash("else")] + self.text(4)
        return out + ["#endif"]

    def group(self, depth):
        rng = self.rng
        r = rng.random()
        if r < 0.3:
            out = [self.hash("%s %s" % (rng.choice(["ifdef", "ifndef"]), rng.choice(OBJ + FN + ["X9"])))]
        else:
            out = [self.hash("if " + self.cond())]
        out += self.text(depth)
        for _ in range(rng.choice([0, 0, 1, 2, 3])):
            out.append(self.hash("elif " + self.cond()))
            out += self.text(depth)
        if rng.random() < 0.6:
            out.append(self.hash("else"))
            out += self.text(depth)
        return out + [self.hash(rng.choice(["endif", "endif X0"]))]


class Ref:
    """Groups as a tree, evaluated top down."""

    def __init__(self, lines):
        self.lines = [l.replace("\\\n", "") for l in lines]
        self.i = 0
        self.obj, self.fn = {}, set()
        self.out = [""] * len(lines)
        tree = self.block(())
        assert self.i == len(lines), "unbalanced"
        self.run(tree)

    def directive(self):
        m = re.match(r"\s*#\s*([a-zA-Z]*)(.*)", self.lines[self.i])
        return m and (m.group(1), m.group(2).strip())

    def block(self, stop):
        res = []
        while self.i < len(self.lines):
            d = self.directive()
            if d and d[0] in stop:
                break
            i = self.i
            self.i += 1
            if d and d[0] in ("if", "ifdef", "ifndef"):
                branches = [(d, self.block(("elif", "else", "endif")))]
                while self.directive()[0] != "endif":
                    h = self.directive()
                    self.i += 1
                    branches.append((h, self.block(("elif", "else", "endif"))))
                self.i += 1
                res.append(branches)
            else:
                res.append((i, d))
        return res

    def run(self, tree):
        for x in tree:
            if isinstance(x, list):
                for (d, arg), body in x:
                    if d == "else" or self.holds(d, arg):
                        self.run(body)
                        break
                continue
            i, d = x
            if d is None:
                self.out[i] = re.sub(r"\b\w+\b", lambda m: self.obj.get(m.group(), m.group()), self.lines[i])
                continue
            if d[0] == "define":
                m = re.match(r"(\w+)(.*)", d[1])
                if m.group(2).startswith("("):
                    self.fn.add(m.group(1))
                else:
                    self.obj[m.group(1)] = m.group(2).strip()
            elif d[0] == "undef":
                self.obj.pop(d[1], None)
                self.fn.discard(d[1])

    def holds(self, d, arg):
        if d == "ifdef":
            return arg in self.obj or arg in self.fn
        if d == "ifndef":
            return not (arg in self.obj or arg in self.fn)
        isdef = lambda m: " True " if (m.group(1) or m.group(2)) in set(self.obj) | self.fn else " False "
        arg = re.sub(r"defined\s*\(\s*(\w+)\s*\)|defined\s+(\w+)", isdef, arg)

        def word(m):
            w = m.group()
            return w if w in ("True", "False") or w[0].isdigit() else self.obj.get(w, "0")

        arg = re.sub(r"\w+", word, arg)
        arg = arg.replace("!=", "#").replace("!", " not ").replace("#", "!=").replace("&&", " and ").replace("||", " or ")
        return bool(eval(arg))


def preprocess(path, text):
    with open(path, "w") as f:
        f.write(text)
    p = CParser([path], process_all=False)
    p.remove_comments(path)
    p.preprocess(path)
    return p, p.files[path].split("\n")


def norm(lines):
    return [re.sub(r"\s+", " ", l).strip() for l in lines]


def one(o, k):
    g = Gen(o.rng)
    lines = g.group(0) + g.text(0) if o.rng.random() < 0.5 else g.text(0) + g.text(1) + g.text(0)
    if o.rng.random() < 0.5:
        lines = ["#define X0 1", "#define X1 0"] + lines
    if not lines:
        lines = ["int a;"]
    text = "\n".join(lines)
    # redefining a macro as one of the other kind is not for here
    ref = Ref(lines)
    path = os.path.join(o.tmp, "h.h")

    def run():
        p, got = preprocess(path, text)
        return norm(got), sorted(n for n in OBJ + FN + ["X9"] if n in p.defs["macros"] or n in p.defs["fnmacros"])

    o.eq(text, run, (norm(ref.out), sorted(set(ref.obj) | ref.fn)))


FIXED = [
    # (text, kept lines by number)
    ("#if 0\nint a;\n#elif 1\nint b;\n#elif 1\nint c;\n#else\nint d;\n#endif\nint e;", [3, 9]),
    ("#if 0\n#if 1\nint a;\n#elif 1\nint b;\n#else\nint c;\n#endif\n#elif 0\nint d;\n#else\n#if 0\nint e;\n#else\nint f;\n#endif\n#endif", [14]),
    ("#if 1\n#if 0\n#else\nint a;\n#endif\n#else\n#if 1\nint b;\n#endif\n#endif", [3]),
    ("#if 0\n#ifdef A\nint a;\n#else\nint b;\n#endif\n#endif\nint c;", [7]),
    ("#if 0\n#define A\n#endif\n#ifdef A\nint a;\n#else\nint b;\n#endif", [6]),
    ("#define A\n#if 0\n#undef A\n#endif\n#ifndef A\nint a;\n#else\nint b;\n#endif", [7]),
    ("#define f(x) x\n#ifdef f\nint a;\n#endif\n#undef f\n#if defined(f) || defined g\nint b;\n#endif", [2]),
    ("#if 1\nint a;\n#elif )(\nint b;\n#endif", [1]),
    ("#if 1\n#if 0\nint a;\n#elif 0\nint b;\n#elif 1\nint c;\n#elif 1\nint d;\n#else\nint e;\n#endif\nint f;\n#endif", [6, 12]),
]


def fixed(o):
    path = os.path.join(o.tmp, "h.h")
    for text, keep in FIXED:
        ls = text.split("\n")
        want = [l if i in keep else "" for i, l in enumerate(ls)]
        o.eq(text, lambda: norm(preprocess(path, text)[1]), want)
    n = 60
    text = "\n".join(["#if %d" % (i % 7 != 6) for i in range(n)] + ["int a;"] + ["#else\nint b%d;\n#endif" % i for i in reversed(range(n))])
    out = [""] * n + [""]
    for i in reversed(range(n)):
        out += ["", "int b%d;" % i if i == 6 else "", ""]
    o.eq("60 levels", lambda: norm(preprocess(path, text)[1]), out)


def run(o):
    fixed(o)
    for k in range(o.scale(250, 6000)):
        one(o, k)
