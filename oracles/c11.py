"""Random sequences of #define, #undef and lines of code against a macro
expander that scans the text character by character."""
import os

from pyclibrary import CParser

OBJ = ["X", "Y", "XY", "_x1", "N"]
FN = ["F", "G", "FG", "f_1"]
PARAMS = ["a", "b", "ab", "c_"]
OTHER = ["XX", "X_", "aX", "Fa", "zz", "a1", "int", "a", "ab", "b", "1", "X1", "0x1F", "_"]
STRINGS = ['"X"', '"a X \\" F(1) Y"', '""', '"\\\\"', "'X'", "'\\''", '"it\'s X"', "'\"'", '"F(a, b)"', '"{X}"', "'a'", '"a, b"']
OPS = [" ", "  ", "+", "-", "*", ";", "{", "}", "{}", "{0}", "[", "]", "=", "%s", ".", "->", "%", "\\", "#", "##", ", ", "$", "@"]


class Ref:
    def __init__(self):
        self.obj, self.fn = {}, {}

    def define(self, name, body):
        body = self.expand(body).strip()
        # maybe the same function macro under another name
        old = self.fn.get(body)
        self.undef(name)
        if old:
            self.fn[name] = old
        else:
            self.obj[name] = body

    def define_fn(self, name, params, body):
        body = self.expand(body).strip()
        self.undef(name)
        self.fn[name] = (params, list(tokens(body)))

    def undef(self, name):
        self.obj.pop(name, None)
        self.fn.pop(name, None)

    def expand(self, text):
        out, i = "", 0
        while i < len(text):
            kind, tok = token_at(text, i)
            i += len(tok)
            if kind == "word" and tok in self.obj:
                out += self.obj[tok]
            elif kind == "word" and tok in self.fn:
                r = self.call(tok, text, i)
                if r is None:
                    out += tok
                else:
                    out += r[0]
                    i = r[1]
            else:
                out += tok
        return out

    def call(self, name, text, i):
        while i < len(text) and text[i].isspace():
            i += 1
        if i == len(text) or text[i] != "(":
            return None
        j = text.find(")", i)
        if j < 0:
            return None
        args = [self.expand(x.strip()) for x in text[i + 1 : j].split(",")]
        params, body = self.fn[name]
        out = ""
        for kind, tok in body:
            if kind == "word" and tok in params:
                if params.index(tok) >= len(args):
                    return None
                tok = args[params.index(tok)]
            out += tok
        return out, j + 1


def token_at(text, i):
    c = text[i]
    if c in "\"'":
        j = i + 1
        while j < len(text) and text[j] != c:
            j += 2 if text[j] == "\\" else 1
        if j < len(text):
            return "literal", text[i : j + 1]
        return "other", c
    if c.isalnum() or c == "_":
        j = i
        while j < len(text) and (text[j].isalnum() or text[j] == "_"):
            j += 1
        return "word", text[i:j]
    return "other", c


def tokens(text):
    i = 0
    while i < len(text):
        t = token_at(text, i)
        i += len(t[1])
        yield t


class Gen:
    def __init__(self, rng):
        self.rng = rng

    def arg(self):
        rng = self.rng
        return "".join(rng.choice([rng.choice(OBJ), rng.choice(OTHER), rng.choice(["+", " ", "  ", "-", "{}", "{", "*", "."]), rng.choice(FN)]) for _ in range(rng.choice([0, 1, 1, 1, 2, 3])))

    def call(self):
        rng = self.rng
        n = rng.choice([0, 1, 1, 2, 2, 3, 4])
        sp = lambda: rng.choice(["", "", "", " ", "  "])
        return "%s%s(%s)" % (rng.choice(FN), sp(), (sp() + "," + sp()).join(self.arg() for _ in range(n)))

    def text(self, n, extra=()):
        rng = self.rng
        out = []
        for _ in range(rng.randrange(n + 1)):
            r = rng.random()
            if r < 0.2:
                x = rng.choice(OBJ)
            elif r < 0.3:
                x = rng.choice(FN)
            elif r < 0.4:
                x = rng.choice(OTHER)
            elif r < 0.5:
                x = rng.choice(STRINGS)
            elif r < 0.65:
                x = self.call()
            elif extra and r < 0.85:
                x = rng.choice(extra)
            else:
                x = rng.choice(OPS)
            out.append(x)
            if rng.random() < 0.5:
                out.append(rng.choice([" ", " ", ";", "+"]))
        return "".join(out)

    def line(self):
        t = self.text(8)
        if self.rng.random() < 0.1:
            t = t.replace(" ", "\t", 1)
        if t.lstrip().startswith("#"):
            t = "x " + t
        # neither quotes that are not closed nor continued lines
        if t.endswith("\\"):
            t += ";"
        return t

    def body(self, extra=()):
        t = self.text(6, extra)
        return t + ";" if t.endswith("\\") else t


def one(o, history, check):
    """history: ("obj", name, body), ("fn", name, params, body), ("undef",
    name) or ("line", text)"""
    ref, text, want = Ref(), [], []
    rng = o.rng
    for h in history:
        sp = rng.choice(["#", "#", " #", "# ", "\t#  "])
        if h[0] == "obj":
            # blanks between the name and the text
            text.append("%sdefine %s%s%s" % (sp, h[1], rng.choice([" ", "  ", "\t"]), h[2]))
            want.append("")
            ref.define(h[1], h[2])
        elif h[0] == "fn":
            c = rng.choice([",", ", ", " , "])
            text.append("%sdefine %s(%s)%s%s" % (sp, h[1], c.join(h[2]), rng.choice(["", " ", " ", "  "]), h[3]))
            want.append("")
            ref.define_fn(h[1], h[2], h[3])
        elif h[0] == "undef":
            text.append("%sundef %s%s" % (sp, h[1], rng.choice(["", " ", "\t"])))
            want.append("")
            ref.undef(h[1])
        else:
            text.append(h[1])
            want.append(ref.expand(h[1]))
    path = os.path.join(o.tmp, "h.h")
    whole = "\n".join(text)
    with open(path, "w") as f:
        f.write(whole)

    def run():
        p = CParser([path], process_all=False, cache=None)
        p.preprocess(path)
        return p.files[path].split("\n"), dict(p.defs["macros"]), sorted(p.defs["fnmacros"])

    o.eq(whole, run, (want, ref.obj, sorted(ref.fn)))


def randomly(o):
    g = Gen(o.rng)
    rng = o.rng
    history = []
    for _ in range(rng.choice([3, 8, 20])):
        r = rng.random()
        names = OBJ + FN
        if r < 0.25:
            # most names are of one kind, but not always
            n = rng.choice(OBJ if rng.random() < 0.85 else names)
            b = g.body()
            if rng.random() < 0.15:
                b = rng.choice(FN)
            history.append(("obj", n, b))
        elif r < 0.45:
            n = rng.choice(FN if rng.random() < 0.85 else names)
            params = rng.sample(PARAMS, rng.choice([0, 1, 1, 2, 2, 3]))
            history.append(("fn", n, params, g.body(params * 2 + ["a", "{", "}"])))
        elif r < 0.55:
            history.append(("undef", rng.choice(names + ["zz"])))
        else:
            history.append(("line", g.line()))
    for _ in range(3):
        history.append(("line", g.line()))
    one(o, history, None)


FIXED = [
    [("obj", "X", "1"), ("fn", "X", ["a"], "a+1"), ("line", "X(2) X")],
    [("fn", "X", ["a"], "a+1"), ("obj", "X", "1"), ("line", "X(2) X")],
    [("fn", "F", [], "x"), ("line", "F() F")],
    [("fn", "F", ["x"], "x+1"), ("obj", "G", "F"), ("line", "G(1) G")],
    [("fn", "F", ["x"], "x+1"), ("fn", "G", ["a"], "F"), ("line", "G(1) G")],
    [("obj", "X", ""), ("line", "X a X")],
    [("fn", "F", ["a", "b"], "a##b a b"), ("line", "F(1,2) F (3 , 4) F(1) F() F(1,2,3) F"), ("line", "F"), ("line", "F ("), ("line", "F ; (1, 2)")],
    [("obj", "X", "\"x\" 'c'"), ("line", "X \"X\" 'X' xX Xx X_ X.X X->X")],
    [("fn", "F", ["x"], "\"x\" x xx 'x' {x} {} {0} x_ _x"), ("line", "F({a}) F( b ) F(F) F")],
    [("obj", "X", "Y"), ("obj", "Y", "2"), ("line", "X Y"), ("undef", "Y"), ("line", "Y X"), ("obj", "X", "X1"), ("line", "X")],
    [("obj", "N", "3"), ("fn", "F", ["x"], "(x*N)"), ("undef", "N"), ("obj", "N", "4"), ("line", "F(N) N")],
    [("fn", "F", ["a", "b", "c"], "c b a a b c"), ("line", "F(1,2,3) F(a,b,c) F(c,a,b)")],
    [("fn", "F", ["a"], "1"), ("line", "F() F(1) F")],
    [("obj", "X", "\\d\\1 \\g<0>"), ("fn", "F", ["a"], "\\1 a %s %(a)s"), ("line", "X F(\\2) F(%d)")],
    [("obj", "X", "(1 + 2)"), ("fn", "F", ["a"], "((a) + X)"), ("line", "int y = F(X);")],
    [("line", 'char *s = "X'), ("obj", "X", "1"), ("line", "it's X"), ("line", 'a " X "X"')],
    [("obj", "a", "7"), ("fn", "F", ["b"], "b a"), ("line", "F(a)")],
    [("fn", "F", ["a"], "[a]"), ("line", "F(1)F(2)F( 3 )+F(a b  c)")],
    [("fn", "F", ["a"], "a"), ("fn", "F", ["b", "a"], "a-b"), ("line", "F(1, 2) F(1)"), ("undef", "F"), ("line", "F(1, 2)")],
]


def run(o):
    for h in FIXED:
        one(o, h, None)
    for k in range(o.scale(1500, 30000)):
        randomly(o)
