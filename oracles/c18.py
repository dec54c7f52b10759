"""C18 on the real code: every short text made of what matters, random longer
ones, and whole files through process_all."""
import itertools
import os
import warnings

warnings.simplefilter("ignore")
from pyclibrary.c_parser import CParser
import specs.c18 as S

CODE = ["int a;", "x = y / z;", "a */ b", "#define P 1", "f(a, b)", " ", "\n", "\t", "int *p;", "a / / b", "* /", "\\\n", "x\\y", "#include <a.h>", "<a/b>", "%d", "'a'", "'\\''", "'\\\\'", "'\"'", "L'x'", ""]
INSTR = ["/*", "*/", "//", "a", " ", "\\\"", "\\\\", "'", "\\n", "\\\n", "/", "*", "\\'", "\\x41", "%s", "\\0", "\t", "http://x"]
INCOM = ["*", "/", "//", "/*", '"', "'", "\\", "text", " ", "don't", "\t", "\\n", '"a'] 


def literal(r):
    return '"' + "".join(r.choice(INSTR) for _ in range(r.randrange(5))) + '"'


def comment(r):
    t = "".join(r.choice(INCOM + ["\n", "\\\n"]) for _ in range(r.randrange(6)))
    if r.random() < 0.5:
        t = t.replace("*/", "* /")
        t += "" if not t.endswith("*") or r.random() < 0.5 else " "
        return "/*" + t + "*/"
    t = t.replace("\n", " ") if r.random() < 0.6 else t.replace("\\\n", "\n").replace("\n", "\\\n")
    return "//" + t.rstrip("\\" if r.random() < 0.5 else " ") + "\n"


def text(r):
    return "".join(r.choice((lambda: r.choice(CODE), lambda: literal(r), lambda: comment(r)))() for _ in range(r.randrange(1, 14)))


def run(o):
    p = CParser()

    def removed(s):
        p.files["f.h"] = s
        p.files["g.h"] = "/* kept */"
        p.remove_comments("f.h")
        assert p.files["g.h"] == "/* kept */"
        return p.files["f.h"]

    n = o.scale(6, 7)
    for k in range(n + 1):
        bad = None
        for x in itertools.product("/*\"'\\\na", repeat=k):
            s = "".join(x)
            if "/" not in s and k == n:
                continue
            want, ok = S.scan(s)
            if ok:
                o.cases += 1
                try:
                    same = removed(s) == want
                except Exception:
                    same = False
                if not same:
                    bad = s
                    break
        if bad is not None:
            o.eq("text %r" % bad, lambda: removed(bad), S.without_comments(bad))
        else:
            o.eq("all texts of %d characters" % k, lambda: True, True)
    for _ in range(o.scale(6000, 60000)):
        s = text(o.rng)
        want, ok = S.scan(s)
        if ok:
            o.eq("text %r" % s, lambda: removed(s), want)
    # whole files: what is declared and defined is what is not in a comment
    for k in range(o.scale(60, 400)):
        lines, want, com = [], {}, {}
        for j in range(o.rng.randrange(1, 8)):
            c = comment(o.rng)
            c = c[:-1].rstrip("\\ ") + "\n" if c.endswith("\n") else c.replace("\n", " ")
            v = "".join(o.rng.choice(["/*", "*/", "//", "a", " ", "x/y", "*", "'"]) for _ in range(o.rng.randrange(4)))
            if o.rng.random() < 0.6:
                lines.append('#define S%d "%s" %s' % (j, v, c if c.endswith("\n") else c + "\n"))
                want["S%d" % j] = v
            elif o.rng.random() < 0.5:
                lines.append("/* int H%d; */ int V%d; %s" % (j, j, c if c.endswith("\n") else c + "\n"))
                want["V%d" % j] = None
            else:
                lines.append("// int H%d; \\\nint HH%d; /*\nint V%d; /* */\n" % (j, j, j))
                want["V%d" % j] = None
        src = "".join(lines)
        path = os.path.join(o.tmp, "w%d.h" % k)
        with open(path, "w") as f:
            f.write(src)

        def got():
            q = CParser([path])
            return dict((n, q.defs["values"].get(n, "missing")) for n in want), sorted(n for n in q.defs["variables"] if n.startswith("H"))

        o.eq("file %r" % src, got, (want, []))
