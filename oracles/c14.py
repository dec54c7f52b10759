"""Random histories of additions, removals and copies, and header texts with
redefinitions, #undef, mentions and unnamed structures, against plain
dictionaries."""
import copy
import itertools
import os
import re

CATS = ["types", "variables", "fnmacros", "macros", "structs", "unions", "enums", "functions", "values"]


def plain(v):
    """Value of a definition in a form that can be compared."""
    if isinstance(v, dict):
        return (type(v).__name__, sorted((str(k), plain(x)) for k, x in v.items()))
    if isinstance(v, (list, tuple)):
        q = getattr(v, "type_quals", None)
        return (type(v).__name__, [plain(x) for x in v], plain(q) if q is not None else None)
    if isinstance(v, re.Pattern):
        return v.pattern
    return v


def tables(defs):
    return {k: {n: plain(v) for n, v in defs[k].items()} for k in CATS}


def files(fd):
    """Tables of the files, those without any definition left out."""
    r = {f: tables(t) for f, t in fd.items()}
    return {f: t for f, t in r.items() if any(t.values())}


def history(o, it):
    from pyclibrary import CParser

    rng = o.rng
    p = CParser(process_all=False)
    model = {k: {} for k in CATS}
    mfiles = {}
    val = itertools.count()
    paths = [None, "x.h", "/some/where/x.h", "other/y.h", "z.h"]
    log = []

    def madd(f, typ, n, v):
        model[typ][n] = v
        mfiles.setdefault(f if f is None else os.path.basename(f), {k: {} for k in CATS})[typ][n] = v

    for step in range(rng.choice([3, 8, 20])):
        r = rng.random()
        if r < 0.6:
            f, typ, n = rng.choice(paths), rng.choice(CATS), rng.choice("abc")
            v = rng.choice([next(val), {}, None, [], 0, ""])
            log.append(("add", f, typ, n, v))
            p.current_file = f
            p.add_def(typ, n, v)
            madd(f, typ, n, v)
        elif r < 0.8:
            known = [(k, n) for k in CATS for n in model[k]]
            if not known:
                continue
            typ, n = rng.choice(known)
            log.append(("remove", typ, n))
            p.rem_def(typ, n)
            del model[typ][n]
            for t in mfiles.values():
                t[typ].pop(n, None)
        else:
            data = {}
            for f in rng.sample(["x.h", "y.h", "w.h", None], rng.randint(0, 3)):
                data[f] = {k: {n: next(val) for n in rng.sample("abcd", rng.randint(0, 2))} for k in CATS}
            log.append(("import", data))
            keep = copy.deepcopy(data)
            p.import_dict(data)
            o.eq("history %d: %r: the dict imported is not changed" % (it, log), lambda: data, keep)
            for f in data:
                for k in CATS:
                    for n in data[f][k]:
                        madd(f, k, n, data[f][k][n])
        o.eq("history %d: %r: tables" % (it, log), lambda: tables(p.defs), tables(model))
        o.eq("history %d: %r: tables of the files" % (it, log), lambda: files(p.file_defs), files(mfiles))


class Text:
    """Random header files and what they define."""

    def __init__(self, rng, start=0, anon=True):
        self.rng = rng
        self.n = itertools.count(start)
        self.model = {k: {} for k in CATS}
        self.files = {}
        self.anon = anon
        self.unnamed = []
        self.lines = []

    def file(self, name, k):
        self.name = name
        self.files.setdefault(name, {c: {} for c in CATS})
        self.lines = []
        for _ in range(k):
            self.item()
        return "\n".join(self.lines) + "\n"

    def add(self, typ, n, v):
        self.model[typ][n] = v
        self.files[self.name][typ][n] = v

    def rem(self, typ, n):
        del self.model[typ][n]
        for t in self.files.values():
            t[typ].pop(n, None)

    def item(self):
        rng = self.rng
        i = next(self.n)
        kind = rng.choice(["macro", "undef", "struct", "struct", "union", "enum", "typedef", "var", "func", "mention", "mention", "forward", "unnamed", "unnamed"])
        L = self.lines.append
        if kind == "macro":
            n = rng.choice(["M1", "M2", "M3"])
            L("#define %s %d" % (n, i))
            self.add("macros", n, str(i))
            self.add("values", n, i)
        elif kind == "undef":
            if self.model["macros"]:
                n = rng.choice(sorted(self.model["macros"]))
                L("#undef " + n)
                self.rem("macros", n)
            else:
                L("#undef M1")
        elif kind in ("struct", "union"):
            n = rng.choice(["A", "B", "C", "anon_struct0", "anon_union1", "anon_struct2"])
            ms = ["m%d_%d" % (i, j) for j in range(rng.randint(1, 3))]
            L("%s %s { %s };" % (kind, n, " ".join("int %s;" % m for m in ms)))
            self.add(kind + "s", n, ms)
            self.add("types", "%s %s" % (kind, n), None)
        elif kind == "enum":
            n = rng.choice(["A", "E", "F"])
            L("enum %s { e%d, f%d = 9 };" % (n, i, i))
            self.add("enums", n, {"e%d" % i: 0, "f%d" % i: 9})
            self.add("values", "e%d" % i, 0)
            self.add("values", "f%d" % i, 9)
            self.add("types", "enum " + n, None)
        elif kind == "typedef":
            n = rng.choice(["T1", "T2"])
            L("typedef %s %s;" % (rng.choice(["int", "short", "long"]), n))
            self.add("types", n, None)
        elif kind == "var":
            n = "v%d" % i
            L("int %s = %d;" % (n, i))
            self.add("variables", n, i)
            self.add("values", n, i)
        elif kind == "func":
            n = rng.choice(["fn1", "fn2", "fn3"])
            L("int %s(int a%d);" % (n, i))
            self.add("functions", n, ["a%d" % i])
        elif kind in ("mention", "forward"):
            su = rng.choice(["struct", "union"])
            n = rng.choice(["A", "B", "C"])
            if kind == "forward":
                L("%s %s;" % (su, n))
            else:
                form = rng.randrange(5)
                if form == 0:
                    L("%s %s *q%d;" % (su, n, i))
                    self.add("variables", "q%d" % i, None)
                elif form == 1:
                    L("%s %s *g%d(%s %s *p%d, int k);" % (su, n, i, su, n, i))
                    self.add("functions", "g%d" % i, ["p%d" % i, "k"])
                elif form == 2:
                    L("typedef %s %s *TP%d;" % (su, n, i))
                    self.add("types", "TP%d" % i, None)
                elif form == 3:
                    L("struct H%d { %s %s *x%d; int y%d; };" % (i, su, n, i, i))
                    self.add("structs", "H%d" % i, ["x%d" % i, "y%d" % i])
                    self.add("types", "struct H%d" % i, None)
                else:
                    L("void k%d(const %s %s *p%d);" % (i, su, n, i))
                    self.add("functions", "k%d" % i, ["p%d" % i])
            # a mention declares the type when nothing did
            if n not in self.model[su + "s"]:
                self.files[self.name].setdefault("mentioned", set()).add((su, n))
                self.model.setdefault("mentioned", set()).add((su, n))
        elif kind == "unnamed" and self.anon:
            su = rng.choice(["struct", "union"])
            m = "um%d" % i
            if rng.random() < 0.5:
                L("%s { int %s; } uv%d;" % (su, m, i))
                self.add("variables", "uv%d" % i, None)
                self.unnamed.append((su, m, "variables", "uv%d" % i))
            else:
                L("typedef %s { int %s; } ut%d;" % (su, m, i))
                self.add("types", "ut%d" % i, None)
                self.unnamed.append((su, m, "types", "ut%d" % i))


def members(c):
    return [m[0] for m in c["members"]]


def check(o, case, p, t):
    """Definitions of the parser p against those of the model t."""
    d = p.defs
    gen = {su: [] for su in ("struct", "union")}
    for su, m, cat, n in t.unnamed:
        own = [k for k, v in d[su + "s"].items() if v and members(v) == [m]]
        if not o.eq(case + ": unnamed %s of %s" % (su, n), lambda: len(own), 1):
            return
        typ = d[cat][n][1] if cat == "variables" else d[cat][n]
        o.eq(case + ": type of %s" % n, lambda: typ[0], "%s %s" % (su, own[0]))
        gen[su].append(own[0])
    for su in gen:
        o.eq(case + ": unnamed %ss are distinct" % su, lambda: len(set(gen[su]) | set(n for n in t.model[su + "s"])), len(gen[su]) + len(t.model[su + "s"]))
    for su in ("struct", "union"):
        for n, ms in t.model[su + "s"].items():
            o.eq(case + ": %s %s" % (su, n), lambda: members(d[su + "s"][n]), ms)
        known = set(t.model[su + "s"]) | set(gen[su]) | {n for s, n in t.model.get("mentioned", ()) if s == su}
        o.eq(case + ": no other %s" % su, lambda: sorted(set(d[su + "s"]) - known), [])
    for n, v in t.model["values"].items():
        o.eq(case + ": value " + n, lambda: d["values"][n], v)
    for n, v in t.model["macros"].items():
        o.eq(case + ": macro " + n, lambda: d["macros"][n].strip(), v)
    for k in ("macros", "enums", "functions", "fnmacros"):
        o.eq(case + ": names of " + k, lambda: sorted(d[k]), sorted(t.model[k]))
    for n, v in t.model["enums"].items():
        o.eq(case + ": enum " + n, lambda: dict(d["enums"][n]), v)
    for n, v in t.model["functions"].items():
        o.eq(case + ": function " + n, lambda: [a[0] for a in d["functions"][n][1]], v)
    o.eq(case + ": names of variables", lambda: sorted(set(t.model["variables"]) - set(d["variables"])), [])
    for n, v in t.model["variables"].items():
        if v is not None:
            o.eq(case + ": variable " + n, lambda: d["variables"][n][0], v)
    o.eq(case + ": names of types", lambda: sorted(set(t.model["types"]) - set(d["types"])), [])
    # each definition is in the table of its file, and in no other
    for f, tab in t.files.items():
        for k in CATS:
            for n in tab[k]:
                o.true(case + ": %s %s is recorded for %s" % (k, n, f), lambda: n in p.file_defs[f][k])
                if t.model[k].get(n) is tab[k][n] and len([1 for g in t.files.values() if n in g[k]]) == 1:
                    o.eq(case + ": %s %s as recorded for %s" % (k, n, f), lambda: plain(p.file_defs[f][k][n]), plain(d[k][n]))
    for f in p.file_defs:
        for k in ("macros", "enums", "functions", "variables"):
            o.eq(case + ": %s recorded for %s" % (k, f), lambda: sorted(p.file_defs[f][k]), sorted(t.files.get(f, {}).get(k, {})))
        for k in CATS:
            o.eq(case + ": %s of %s are known" % (k, f), lambda: sorted(set(p.file_defs[f][k]) - set(d[k])), [])


def texts(o, it):
    from pyclibrary import CParser

    rng = o.rng
    d = o.dir("t%d" % it)
    t = Text(rng, rng.randrange(5) * 100)
    paths, src = [], []
    for j in range(rng.randint(1, 3)):
        path = os.path.join(d, "f%d.h" % j)
        text = t.file("f%d.h" % j, rng.randint(1, 10))
        open(path, "w").write(text)
        paths.append(path)
        src.append(text)
    case = "files %r" % (src,)
    r = o.outcome(lambda: CParser(paths))
    if r[0] != "ok":
        o.eq(case, lambda: (_ for _ in ()).throw(r[1] or RuntimeError("no answer")), None)
        return None
    # generated names may clash with names of structures defined later
    if not any(n.startswith("anon_") for k in ("structs", "unions") for n in t.model[k]) or not t.unnamed:
        check(o, case, r[1], t)
    return r[1], t, case


def unnamed(o, it):
    """Unnamed structures after named ones that look like generated names."""
    from pyclibrary import CParser

    rng = o.rng
    su = rng.choice(["struct", "union"])
    taken = sorted(rng.sample(range(5), rng.randint(0, 4)))
    k = rng.randint(1, 4)
    text = "".join("%s anon_%s%d { int t%d; };\n" % (su, su, j, j) for j in taken)
    own = "".join("%s { int u%d; } v%d;\n" % (su, j, j) for j in range(k))
    d = o.dir("u%d" % it)
    a, b = os.path.join(d, "a.h"), os.path.join(d, "b.h")
    open(a, "w").write(text)
    open(b, "w").write(own)
    mode = rng.randrange(3)
    if mode == 0:
        p = CParser([a, b])
    elif mode == 1:
        p = CParser([b], copy_from=CParser([a]))
    else:
        open(b, "w").write(text + own)
        p = CParser([b])
    case = "unnamed %s (way %d) after %r: %r" % (su, mode, text, own)
    for j in taken:
        o.eq(case + ": %d" % j, lambda: members(p.defs[su + "s"]["anon_%s%d" % (su, j)]), ["t%d" % j])
    for j in range(k):
        o.eq(case + ": v%d" % j, lambda: members(p.defs[su + "s"][p.defs["variables"]["v%d" % j][1][0].split(" ", 1)[1]]), ["u%d" % j])


def copies(o, it):
    from pyclibrary import CParser

    rng = o.rng
    d = o.dir("c%d" % it)
    ps, order = [], []
    for j in range(rng.randint(1, 3)):
        t = Text(rng, 100 * (j + 1), anon=(j == 0))
        f = os.path.join(d, "src%d_%d.h" % (j, it))
        open(f, "w").write(t.file(os.path.basename(f), rng.randint(1, 8)))
        ps.append(CParser([f]))
        order.append(open(f).read())
    before = [(plain(tables(p.defs)), plain(files(p.file_defs))) for p in ps]
    arg = ps[0] if len(ps) == 1 and rng.random() < 0.6 else list(ps)
    q = CParser(copy_from=arg, process_all=rng.random() < 0.5)
    want = {k: {} for k in CATS}
    for p in ps:
        for k in CATS:
            want[k].update(tables(p.defs)[k])
    case = "copy of %r" % (order,)
    o.eq(case + ": definitions", lambda: tables(q.defs), want)
    # what is added afterwards does not reach the parsers copied
    t = Text(rng, 900, anon=False)
    f = os.path.join(d, "own.h")
    open(f, "w").write(t.file("own.h", 6))
    q2 = CParser([f], copy_from=arg)
    case += " then %r" % open(f).read()
    for p, b in zip(ps, before):
        o.eq(case + ": the parsers copied are unchanged", lambda: (plain(tables(p.defs)), plain(files(p.file_defs))), b)
    # definitions copied are kept unless defined again or undefined
    for k in ("structs", "unions", "enums", "functions"):
        for n, v in want[k].items():
            if n not in t.model[k]:
                o.eq(case + ": %s %s is kept" % (k, n), lambda: plain(q2.defs[k][n]), v)
    for su in ("structs", "unions"):
        for n, ms in t.model[su].items():
            o.eq(case + ": %s %s" % (su, n), lambda: members(q2.defs[su][n]), ms)
    for n in t.model["macros"]:
        o.eq(case + ": macro %s" % n, lambda: q2.defs["macros"][n].strip(), t.model["macros"][n])


def run(o):
    for it in range(o.scale(300, 3000)):
        history(o, it)
    for it in range(o.scale(80, 800)):
        unnamed(o, it)
    for it in range(o.scale(200, 2500)):
        texts(o, it)
    for it in range(o.scale(60, 800)):
        copies(o, it)
