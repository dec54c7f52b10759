"""Random libraries whose names exist in several categories and prefixed
forms, accessed in random orders."""
import ctypes as ct
import itertools

from oracles.lib import Raises
from oracles.fake import header, library

CATS = ["values", "functions", "types", "structs", "unions", "enums"]
CT = [("short", ct.c_short), ("double", ct.c_double), ("unsigned char", ct.c_ubyte), ("float", ct.c_float), ("long", ct.c_long)]


class Model:
    """What a library defines, and its header."""

    def __init__(self, rng, names, dens):
        self.defs = {k: {} for k in CATS}
        self.alias = {}
        out = {k: [] for k in CATS + ["macro", "alias"]}
        c = itertools.count(1)
        for n in names:
            if rng.random() < dens:
                if rng.random() < 0.3:
                    out["values"].append("int %s;" % n)
                    self.defs["values"][n] = None
                else:
                    v = next(c)
                    out["macro"].append("#define %s %d" % (n, v))
                    self.defs["values"][n] = v
            if rng.random() < dens:
                out["functions"].append("int %s(int a);" % n)
                self.defs["functions"][n] = ("function", n)
            if rng.random() < dens:
                if rng.random() < 0.6:
                    t, cls = rng.choice(CT)
                    out["types"].append("typedef %s %s;" % (t, n))
                    self.defs["types"][n] = ("class", cls)
                else:
                    kind = rng.choice(["struct", "union", "enum"])
                    tag = "tag_%s_%s" % (kind, n)
                    i = next(c)
                    if kind == "enum":
                        out["types"].append("typedef enum %s { e_%d = %d } %s;" % (tag, i, i, n))
                        self.defs["enums"][tag] = {"e_%d" % i: i}
                        self.defs["values"]["e_%d" % i] = i
                        self.defs["types"][n] = ("class", ct.c_int)
                    else:
                        out["types"].append("typedef %s %s { int m_%d; } %s;" % (kind, tag, i, n))
                        self.defs[kind + "s"][tag] = (kind, ["m_%d" % i])
                        self.defs["types"][n] = (kind, ["m_%d" % i])
                    self.alias[n] = (kind, tag)
            for kind in ("struct", "union"):
                if rng.random() < dens * 0.6:
                    i = next(c)
                    out[kind + "s"].append("%s %s { int m_%d; };" % (kind, n, i))
                    self.defs[kind + "s"][n] = (kind, ["m_%d" % i])
            if rng.random() < dens * 0.6:
                i = next(c)
                out["enums"].append("enum %s { e_%d = %d };" % (n, i, i))
                self.defs["enums"][n] = {"e_%d" % i: i}
                self.defs["values"]["e_%d" % i] = i
        self.text = "\n".join(x for k in CATS + ["alias", "macro"] for x in out[k]) + "\n"

    def forms(self, prefixes, n):
        return [n] + [p + n for p in prefixes]

    def category(self, prefixes, cat, name):
        if cat not in CATS:
            return KeyError
        for n in self.forms(prefixes, name):
            if n in self.defs[cat]:
                return self.defs[cat][n]
            if cat in ("structs", "unions", "enums") and n in self.defs["types"]:
                kind, tag = self.alias.get(n, (None, None))
                if kind is None:
                    return (KeyError, NameError)
                if cat == "enums":
                    return self.defs["enums"][tag] if kind == "enum" else KeyError
                if kind + "s" == cat:
                    return self.defs[cat][tag]
                return (KeyError, NameError)
        return NameError

    def attribute(self, prefixes, name):
        for cat in CATS:
            for n in self.forms(prefixes, name):
                if n in self.defs[cat]:
                    v = self.defs[cat][n]
                    if v is not None:
                        return v
                    break
        return NameError


def describe(obj, dll):
    if isinstance(obj, type):
        if issubclass(obj, ct.Structure):
            return ("struct", [f[0] for f in obj._fields_])
        if issubclass(obj, ct.Union):
            return ("union", [f[0] for f in obj._fields_])
        return ("class", obj)
    if isinstance(obj, (dict, int)) or obj is None:
        return obj
    if callable(obj):
        before = {k: len(f.calls) for k, f in dll.funcs.items()}
        obj(1)
        called = [k for k, f in dll.funcs.items() if len(f.calls) > before.get(k, 0)]
        return ("function", called[0]) if len(called) == 1 else ("function", called)
    return obj


def run(o):
    rng = o.rng
    for rnd in range(o.scale(110, 1500)):
        npre = rng.randint(0, 3)
        prefixes = rng.sample(["P_", "q", "P_q", "zz_"], npre)
        base = ["x", "y", "qx", "w"]
        names = sorted({b for b in base} | {p + b for p in prefixes for b in base[:3]})
        if rng.random() < 0.3:
            names = names[:5]
        m = Model(rng, names, rng.choice([0.15, 0.3, 0.5]))
        prefix = prefixes if npre != 1 or rng.random() < 0.5 else prefixes[0]
        if npre == 0:
            prefix = rng.choice([None, []])
        pk = (lambda: list(prefix) if isinstance(prefix, list) else prefix)
        # the headers: a parser, or files to parse and arguments of a parser
        pre = None if rng.random() < 0.5 else "z" + prefixes[0] if prefixes else "zz"
        if pre is None:
            lib, dll = library(o, m.text, prefix=pk())
        else:
            lib, dll = library(o, [header(o, m.text)], prefix=pk(), cache=None, macros={pre + "_extra": "17"})
            o.eq("macros given to the constructor", lambda: lib["macros"][pre + "_extra"], "17")
        snap = {k: dict(lib[k]) for k in CATS}
        asked = names + ["nosuch", "tag_struct_x", "e_1"]
        hist = []
        first = {}
        todo = []
        for n in asked:
            todo.append((None, n))
            for c in CATS:
                if rng.random() < 0.35:
                    todo.append((c, n))
        todo += [("nosuchcategory", "x"), ("variables", "x")]
        todo += [rng.choice(todo) for _ in range(15)]
        rng.shuffle(todo)
        for c, n in todo:
            want = m.attribute(prefixes, n) if c is None else m.category(prefixes, c, n)
            label = "%s with prefix %r after %s in\n%s" % (
                "lib.%s" % n if c is None else "lib(%r, %r)" % (c, n),
                prefix,
                hist[-6:],
                m.text,
            )
            excs = want if isinstance(want, tuple) and isinstance(want[0], type) else (want,)
            get = lambda: getattr(lib, n) if c is None else lib(c, n)
            if isinstance(excs[0], type) and issubclass(excs[0], BaseException):
                o.eq(label, get, Raises(*excs))
            else:

                def go():
                    ob = get()
                    d = describe(ob, dll)
                    if (c, n) in first and first[c, n] is not ob:
                        return d, "another object than before"
                    first[c, n] = ob
                    if get() is not ob:
                        return d, "not the same object again"
                    if c is None and isinstance(ob, type) and False:
                        return d
                    return d, "ok"

                o.eq(label, go, (want, "ok"))
            hist.append((c, n))
        o.eq("definitions unchanged by access\n" + m.text, lambda: {k: dict(lib[k]) for k in CATS} == snap, True)
