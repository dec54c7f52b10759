"""Random typedef tables, with cycles, unknown names and qualifiers."""
import copy
import os

from oracles.lib import Raises

WORDS = [
    "int", "char", "unsigned char", "signed char", "short", "signed short int", "signed", "unsigned", "unsigned long",
    "long long", "float", "double", "void", "bool", "wchar_t", "size_t", "int8_t", "uint64_t", "signed int", "long signed int",
    "struct s", "union u", "enum e", "struct signed_s", "struct T0", "union T1", "signed signed char",
]
QUALS = [(), (), (), ("const",), ("volatile",), ("const", "volatile"), ("restrict",)]
NAMES = ["T%d" % i for i in range(8)] + ["sign", "intx", "structx", "enumx", "unsigned_t", "my_int"]


def decl(rng, Type):
    r = rng.random()
    if r < 0.5:
        return rng.choice(["*", "*", "&", "__cdecl"])
    if r < 0.8:
        return [rng.choice([-1, 0, 1, 5])]
    return tuple((rng.choice([None, "a"]), Type(rng.choice(["int", "T0", "T1"])), None) for _ in range(rng.randint(0, 2)))


def rtype(rng, Type, spec):
    ds = [decl(rng, Type) for _ in range(rng.choice([0, 0, 1, 1, 2, 3]))]
    if rng.random() < 0.4:
        return Type(spec, *ds)
    return Type(spec, *ds, type_quals=tuple(rng.choice(QUALS) for _ in range(len(ds) + 1)))


def is_fund(spec):
    if spec.startswith(("struct ", "union ", "enum ")):
        return True
    ok = set("int char short long float double void bool wchar wchar_t signed unsigned size_t ssize_t time_t".split())
    ok |= {"%sint%d_t" % (u, n) for u in ("", "u") for n in (8, 16, 32, 64)}
    return all(w in ok for w in spec.split())


def resolve(t, table):
    """Reference: walk the chain, keeping the modifiers behind those of the
    typedef followed."""
    spec, ds, qs = t[0], list(t[1:]), [tuple(q) for q in t.type_quals]
    seen = set()
    while not is_fund(spec):
        if spec in seen or spec not in table:
            return None
        seen.add(spec)
        p = table[spec]
        pq = [tuple(q) for q in p.type_quals]
        qs = pq[:-1] + [pq[-1] + qs[0]] + qs[1:]
        ds = list(p[1:]) + ds
        spec = p[0]
    words = [w for w in spec.split(" ") if w != "signed"]
    return (" ".join(words) or "int"), ds, qs


def shape(t):
    return (type(t).__name__, tuple(t), [tuple(q) for q in t.type_quals])


def tables(o, it):
    from pyclibrary.c_parser import Type, DefinitionError, CParser

    rng = o.rng
    names = rng.sample(NAMES, rng.randint(1, 8))
    table = {}
    mode = rng.random()
    for i, n in enumerate(names):
        r = rng.random()
        if mode < 0.6 and i + 1 < len(names) and r < 0.85:
            spec = names[i + 1]
        elif r < 0.6:
            spec = rng.choice(names + ["unknown"])
        else:
            spec = rng.choice(WORDS)
        table[n] = rtype(rng, Type, spec)
    keep = copy.deepcopy({k: shape(v) for k, v in table.items()})
    parser = CParser(process_all=False)
    parser.defs["types"] = table
    for spec in rng.sample(names, min(3, len(names))) + [rng.choice(WORDS), "unknown"]:
        t = rtype(rng, Type, spec)
        me = shape(t)
        want = resolve(t, table)
        case = "%r in %r" % (t, table)
        for how, fn in (("Type.eval", lambda: t.eval(table)), ("again", lambda: t.eval(table)), ("eval_type", lambda: parser.eval_type(t))):
            if want is None:
                o.eq("%s: %s" % (how, case), fn, Raises(DefinitionError), secs=10)
            else:
                o.eq("%s: %s" % (how, case), lambda: shape(fn()), ("Type", (want[0], *want[1]), want[2]), secs=10)
        if want is not None and not any(t.type_quals):
            o.eq("tuple: %s" % case, lambda: tuple(parser.eval_type(tuple(t))), (want[0], *want[1]))
        o.eq("type kept: %s" % case, lambda: shape(t), me)
        o.eq("fundamental: %r" % (t,), lambda: bool(t.is_fund_type()), is_fund(spec))
        o.eq("fundamental: %r" % (spec,), lambda: bool(parser.is_fund_type(spec)), is_fund(spec))
    o.eq("table kept: %r" % (table,), lambda: {k: shape(v) for k, v in table.items()}, keep)


def long_chain(o, n):
    from pyclibrary.c_parser import Type, DefinitionError

    table = {"t%d" % i: Type("t%d" % (i + 1), "*", type_quals=((str(i),), ())) for i in range(n)}
    table["t%d" % n] = Type("signed char")
    t = Type("t0", [2])
    w = resolve(t, table)
    o.eq("chain of %d typedefs" % n, lambda: shape(t.eval(table)), ("Type", (w[0], *w[1]), w[2]))
    for back in (0, n // 2, n):
        table["t%d" % n] = Type("t%d" % back)
        o.eq("cycle back to %d of %d" % (back, n), lambda: t.eval(table), Raises(DefinitionError))


def headers(o, it):
    """Chains written in C."""
    from pyclibrary import CParser
    from oracles.fake import parser

    rng = o.rng
    lines, exp = [], {}
    prev, cur = rng.choice([("unsigned char", "unsigned char"), ("signed int", "int"), ("struct q", "struct q"), ("signed", "int")])
    ds, qs = [], [()]
    for i in range(rng.randint(1, 6)):
        q = rng.choice(["", "const ", "volatile "])
        suffix, add = rng.choice([("", []), ("[%d]" % (i + 2), [[i + 2]])])
        star, st = rng.choice([("", []), ("*", ["*"])])
        lines.append("typedef %s%s %sC%d%s;" % (q, prev, star, i, suffix))
        ds = ds + st + add
        qs = qs[:-1] + [qs[-1] + ((q.strip(),) if q else ())] + [()] * len(st + add)
        prev = "C%d" % i
        exp[prev] = (cur, list(ds), list(qs))
    order = list(lines)
    if rng.random() < 0.3:
        rng.shuffle(order)
    p = parser(o, "\n".join(order) + "\n")
    for n, (b, d, q) in exp.items():
        o.eq("%s in %r" % (n, order), lambda: shape(p.eval_type([n])), ("Type", (b, *d), q))


def run(o):
    for n in (1, 2, 50, 200):
        long_chain(o, n)
    for it in range(o.scale(1500, 15000)):
        tables(o, it)
    for it in range(o.scale(60, 600)):
        headers(o, it)
