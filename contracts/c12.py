"""C12: enumerators get the values C gives them."""
from pyvc.sym import *
from pyvc.values import _ctr
from contracts.c14 import CATS, Tokens, tokens
from pyclibrary import c_parser
from pyclibrary.c_parser import CParser

FUNCTIONS = ["CParser.process_enum", "CParser.eval_expr"]
HARNESSES = ["numbering", "naming", "mention", "expression"]
ASSUMPTIONS = [
    "add_def records the value under the name in the table (proved in C14)",
    "the enumerators of one enum have different names (C requires it)",
    "eval_expr returns the value of the initialiser (an integer) when it can be evaluated; Python's eval and the number grammar are trusted (see C19)",
]


class World:
    pass


def world(E):
    w = World()
    w.tables = {k: symdict(E, k) for k in CATS}
    d = MDict(E, None, tuple((k, w.tables[k]) for k in reversed(CATS)))
    w.p = SObj(E, CParser, dict(defs=d, current_file=E.fresh("file", "str"), file_defs=MDict(E)))

    def rec(E, a, k):
        x = [E.resolve(v) for v in a[1:]]
        E.dict_set(w.tables[x[0]], x[1], x[2])

    E.contract(CParser.add_def, rec)
    return w


def header(E):
    """name of the enum as the grammar gives it; returns (token, name, given)"""
    form = E.choose(3)
    name = E.fresh("name", "str")
    E.assume(name.t != "")
    if form == 0:
        return "", None
    return (name if form == 1 else tokens(E, [name])), name


def members(E, w):
    """Any number of enumerators, each with or without an initialiser."""
    n = z3.Int(E.name("members"))
    E.assume(n >= 1)
    nm = z3.Function(E.name("enumerator"), INT, STR)
    pos = z3.Function(E.name("enumerator_pos"), STR, INT)
    has = z3.Function(E.name("has_init"), INT, BOOL)
    txt = z3.Function(E.name("init_text"), INT, STR)
    w.init = z3.Function(E.name("init_value"), INT, INT)
    w.V = z3.Function(E.name("C_value"), INT, INT)
    q = z3.Int("q!nm")
    E.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < n), pos(nm(q)) == q), patterns=[nm(q)]))
    E.assume(z3.ForAll([q], (txt(q) != "") == has(q), patterns=[txt(q)]))
    w.n, w.nm, w.pos, w.has, w.txt = n, nm, pos, has, txt
    if E.bound is not None:
        k = 1 + E.choose(E.bound)
        E.assume(n == k)
        return MList(E, [Item(tokens(E, [], name=SV(nm(j), "str"), value=SV(txt(j), "str"))) for j in range(k)])
    p = z3.Int("em!%d" % next(_ctr))
    E.mark_index(p)
    return MList(E, E.norm((Map(n, Fn(p, tokens(E, [], name=SV(nm(p), "str"), value=SV(txt(p), "str")))),)))


def value(E, w, t):
    """C's rule, unfolded at t"""
    t = simp(t) if isinstance(t, z3.ExprRef) else z3.IntVal(t)
    E.assume(w.V(t) == z3.If(w.has(t), w.init(t), z3.If(t == 0, 0, w.V(simp(t - 1)) + 1)))
    return w.V(t)


def numbering(E):
    w = world(E)
    tok, name = header(E)
    ms = members(E, w)
    before = {k: content(w.tables[k]) for k in CATS}
    for q in range((E.bound or -1) + 1):
        value(E, w, z3.IntVal(q))

    def ev(E, a, k):
        """value of initialiser number i; all enumerators before it are known"""
        x = E.resolve(a[1])
        i = E.loop_stack[0][1] if E.loop_stack else None
        if i is None or E.bound is not None:
            # the initialiser evaluated is found by its text
            for j in range(E.bound or 0):
                if z3.is_app(x.t) and x.t.eq(w.txt(z3.IntVal(j))):
                    i = z3.IntVal(j)
        if i is None:
            raise Unsupported("initialiser evaluated outside the loop over the enumerators")
        E.prove_eq(x, SV(w.txt(i), "str"), "enum: the initialiser of the enumerator is evaluated")
        E.prove(w.has(i), "enum: only initialisers are evaluated")
        j = E.fresh_t("j", INT)
        E.assume(z3.And(j >= 0, j < i))
        value(E, w, j)
        ok, v = E.dict_get(w.tables["values"], SV(w.nm(j), "str"))
        E.prove(ok, "enum: initialisers can use the enumerators before them")
        if ok:
            E.prove_eq(v, SV(w.V(j), "int"), "enum: with their values")
        return SV(w.init(i), "int")

    E.contract(CParser.eval_expr, ev)

    def mine(t, k):
        return z3.And(w.pos(k) >= 0, w.pos(k) < t, w.nm(w.pos(k)) == k)

    def table(base):
        def at(E, t):
            def val(k):
                p = w.pos(k)
                value(E, w, p)
                return Choice([(mine(t, k), SV(w.V(p), "int"))] + [(z3.And(z3.Not(mine(t, k)), c), v) for c, v in others(E, base, k)])

            return (SymDict(lambda k: z3.Or(mine(t, k), z3.BoolVal(False) if base is None else base.has(k)), val, None, None, None, "str"), ())

        return at

    def others(E, base, k):
        return [] if base is None else [(z3.BoolVal(True), base.val(k))]

    def cand():
        pass

    def factory(E, cell, k, e0):
        if isinstance(cell, MDict):
            if cell is w.tables["values"]:
                return table(before["values"][0])
            if e0 == (None, ()):
                return table(None)
            return None
        if isinstance(e0, int) and not isinstance(e0, bool):
            def at(E, t):
                t = simp(t)
                value(E, w, t - 1)
                return E.lower(SV(z3.If(t == 0, z3.IntVal(e0), w.V(simp(t - 1)) + (e0 + 1)), "int"))
            # the next value when it starts with 0, the last one with -1
            return at if e0 in (0, -1) else None
        return None

    cand.factory = factory
    E.cands.append(cand)
    d = dict(members=ms, name=tok)
    t = tokens(E, [], **d)
    got = outcome(E, lambda: E.call(E.wrap(CParser.process_enum), [w.p, E.fresh("s", "str"), E.fresh("loc", "int"), t], {}))
    E.prove(got[0] == "return", "enum: no exception")
    if got[0] != "return":
        return
    E.must_reach("named", "anonymous")
    E.reach("named" if name is not None else "anonymous")
    # the name under which it is recorded
    r = E.resolve(got[1])
    if name is None:
        rest = z3.SubString(E.lift(r), 5, z3.Length(E.lift(r)) - 5)
        E.prove(z3.PrefixOf(z3.StringVal("enum "), E.lift(r)), "enum: denotes an enum")
        nn = SV(E.fresh_t("nn", STR), "str")
        E.assume(z3.Concat(z3.StringVal("enum "), nn.t) == E.lift(r))
        old = MDict(E)
        old.d["c"] = before["enums"]
        E.prove(not E.dict_get(old, nn)[0], "enum: the generated name is new")
    else:
        nn = name
        E.prove_eq(r, SV(z3.Concat(z3.StringVal("enum "), name.t), "str"), "enum: denotes the definition")
    ok, e = E.dict_get(w.tables["enums"], nn)
    E.prove(ok, "enum: recorded under its name")
    e = E.resolve(e)
    E.prove(isinstance(e, MDict), "enum: recorded as a dict of its enumerators")
    if not isinstance(e, MDict):
        return
    j = E.fresh_t("j", INT)
    E.assume(z3.And(j >= 0, j < w.n))
    v = value(E, w, j)
    for label, tab in (("in the enum", e), ("as a value", w.tables["values"])):
        ok, g = E.dict_get(tab, SV(w.nm(j), "str"))
        E.prove(ok, "enum: every enumerator is recorded %s" % label)
        if ok:
            E.prove_eq(g, SV(v, "int"), "enum: value of the enumerators %s" % label)
    # nothing else
    x = E.fresh("other", "str")
    E.assume(z3.Not(z3.And(w.pos(x.t) >= 0, w.pos(x.t) < w.n, w.nm(w.pos(x.t)) == x.t)))
    E.prove(not E.dict_get(e, x)[0], "enum: only its enumerators are recorded")
    same_but(E, w.tables["values"], before["values"], x, "enum: other values are unchanged")
    y = E.fresh("other_enum", "str")
    E.assume(y.t != nn.t)
    same_but(E, w.tables["enums"], before["enums"], y, "enum: other enums are unchanged")
    for k in CATS:
        if k not in ("values", "enums", "types"):
            unchanged(E, w.tables[k], before[k], "enum: other tables are unchanged")


def same_but(E, tab, before, x, label):
    old = MDict(E)
    old.d["c"] = before
    a, b = E.dict_get(old, x), E.dict_get(tab, x)
    E.prove(a[0] == b[0], label)
    if a[0] and b[0]:
        E.prove_eq(b[1], a[1], label)


def naming(E):
    """An unnamed enum gets a name no enum has (numbering above proves it with
    members; here for the search alone)."""
    w = world(E)
    before = content(w.tables["enums"])
    E.contract(CParser.eval_expr, lambda E, a, k: E.fresh("init", "int"))
    t = tokens(E, [], members=MList(E, [Item(tokens(E, [], name=E.fresh("a", "str"), value=""))]), name="")
    got = outcome(E, lambda: E.call(E.wrap(CParser.process_enum), [w.p, E.fresh("s", "str"), E.fresh("loc", "int"), t], {}))
    E.must_reach("end")
    E.reach("end")
    E.prove(got[0] == "return", "enum: no exception")
    y = E.fresh("old", "str")
    old = MDict(E)
    old.d["c"] = before
    a = E.dict_get(old, y)
    if a[0]:
        b = E.dict_get(w.tables["enums"], y)
        E.prove(b[0], "enum: no enum is replaced by an unnamed one")
        if b[0]:
            E.prove_eq(b[1], a[1], "enum: no enum is replaced by an unnamed one")


def mention(E):
    """enum NAME, without enumerators."""
    w = world(E)
    name = E.fresh("name", "str")
    E.assume(name.t != "")
    t = tokens(E, [], members="" if E.choose(2) else MList(E), name=name if E.choose(2) else tokens(E, [name]))
    known, v = E.dict_get(w.tables["enums"], name)
    before = {k: content(w.tables[k]) for k in CATS}
    got = outcome(E, lambda: E.call(E.wrap(CParser.process_enum), [w.p, E.fresh("s", "str"), E.fresh("loc", "int"), t], {}))
    E.must_reach("known", "new")
    E.reach("known" if known else "new")
    same(E, got, ("return", SV(z3.Concat(z3.StringVal("enum "), name.t), "str")), "mention: denotes the enum")
    unchanged(E, w.tables["values"], before["values"], "mention: no value changes")
    if known:
        ok, x = E.dict_get(w.tables["enums"], name)
        E.prove(ok, "mention: the definition is kept")
        if ok:
            E.prove_eq(x, v, "mention: the definition is left as it is")
    y = E.fresh("other", "str")
    E.assume(y.t != name.t)
    same_but(E, w.tables["enums"], before["enums"], y, "mention: other enums are unchanged")


def expression(E):
    """eval_expr of a text: the value of the text among the values known, None
    when it cannot be evaluated."""
    w = world(E)
    s = E.fresh("text", "str")
    r = E.fresh("value", "int")
    log = []

    def ev(E, a, k):
        E.prove_eq(a[1], s, "eval_expr: the text is evaluated")
        E.prove(len(a) > 3 and E.resolve(a[3]) is w.tables["values"], "eval_expr: among the values known")
        log.append(1)
        if E.choose(2):
            E.py_raise(SyntaxError, "text")
        return r

    E.contract(CParser.eval, ev)
    got = outcome(E, lambda: E.call(E.wrap(CParser.eval_expr), [w.p, s], {}))
    E.prove(got[0] == "return", "eval_expr: no exception")
    if got[0] == "return" and got[1] is not None:
        E.prove_eq(got[1], r, "eval_expr: value")
