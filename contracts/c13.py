"""C13: declarators are recorded as the C type they declare.

process_declarator is verified for one level of the nest; the level inside the
parentheses, and the types of parameters, are the contracts of the (mutually
recursive) functions themselves:
  process_declarator(d) = (name, modifiers, qualifiers), one list of
  qualifiers more than there are modifiers."""
from contracts import c14
from contracts.c14 import Tokens, tokens
from pyvc.sym import *
from pyvc.values import _ctr
from pyvc.ops import simp
from pyclibrary.c_parser import CParser, Type
from pyclibrary import c_parser

FUNCTIONS = [
    "CParser.process_declarator", "CParser.process_type", "CParser.process_function", "CParser.process_variable",
    "CParser.process_typedef", "CParser.process_struct", "Type.__init__", "Type.add_compatibility_hack", "Type.remove_compatibility_hack",
]
HARNESSES = ["declarator", "typed", "function", "declared", "forms", "members"]
SECS = 600
ASSUMPTIONS = [
    "pyparsing gives the parts of a declarator (qualifiers, convention, pointers, parenthesised declarator, parameters, arrays) as written: exercised by the oracle",
    "the value of an array size or initialiser is an uninterpreted function of its text (C18)",
    "add_def records a definition under its name (proved in C14)",
]


class Part:
    """The tokens of one element of a sequence of them (data: position)."""


class Ptr(Part):
    """The qualifiers after one `*`."""

    @staticmethod
    def iter(E, o):
        f, n, j = o.data
        q = z3.Int("e!%d" % next(_ctr))
        return E.mk_tuple(E.norm((Map(n(j), Fn(q, SV(f(j, q), "str"))),)))


class Param(Part):
    @staticmethod
    def getitem(E, o, k):
        ty, dc, vn, v, j = o.data
        k = E.resolve(k)
        if k == "type":
            return SV(ty(j), "obj")
        if k == "decl":
            return Stub(E, One, dc, j)
        if k == "val":
            return Stub(E, Default, vn, v, j)
        raise Unsupported("part %r of a parameter" % (k,))

    @staticmethod
    def attr(E, o, name):
        return Param.getitem(E, o, name)


class One(Part):
    """A declarator, in a group of one."""

    @staticmethod
    def getitem(E, o, k):
        f, j = o.data
        if E.resolve(k) != 0:
            raise Unsupported("declarator %r" % (k,))
        return SV(f(j), "obj")

    @staticmethod
    def len(E, o):
        return 1


class Default(Part):
    """The default value: no token, or one."""

    @staticmethod
    def len(E, o):
        vn, v, j = o.data
        return SV(z3.If(vn(j), z3.IntVal(1), z3.IntVal(0)), "int")

    @staticmethod
    def truth(E, o):
        vn, v, j = o.data
        return bool(E.decide(vn(j)))

    @staticmethod
    def getitem(E, o, k):
        vn, v, j = o.data
        if E.resolve(k) != 0:
            raise Unsupported("default value %r" % (k,))
        if not E.decide(vn(j)):
            E.py_raise(IndexError, "no token")
        return SV(v(j), "obj")


def words(E, hint, lo=0):
    return seq(E, hint, fn_elem(E, hint, "str"), lo)


def func(E, nm, *sorts):
    return z3.Function(E.name(nm), *sorts)


def type_contract(E, typ, dc):
    """process_type(typ, dc)"""
    return (E.app("typed_name", [typ, dc]), E.app("typed_type", [typ, dc]))


def recorded_value(E, a, k):
    return E.app("evaluated", [E.resolve(a[1])])


def declarator(E):
    first = words(E, "first")
    d = {}
    if E.choose(2):
        d["first_typequal"] = E.mk_tuple(first)
    else:
        first = ()
    want, quals = [], [Item(E.mk_tuple(first))]
    # the calling convention: not there, or empty, or a word
    cc = E.choose(3)
    if cc:
        word = E.fresh("convention", "str")
        E.assume(word.t != z3.StringVal(""))
        d["call_conv"] = word if cc == 2 else ""
        if cc == 2:
            want.append(Item(word))
            quals.append(Item(None))
    p = SObj(E, CParser, {})
    if E.choose(2):
        f, n = func(E, "pq", INT, INT, STR), func(E, "pqn", INT, INT)
        j = z3.Int("e!%d" % next(_ctr))
        E.assume(z3.ForAll([j], n(j) >= 0, patterns=[n(j)]))
        ptrs = seq(E, "ptrs", lambda q: Stub(E, Ptr, f, n, q))
        d["ptrs"] = E.mk_tuple(ptrs)
        for s in ptrs:
            q = z3.Int("e!%d" % next(_ctr))
            x = z3.Int("e!%d" % next(_ctr))
            pq = lambda j: E.mk_tuple(E.norm((Map(n(j), Fn(x, SV(f(j, x), "str"))),)))
            want.append(Map(s.n, Fn(q, "*")) if isinstance(s, Map) else Item("*"))
            quals.append(Map(s.n, Fn(q, pq(q))) if isinstance(s, Map) else Item(Ptr.iter(E, s.v)))
    if E.choose(2):
        arrays = words(E, "arrays")
        d["arrays"] = E.mk_tuple(arrays)
        ev = lambda x: MList(E, [Item(E.app("evaluated", [x]))])
        for s in arrays:
            if isinstance(s, Map):
                q = z3.Int("e!%d" % next(_ctr))
                E.mark_index(q)
                want.append(Map(s.n, Fn(q, ev(s.fn(q)))))
                quals.append(Map(s.n, Fn(q, ())))
            else:
                want.append(Item(ev(s.v)))
                quals.append(Item(()))
    args = E.choose(4)
    if args == 1:
        # an empty group
        d["args"] = ()
    if args == 2:
        d["args"] = (None,)
        want.append(Item(()))
        quals.append(Item(()))
    if args == 3:
        ty, dc, v = [func(E, x, INT, U) for x in ("ptype", "pdecl", "pval")]
        vn = func(E, "hasval", INT, BOOL)
        ps = seq(E, "params", lambda q: Stub(E, Param, ty, dc, vn, v, q), 1)
        d["args"] = E.mk_tuple(ps)
        one = lambda j: tuple(type_contract(E, SV(ty(j), "obj"), SV(dc(j), "obj"))) + (Choice([(vn(j), SV(v(j), "obj")), (z3.Not(vn(j)), None)]),)
        params = []
        for s in ps:
            q = z3.Int("e!%d" % next(_ctr))
            params.append(Map(s.n, Fn(q, one(q))) if isinstance(s, Map) else Item(one(s.v.data[4])))
        want.append(Item(E.mk_tuple(E.norm(tuple(params)))))
        quals.append(Item(()))
    name = None
    if E.choose(2):
        d["ref"] = "&"
        want.append(Item("&"))
        quals.append(Item(()))
    inner = None
    kind = E.choose(3)
    if kind == 1:
        name = d["name"] = E.fresh("name", "str")
    if kind == 2:
        inner = E.fresh("inner")
        d["center"] = (inner,)
        name = E.fresh("inner_name")
        E.assume(z3.Or(U.is_none(name.t), U.is_ustr(name.t)))
        mods = seq(E, "inner_mods")
        q0 = words(E, "inner_first")
        qrest = []
        for s in mods:
            q = z3.Int("e!%d" % next(_ctr))
            g = func(E, "iq", INT, U)
            qrest.append(Map(s.n, Fn(q, SV(g(q), "obj"))) if isinstance(s, Map) else Item(SV(g(z3.IntVal(len(qrest))), "obj")))
        # qualifiers written before what is in the parentheses belong to the
        # last modifier
        last = E.norm(tuple(quals))
        n = E.rope_len(last)
        left, right = E.split_at(last, simp(n - 1))
        l = E.resolve(E.nth(right, 0))
        merged = (() if l is None else tuple(E.iter_segs(l))) + tuple(q0)
        quals = list(left) + [Item(E.mk_tuple(E.norm(merged)))] + qrest
        want += list(mods)
    t = tokens(E, [], **d)
    real = E.wrap(CParser.process_declarator)
    running = []

    def dispatch(E, a, k):
        if not running:
            running.append(1)
            try:
                return E.invoke(real, a, k)
            finally:
                running.pop()
        x = E.resolve(a[1])
        E.prove(inner is not None, "process_declarator: only the declarator in parentheses is processed in turn")
        if inner is None:
            raise PathEnd()
        E.prove_eq(x, inner, "process_declarator: only the declarator in parentheses is processed in turn")
        return (name, MList(E, mods), E.mk_tuple(E.norm((Item(E.mk_tuple(q0)),) + tuple(qrest))))

    E.contract(CParser.process_declarator, dispatch)
    E.contract(CParser.process_type, lambda E, a, k: type_contract(E, E.resolve(a[1]), E.resolve(a[2])))
    E.contract(CParser.eval_expr, recorded_value)
    E.must_reach("done")
    got = outcome(E, lambda: E.call(real, [p, t], {}))
    E.prove(got[0] == "return", "process_declarator: no exception")
    if got[0] != "return":
        return
    E.reach("done")
    r = E.iter_segs(got[1])
    E.prove(len(r) == 3, "process_declarator: name, modifiers and qualifiers")
    if len(r) != 3:
        return
    E.prove_eq(r[0].v, name, "process_declarator: the declared name")
    E.prove_segs_eq(E.iter_segs(r[1].v), E.norm(tuple(want)), "process_declarator: the modifiers in the order in which C derives them")
    E.prove_segs_eq(E.iter_segs(r[2].v), E.norm(tuple(quals)), "process_declarator: a list of qualifiers for the base and for each modifier")


# --- types ------------------------------------------------------------------------


def any_mods(E, hint="mods"):
    """A list of modifiers with one list of qualifiers more."""
    mods = seq(E, hint)
    f, n = func(E, hint + "_q", INT, INT, STR), func(E, hint + "_qn", INT, INT)
    j = z3.Int("e!%d" % next(_ctr))
    E.assume(z3.ForAll([j], n(j) >= 0, patterns=[n(j)]))

    def quals(j):
        x = z3.Int("e!%d" % next(_ctr))
        return E.mk_tuple(E.norm((Map(n(j), Fn(x, SV(f(j, x), "str"))),)))

    rest = []
    for k, s in enumerate(mods):
        q = z3.Int("e!%d" % next(_ctr))
        rest.append(Map(s.n, Fn(q, quals(q + 1))) if isinstance(s, Map) else Item(quals(z3.IntVal(k + 1))))
    return mods, quals(z3.IntVal(0)), E.norm(tuple(rest))


def typed(E):
    """The type of a declared name: its base, then the modifiers."""
    mods, q0, rest = any_mods(E)
    pre = words(E, "pre")
    base, decl, name = E.fresh("base", "str"), E.fresh("decl"), E.fresh("name")
    t = dict(name=base)
    if E.choose(2):
        t["pre_qual"] = E.mk_tuple(pre)
    else:
        pre = ()

    def inner(E, a, k):
        E.prove_eq(a[1], decl, "process_type: the declarator is processed")
        return (name, MList(E, mods), E.mk_tuple((Item(q0),) + tuple(rest)))

    E.contract(CParser.process_declarator, inner)
    p = SObj(E, CParser, {})
    E.must_reach("done")
    got = outcome(E, lambda: E.call(E.wrap(CParser.process_type), [p, tokens(E, [base], **t), decl], {}))
    E.prove(got[0] == "return", "process_type: no exception")
    if got[0] != "return":
        return
    E.reach("done")
    r = E.iter_segs(got[1])
    E.prove(len(r) == 2, "process_type: name and type")
    if len(r) != 2:
        return
    E.prove_eq(r[0].v, name, "process_type: the declared name")
    typ = E.resolve(r[1].v)
    E.prove(isinstance(typ, SObj) and typ.cls is Type, "process_type: a Type")
    if not isinstance(typ, SObj):
        return
    E.prove_segs_eq(E.iter_segs(typ), E.norm((Item(base),) + tuple(mods)), "process_type: the base type, then the modifiers")
    want = (Item(E.mk_tuple(E.norm(tuple(pre) + tuple(E.iter_segs(q0))))),) + tuple(rest)
    E.prove_segs_eq(E.iter_segs(E.getattr(typ, "type_quals")), E.norm(want), "process_type: the qualifiers of the base are the ones before and after it")


def typ_obj(E, segs, quals):
    o = SObj(E, Type, base=E.mk_tuple(E.norm(tuple(segs))))
    o.d["type_quals"] = E.mk_tuple(E.norm(tuple(quals)))
    return o


def params(E, hint="params"):
    """A parameter list (any tuple)"""
    return E.mk_tuple(seq(E, hint))


def flat_type(E, function):
    """A type in the flat form, that of a function or not."""
    mods, q0, rest = any_mods(E)
    base = E.fresh("base", "str")
    head = (Item(base),) + tuple(mods)
    hq = (Item(q0),) + tuple(rest)
    if function:
        ps = params(E)
        lq = E.mk_tuple(words(E, "last"))
        return typ_obj(E, head + (Item(ps),), hq + (Item(lq),)), head, hq, ps, lq
    # the last modifier is not a parameter list
    kind = E.choose(3)
    if kind == 0:
        return typ_obj(E, (Item(base),), (Item(q0),)), None, None, None, None
    last = E.fresh("last", "str") if kind == 1 else MList(E, [Item(E.fresh("size"))])
    lq = E.mk_tuple(words(E, "last"))
    return typ_obj(E, head + (Item(last),), hq + (Item(lq),)), None, None, None, None


def nested_is(E, r, head, hq, ps, lq, what):
    """r is the function of return type head and parameters ps"""
    r = E.resolve(r)
    ok = isinstance(r, SObj) and r.cls is Type
    E.prove(ok, what + ": a Type")
    if not ok:
        return
    segs = E.norm(E.iter_segs(r))
    E.prove(E.rope_len(segs) == 2, what + ": return type and parameters")
    ret, args = E.resolve(E.nth(segs, 0)), E.resolve(E.nth(segs, 1))
    E.prove_eq(args, ps, what + ": the parameters")
    ok = isinstance(ret, SObj) and ret.cls is Type
    E.prove(ok, what + ": the return type is a Type")
    if not ok:
        return
    E.prove_segs_eq(E.iter_segs(ret), E.norm(head), what + ": the return type")
    E.prove_segs_eq(E.iter_segs(E.getattr(ret, "type_quals")), E.norm(hq), what + ": the qualifiers of the return type")
    want = (Item(()), Item(lq))
    E.prove_segs_eq(E.iter_segs(E.getattr(r, "type_quals")), want, what + ": the qualifiers of the parameter list")


def forms(E):
    """The nested form of a function type and back."""
    case = E.choose(2)
    E.must_reach("done")
    t, head, hq, ps, lq = flat_type(E, case == 0)
    got = outcome(E, lambda: E.call(E.wrap(Type.add_compatibility_hack), [t], {}))
    E.prove(got[0] == "return", "forms: no exception")
    if got[0] != "return":
        return
    if case == 1:
        E.prove(E.resolve(got[1]) is t, "forms: a type that is not a function stays as it is")
        got = outcome(E, lambda: E.call(E.wrap(Type.remove_compatibility_hack), [t], {}))
        E.prove(got[0] == "return" and E.resolve(got[1]) is t, "forms: a flat type stays as it is")
        E.reach("done")
        return
    nested_is(E, got[1], head, hq, ps, lq, "forms: nested")
    back = outcome(E, lambda: E.call(E.getattr(got[1], "remove_compatibility_hack"), [], {}))
    E.prove(back[0] == "return", "forms: no exception")
    if back[0] != "return":
        return
    E.reach("done")
    r = E.resolve(back[1])
    E.prove(isinstance(r, SObj) and r.cls is Type, "forms: back to a Type")
    E.prove_segs_eq(E.iter_segs(r), E.iter_segs(t), "forms: nothing of the type is lost")
    E.prove_segs_eq(E.iter_segs(E.getattr(r, "type_quals")), E.iter_segs(E.getattr(t, "type_quals")), "forms: no qualifier is lost")


# --- definitions ------------------------------------------------------------------


def def_world(E):
    p = SObj(E, CParser, {})
    calls = MList(E)
    p.d["__calls"] = calls

    def rec(E, a, k):
        calls.d["c"] = calls.d["c"] + (Item(tuple(E.resolve(v) for v in a[1:])),)

    E.contract(CParser.add_def, rec)
    E.contract(CParser.eval_expr, recorded_value)
    return p, calls


def function(E):
    """A function with a body."""
    p, calls = def_world(E)
    isf = E.choose(2) == 0
    t, head, hq, ps, lq = flat_type(E, isf)
    name = E.fresh("name", "str")
    spec, decl = E.fresh("spec"), E.fresh("decl")

    def inner(E, a, k):
        E.prove_eq(a[1], spec, "process_function: the type of the declarator")
        E.prove_eq(a[2], decl, "process_function: the type of the declarator")
        return (name, t)

    E.contract(CParser.process_type, inner)
    E.must_reach("done")
    got = outcome(E, lambda: E.call(E.wrap(CParser.process_function), [p, E.fresh("s", "str"), E.fresh("loc", "int"), tokens(E, [], type=spec, decl=(decl,))], {}))
    E.prove(got[0] == "return", "process_function: no exception")
    cs = [E.resolve(x.v) for x in calls.d["c"]]
    E.reach("done")
    if not isf:
        E.prove(cs == [], "process_function: only functions are recorded")
        return
    E.prove(len(cs) == 1, "process_function: one definition")
    for c in cs:
        E.prove(c[0] == "functions", "process_function: recorded as a function")
        E.prove_eq(c[1], name, "process_function: under its name")
        nested_is(E, c[2], head, hq, ps, lq, "process_function")


def declared(E):
    """Declarations and typedefs of any number of names: what is recorded for
    each of them, in order."""
    kind = E.choose(2)
    p, _ = def_world(E)
    # what is recorded in each table; the tables do not depend on each other
    logs = {k: MList(E) for k in c14.CATS}

    def rec(E, a, k):
        log = logs[E.resolve(a[1])]
        log.d["c"] = log.d["c"] + (Item(tuple(E.resolve(v) for v in a[2:])),)

    E.contract(CParser.add_def, rec)
    for k, log in logs.items():
        p.d["__recorded_" + k] = log
    spec = E.fresh("spec")
    decls = seq(E, "decls")
    ISF = z3.Function("is_function", U, BOOL)
    nm = z3.Function("declared_name", U, STR)
    types = z3.Function("declared_type", U, U)

    class Typ:
        """Its type: only whether the last modifier is a parameter list matters"""

        @staticmethod
        def getitem(E, o, k):
            if E.resolve(k) != -1:
                raise Unsupported("modifier %r" % (k,))
            d = o.data[0]
            if E.decide(ISF(d)):
                return E.mk_tuple((Map(E.app("n_params", [SV(d, "obj")], "int").t, Fn(z3.Int("e!p"), SV(z3.Function("a_param", INT, U)(z3.Int("e!p")), "obj"))),))
            return E.app("last_modifier", [SV(d, "obj")], "str")

        @staticmethod
        def attr(E, o, name):
            return BuiltinMethod(o, name)

        @staticmethod
        def m_add_compatibility_hack(E, o, a, k):
            return E.app("nested", [SV(types(o.data[0]), "obj")])

        @staticmethod
        def enc(E, o):
            return types(o.data[0])

    def inner(E, a, k):
        E.prove_eq(a[1], spec, "declarations: the base type of all the declarators")
        d = E.enc(E.resolve(a[2]))
        return (SV(nm(d), "str"), Stub(E, Typ, d))

    E.contract(CParser.process_type, inner)
    if kind == 0:
        group = tokens(E, [], type=spec, decl_list=E.mk_tuple(decls))
        t = tokens(E, [group])
        value = E.fresh("value")
        E.contract(CParser.eval_expr, lambda E, a, k: value)
        f = CParser.process_variable
    else:
        t = tokens(E, [], type=spec, decl_list=E.mk_tuple(decls))
        f = CParser.process_typedef
    E.must_reach("done")
    got = outcome(E, lambda: E.call(E.wrap(f), [p, E.fresh("s", "str"), E.fresh("loc", "int"), t], {}))
    E.prove(got[0] == "return", "declarations: no exception")
    if got[0] != "return":
        return
    E.reach("done")

    def want(table, d):
        t = Stub(E, Typ, d)
        name = SV(nm(d), "str")
        if kind == 1:
            return ((name, t),) if table == "types" else ()
        nested = E.app("nested", [SV(types(d), "obj")])
        if table == "functions":
            return Choice([(ISF(d), ((name, nested),)), (z3.Not(ISF(d)), ())])
        if table in ("variables", "values"):
            return Choice([(z3.Not(ISF(d)), ((name, (value, t) if table == "variables" else value),)), (ISF(d), ())])
        return ()

    for table, log in logs.items():
        segs = []
        for s in decls:
            q = z3.Int("e!%d" % next(_ctr))
            E.mark_index(q)
            if isinstance(s, Map):
                w = want(table, E.enc(s.fn(q)))
                if w != ():
                    segs.append(FMap(s.n, Fn(q, w)))
            else:
                segs += [Item(x) for x in E.resolve(want(table, E.enc(s.v)))]
        E.prove_segs_eq(log.d["c"], E.norm(tuple(segs)), "declarations: each name is recorded with its type, functions apart (%s)" % table)


# --- members ----------------------------------------------------------------------


class Group_(Part):
    """Members declared together: a group of one (data: world, position)."""

    @staticmethod
    def getitem(E, o, k):
        if E.resolve(k) != 0:
            raise Unsupported("member %r" % (k,))
        return Stub(E, Members, *o.data)


class Members(Part):
    @staticmethod
    def attr(E, o, name):
        w, j = o.data
        if name == "type":
            return Stub(E, Spec, w, j)
        if name == "value":
            return SV(w.value(j), "obj")
        if name == "decl_list":
            q = z3.Int("e!%d" % next(_ctr))
            E.assume(w.n(j) >= 0)
            return E.mk_tuple(E.norm((Map(w.n(j), Fn(q, SV(w.decl(j, q), "obj"))),)))
        if name == "bit":
            # no token, or the text of a number
            if E.decide(w.has_bit(j)):
                b = SV(w.bit(j), "str")
                E.assume(b.t != z3.StringVal(""))
                return b
            return ""
        return BuiltinMethod(o, name)

    @staticmethod
    def m_keys(E, o, a, k):
        return ()


class Spec(Part):
    """The type the members are declared with; its first word."""

    @staticmethod
    def getitem(E, o, k):
        w, j = o.data
        if E.resolve(k) != 0:
            raise Unsupported("word %r of a type" % (k,))
        return SV(w.base(j), "str")

    @staticmethod
    def enc(E, o):
        w, j = o.data
        return w.spec(j)


class MWorld:
    pass


def members(E):
    """The members of a struct or union, in any number of groups of any number
    of declarators: each is recorded in order, with its name, type, default value and
    bit width; without a declarator, one without a name."""
    p, kind, tables, calls = c14.struct_world(E)
    w = MWorld()
    w.value, w.spec = func(E, "value_of", INT, U), func(E, "spec_of", INT, U)
    w.base, w.bit = func(E, "base_of", INT, STR), func(E, "bit_of", INT, STR)
    w.has_bit, w.n, w.decl = func(E, "has_bit", INT, BOOL), func(E, "n_declarators", INT, INT), func(E, "declarator", INT, INT, U)
    # where the members of a group start in the list, and the members in order
    OFF, ALL = func(E, "first_member", INT, INT), func(E, "member_at", INT, U)
    E.contract(CParser.process_type, lambda E, a, k: type_contract(E, E.resolve(a[1]), E.resolve(a[2])))
    E.contract(CParser.eval_expr, recorded_value)
    E.model(int, lambda E, a, k: E.app("number", [E.resolve(a[0])], "int"))

    def member(j, q, bits):
        """The declarator q of group j, None: without a declarator"""
        if q is None:
            m = (None, typ_obj(E, (Item(SV(w.base(j), "str")),), (Item(()),)), None)
        else:
            name, typ = type_contract(E, SV(w.spec(j), "obj"), SV(w.decl(j, q), "obj"))
            m = (name, typ, E.app("evaluated", [SV(w.value(j), "obj")]))
        return E.enc(m + ((E.app("number", [SV(w.bit(j), "str")], "int"),) if bits else ()))

    def step(t):
        E.assume(w.n(t) >= 0)
        E.assume(OFF(t) >= 0)
        E.assume(OFF(t + 1) == OFF(t) + z3.If(w.n(t) == 0, z3.IntVal(1), w.n(t)))
        k = z3.Int("k!%d" % next(_ctr))
        pick = lambda q: z3.If(w.has_bit(t), member(t, q, True), member(t, q, False))
        E.assume(z3.Implies(w.n(t) == 0, ALL(OFF(t)) == pick(None)))
        E.assume(z3.ForAll([k], z3.Implies(z3.And(OFF(t) <= k, k < OFF(t) + w.n(t)), ALL(k) == pick(k - OFF(t))), patterns=[ALL(k)]))

    def so_far(t):
        q = z3.Int("e!%d" % next(_ctr))
        return E.norm((Map(OFF(t), Fn(q, SV(ALL(q), "obj"))),))

    def factory(E, cell, k, e0):
        if not isinstance(cell, MList) or k != "c" or e0 != ():
            return None

        def at(E, t):
            E.assume(OFF(0) == 0)
            st = E.loop_stack
            if st and z3.eq(simp(st[-1][1]), simp(t)):
                step(t)
            return so_far(t) if not z3.eq(simp(t), z3.IntVal(0)) else e0

        return at

    def cand():
        pass

    cand.factory = factory
    E.cands[:] = [cand]
    if E.bound is not None:
        raise Unsupported("members: the contract is proved without bound or not at all")
    n = z3.Int(E.name("n_groups"))
    E.assume(n >= 1)
    E.assume(OFF(0) == 0)
    q = z3.Int("e!%d" % next(_ctr))
    E.mark_index(q)
    groups = MList(E, E.norm((Map(n, Fn(q, Stub(E, Group_, w, q))),)))
    name = E.fresh("name", "str")
    E.assume(name.t != "")
    E.must_reach("done")
    got = outcome(E, lambda: E.call(E.wrap(CParser.process_struct), [p, E.fresh("s", "str"), E.fresh("loc", "int"), tokens(E, [], struct_type=kind, members=groups, name=name)], {}))
    E.prove(got[0] == "return", "members: no exception")
    cs = [E.resolve(x.v) for x in calls.d["c"]]
    defs_ = [c for c in cs if c[0] == kind + "s"]
    E.prove(len(defs_) == 1, "members: one definition is recorded")
    for c in defs_:
        E.reach("done")
        d = E.resolve(c[2])
        E.prove(isinstance(d, SObj) and d.cls is (c_parser.Struct if kind == "struct" else c_parser.Union), "members: recorded as what it is")
        E.prove_eq(c[1], name, "members: recorded under its name")
        E.prove_segs_eq(E.iter_segs(E.getitem(d, "members")), so_far(n), "members: each is recorded in order with its name, type, default value and bit width")
