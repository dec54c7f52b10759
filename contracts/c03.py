"""C03: a struct or union becomes one ctypes class with the declared layout."""
from pyvc.sym import *
from pyvc.values import _ctr
from pyclibrary.c_library import CLibrary
from pyclibrary.c_parser import CParser
from pyclibrary.backends.ctypes import CTypesCLibrary
import ctypes

FUNCTIONS = ["CTypesCLibrary._get_struct", "CLibrary._resolve_struct_alias", "CLibrary.__call__"]
HARNESSES = ["build_struct", "build_packed_struct", "build_union", "build_packed_union", "again", "growth", "alias"]
SECS = 300
ASSUMPTIONS = [
    "the class of the type of a member is an uninterpreted function of the type; building it keeps the classes known and may add others (which is what _get_struct itself is shown to do), or raises",
    "ctypes lays out a class as _pack_, _anonymous_ and _fields_ tell, when they are set in this order",
    "the classes of the members that are not pointers are complete when the members are declared (not so for a structure contained in one that it points to, see known-findings.txt)",
    "the loops that look for a free name end (partial correctness)",
]
TABLES = ("_structs_", "_unions_")


class Classes:
    """The classes known, as versions of a table."""

    def __init__(self, E):
        self.HAS = z3.Function("known_has", U, STR, BOOL)
        self.GET = z3.Function("known_class", U, STR, U)
        self.v0 = {t: E.fresh_t("known" + t, U) for t in TABLES}

    def __deepcopy__(self, memo):
        return self

    def dict(self, v):
        sd = SymDict(lambda k: self.HAS(v, k), lambda k: SV(self.GET(v, k), "obj"), None, None, None, "str")
        sd.version = v
        return sd

    def extends(self, b, a):
        """What is known in a is known in b"""
        k = z3.Const("k!%d" % next(_ctr), STR)
        return z3.ForAll([k], z3.Implies(self.HAS(a, k), z3.And(self.HAS(b, k), self.GET(b, k) == self.GET(a, k))), patterns=[self.HAS(b, k), self.HAS(a, k)])

    def grown(self, E, v, typ, t):
        return E.app("grown" + t, [SV(v, "obj"), typ], "obj").t


def build_world(E, kind=None, packed=None):
    kind = kind or ("structs", "unions")[E.choose(2)]
    C = Classes(E)
    lib = SObj(E, CTypesCLibrary)
    n = z3.Int(E.name("members"))
    E.assume(n >= 0)
    if E.bound is not None:
        k = E.choose(E.bound + 1)
        E.assume(n == k)
        n = z3.IntVal(k)
    F = lambda nm, r: z3.Function(E.name(nm), INT, r)
    name, typ, dflt, wide, width = F("mname", U), F("mtype", U), F("mdefault", U), F("wide", BOOL), F("width", U)
    p = z3.Int("e!%d" % next(_ctr))
    q = z3.Int("e!%d" % next(_ctr))
    E.assume(z3.ForAll([q], z3.Or(U.is_none(name(q)), U.is_ustr(name(q))), patterns=[name(q)]))
    E.mark_index(p)
    o = lambda t: SV(t, "obj")

    def member(q):
        three = (o(name(q)), o(typ(q)), o(dflt(q)))
        return Choice([(wide(q), three + (o(width(q)),)), (z3.Not(wide(q)), three)])

    members = MList(E, E.norm((Map(n, Fn(p, member(p))),)))
    packed = E.choose(2) if packed is None else packed
    pack = E.fresh("pack", "int") if packed else None
    sname = E.fresh("name", "str")
    defn = MDict(E)
    E.dict_set(defn, "members", members)
    E.dict_set(defn, "pack", pack)
    other = z3.Function(E.name("other_definition"), STR, U)
    hasdef = z3.Function(E.name("has_definition"), STR, BOOL)
    tabs = {}
    for k in ("structs", "unions", "types"):
        tabs[k] = symdict(E, k)
    E.dict_set(tabs[kind], sname, defn)
    d = MDict(E)
    for k, v in tabs.items():
        E.dict_set(d, k, v)
    lib.d["_defs_"] = d
    known = {}
    for t in TABLES:
        known[t] = MDict(E, C.dict(C.v0[t]))
        lib.d[t] = known[t]
    E.contract(CLibrary._resolve_struct_alias, lambda E, a, k: E.resolve(a[2]))
    VER = {t: z3.Function(E.name("version" + t), INT, U) for t in TABLES}

    def get_type(E, a, k):
        """May add classes, may raise."""
        typ = E.resolve(a[1])
        for t in TABLES:
            tab = E.resolve(E.getattr(lib, t))
            base, ov = tab.d["c"]
            v = base.version
            nv = C.grown(E, v, typ, t)
            E.assume(C.extends(nv, v))
            tab.d["c"] = (C.dict(nv), ov)
        if E.decide(E.app("no_class", [typ], "bool").t):
            raise PyRaise(ExcVal(SV(U.opq(z3.Const("type_error", O)), "obj")))
        return E.app("class_of", [typ])

    E.contract(CTypesCLibrary._get_type, get_type)

    def known_cand(E, cell, k, e0):
        for t in TABLES:
            if cell is known[t] and k == "c":

                def at(E, i):
                    E.assume(VER[t](0) == C.v0[t])
                    st = E.loop_stack
                    if st and z3.eq(simp(st[-1][1]), simp(i)):
                        for u in TABLES:
                            E.assume(VER[u](i + 1) == C.grown(E, VER[u](i), o(typ(i)), u))
                    # shown by growth
                    E.assume(C.extends(VER[t](i), C.v0[t]))
                    return (C.dict(VER[t](i)), e0[1])

                return at

    def cand():
        pass

    cand.factory = known_cand
    E.cands.append(cand)
    w = dict(C=C, lib=lib, kind=kind, n=n, name=name, typ=typ, dflt=dflt, wide=wide, width=width, pack=pack, sname=sname, known=known, defn=defn, members=members, tabs=tabs)
    return w


def mine(w):
    return "_structs_" if w["kind"] == "structs" else "_unions_"


def build_struct(E):
    build(E, "structs", False)


def build_packed_struct(E):
    build(E, "structs", True)


def build_union(E):
    build(E, "unions", False)


def build_packed_union(E):
    build(E, "unions", True)


def build(E, kind, packed):
    """The first access."""

    def setup():
        w = build_world(E, kind, packed)
        E.assume(z3.Not(w["C"].HAS(w["C"].v0[mine(w)], E.lift(w["sname"]))))
        w["before"] = content(w["members"]), content(w["defn"])
        return w

    E.must_reach("built", "not built")
    w, got = staged(E, setup, lambda w: E.call(E.wrap(CTypesCLibrary._get_struct), [w["lib"], w["kind"], w["sname"]], {}))
    C, lib, n, name = w["C"], w["lib"], w["n"], w["name"]
    tab = mine(w)
    before, dbefore = w["before"]
    unchanged(E, w["members"], before, "struct: the definition is not modified")
    unchanged(E, w["defn"], dbefore, "struct: the definition is not modified")
    q = E.fresh_t("q", INT)
    E.assume(z3.And(q >= 0, q < n))
    noclass = lambda q: E.app("no_class", [SV(w["typ"](q), "obj")], "bool").t
    any_name = E.fresh("any", "str")
    if got[0] != "return":
        E.reach("not built")
        j = z3.Int("j!%d" % next(_ctr))
        E.prove(z3.Exists([j], z3.And(j >= 0, j < n, noclass(j))), "struct: only fails when a member has no class")
        for t in TABLES:
            cur = E.resolve(E.getattr(lib, t))
            ok, v = E.dict_get(cur, any_name)
            had = E.decide(C.HAS(C.v0[t], any_name.t))
            E.prove(ok == had, "struct: after a failure the same classes are known")
            if ok and had:
                E.prove_eq(v, SV(C.GET(C.v0[t], any_name.t), "obj"), "struct: after a failure the same classes are known")
        return
    E.reach("built")
    cls = E.resolve(got[1])
    base = ctypes.Structure if w["kind"] == "structs" else ctypes.Union
    ok = isinstance(cls, DynClass) and base in cls.bases
    E.prove(ok, "struct: a class of ctypes is returned")
    if not ok:
        return
    part = E.choose(4)
    if part == 0:
        for t in TABLES:
            cur = E.resolve(E.getattr(lib, t))
            ok, v = E.dict_get(cur, w["sname"])
            if t == tab:
                E.prove(ok and E.resolve(v) is cls, "struct: the class is kept for its name")
            if E.decide(C.HAS(C.v0[t], any_name.t)):
                ok, v = E.dict_get(cur, any_name)
                E.prove(ok, "struct: the classes known stay")
                if ok:
                    E.prove_eq(v, SV(C.GET(C.v0[t], any_name.t), "obj"), "struct: the classes known stay")
        return
    order = list(cls.d)
    E.prove("_fields_" in order, "struct: members are declared")
    if "_fields_" not in order:
        return
    if part == 1:
        if w["pack"] is None:
            E.prove("_pack_" not in order or E.resolve(cls.d["_pack_"]) == 0, "struct: default packing")
        else:
            E.prove("_pack_" in order and order.index("_pack_") < order.index("_fields_"), "struct: the packing is set before the members")
            if "_pack_" in order:
                E.prove_eq(cls.d["_pack_"], w["pack"], "struct: declared packing")
        return
    # members
    fields = E.iter_segs(E.resolve(cls.d["_fields_"]))
    E.prove(E.rope_len(fields) == n, "struct: exactly the declared members")
    f = lambda j: E.resolve(E.nth(fields, SV(j, "int")))
    x = f(q)
    E.prove(not noclass_(E, noclass(q)), "struct: all members have a class")
    wide = E.decide(w["wide"](q))
    x = E.resolve(x)
    shape = isinstance(x, tuple) and len(x) == (3 if wide else 2)
    E.prove(shape, "struct: a member has a width exactly when declared")
    if not shape:
        return
    unnamed = E.decide(U.is_none(name(q)))
    if part == 2:
        E.prove_eq(x[1], E.app("class_of", [SV(w["typ"](q), "obj")]), "struct: class of a member")
        if wide:
            E.prove_eq(x[2], SV(w["width"](q), "obj"), "struct: width of a member")
        if not unnamed:
            E.prove_eq(x[0], SV(name(q), "obj"), "struct: name of a member")
        else:
            j = E.fresh_t("j", INT)
            E.assume(z3.And(j >= 0, j < q))
            if E.feasible(z3.BoolVal(True)):
                y = f(j)
                E.prove(E.enc(x[0]) != E.enc(y[0]), "struct: a generated name differs from those before it")
        return
    # direct access to the members of unnamed structs and unions
    E.prove("_anonymous_" in order and order.index("_anonymous_") < order.index("_fields_") or n == 0, "struct: unnamed members are declared before the others")
    if "_anonymous_" in order and unnamed and not wide:
        anon = E.resolve(cls.d["_anonymous_"])
        E.prove(E.truth(E.contains(anon, x[0])), "struct: unnamed structs and unions give access to their members")


def noclass_(E, c):
    return E.decide(c)


def again(E):
    """The class known is given."""
    w = build_world(E)
    C, lib = w["C"], w["lib"]
    tab = mine(w)
    E.assume(C.HAS(C.v0[tab], E.lift(w["sname"])))
    before = {t: content(w["known"][t]) for t in TABLES}
    got = outcome(E, lambda: E.call(E.wrap(CTypesCLibrary._get_struct), [lib, w["kind"], w["sname"]], {}))
    E.prove(got[0] == "return", "again: no exception")
    if got[0] == "return":
        E.prove_eq(got[1], SV(C.GET(C.v0[tab], E.lift(w["sname"])), "obj"), "again: the same class")
    for t in TABLES:
        E.prove(E.resolve(E.getattr(lib, t)) is w["known"][t], "again: nothing changes")
        unchanged(E, w["known"][t], before[t], "again: nothing changes")


def growth(E):
    """Lemma: tables that only grow from one member to the next keep what
    they had at first."""
    C = Classes(E)
    a, b, c = [E.fresh_t("v", U) for _ in range(3)]
    E.prove(C.extends(a, a), "growth: at first")
    E.assume(C.extends(b, a))
    E.assume(C.extends(c, b))
    E.prove(C.extends(c, a), "growth: from one member to the next")


def alias(E):
    """The name of the definition that a name stands for."""
    kind = ("structs", "unions")[E.choose(2)]
    lib = SObj(E, CTypesCLibrary)
    tabs = {k: symdict(E, k) for k in ("structs", "unions")}
    second = z3.Function(E.name("named"), STR, STR)
    hast = z3.Function(E.name("has_types"), STR, BOOL)
    tabs["types"] = MDict(E, SymDict(lambda k: hast(k), lambda k: (E.fresh("spec", "str"), SV(second(k), "str")), None, None, None, "str"))
    d = MDict(E)
    for k, v in tabs.items():
        E.dict_set(d, k, v)
    lib.d["_defs_"] = d
    lib.d["_headers_"] = SObj(E, CParser)
    name = E.fresh("name", "str")
    res = E.app("resolved", [name], "str")
    pre = lambda s: z3.PrefixOf(z3.StringVal(s), res.t)
    # a resolved struct or union is a known type
    E.assume(z3.Implies(z3.Or(pre("struct "), pre("union ")), hast(res.t)))

    def ev(E, a, k):
        segs = E.norm(E.iter_segs(E.resolve(a[1])))
        if len(segs) != 1 or not isinstance(segs[0], Item):
            raise Unsupported("eval_type")
        return (E.app("resolved", [E.resolve(segs[0].v)], "str"), E.fresh("modifier", "str"))

    E.contract(CParser.eval_type, ev)
    E.must_reach("defined", "alias", "error")
    got = outcome(E, lambda: E.call(E.wrap(CLibrary._resolve_struct_alias), [lib, kind, name], {}))
    if E.truth(E.contains(tabs[kind], name)):
        E.reach("defined")
        same(E, got, ("return", name), "alias: a defined struct is itself")
    elif E.decide(hast(name.t)) and E.decide(z3.Or(pre("struct "), pre("union "))):
        E.reach("alias")
        same(E, got, ("return", SV(second(res.t), "str")), "alias: the struct the type denotes")
    else:
        E.reach("error")
        E.prove(got[0] == "raise" and got[1].cls is KeyError, "alias: anything else raises KeyError")
