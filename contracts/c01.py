"""C01: typedef resolution follows the whole chain and never loops."""
import sys

from pyvc.sym import *
from pyvc.values import _ctr
from pyclibrary import c_parser
from pyclibrary.c_parser import CParser, Type, DefinitionError

FUNCTIONS = ["Type.eval", "Type.is_fund_type", "Type.__new__", "Type.__init__", "Type.declarators", "Type.type_spec", "CParser.eval_type", "CParser.is_fund_type"]
HARNESSES = ["step", "fundamental", "construct", "entry", "legacy_test"]
ASSUMPTIONS = [
    "every type of the table has one list of qualifiers per level (proved of Type.__init__ by the harness construct)",
    "the recursive call terminates because its measure, the number of typedefs not yet used, decreases: tables are finite",
]


class TypeFn:
    """A type depending on a key: spec, declarators and qualifiers."""

    def __init__(self, E, hint, *sorts):
        self.E = E
        self.sp = z3.Function(E.name(hint + "_spec"), *sorts, STR)
        self.nd = z3.Function(E.name(hint + "_ndecl"), *sorts, INT)
        self.de = z3.Function(E.name(hint + "_decl"), *sorts, INT, O)
        self.ln = z3.Function(E.name(hint + "_nq"), *sorts, INT, INT)
        self.el = z3.Function(E.name(hint + "_q"), *sorts, INT, INT, STR)

    def decls(self, *key):
        E, p = self.E, z3.Int("td!%d" % next(_ctr))
        E.assume(self.nd(*key) >= 0)
        return E.norm((Map(self.nd(*key), Fn(p, SV(U.opq(self.de(*key, p)), "obj"))),))

    def level(self, *key):
        """qualifiers of level key[-1]"""
        q = z3.Int("tq!%d" % next(_ctr))
        self.E.assume(self.ln(*key) >= 0)
        return PTuple((Map(self.ln(*key), Fn(q, SV(self.el(*key, q), "str"))),))

    def quals(self, *key):
        """one level for the base and one for each declarator"""
        E, p = self.E, z3.Int("tl!%d" % next(_ctr))
        E.mark_index(p)
        E.assume(self.nd(*key) >= 0)
        q = z3.Int("q!lv")
        E.assume(z3.ForAll([q], self.ln(*key, q) >= 0))
        j = z3.Int("tq!%d" % next(_ctr))
        return (Item(self.level(*key, z3.IntVal(0))),) + E.norm((Map(self.nd(*key), Fn(p, PTuple((Map(self.ln(*key, p + 1), Fn(j, SV(self.el(*key, p + 1, j), "str"))),)))),))

    def obj(self, *key):
        E = self.E
        t = SObj(E, Type, base=E.mk_tuple((Item(SV(self.sp(*key), "str")),) + self.decls(*key)))
        t.d["type_quals"] = E.mk_tuple(self.quals(*key))
        return t


def fund(E, s):
    return E.app("fund", [s], "bool").t


def decls_of(E, t):
    return E.split_at(E.iter_segs(t), 1)[1]


def join_quals(E, inner, outer):
    """The last level of the inner type and the first of the outer one are one
    level of the result."""
    n = E.rope_len(inner)
    a, last = E.split_at(inner, simp(n - 1))
    l = E.resolve(E.nth(last, 0))
    first, rest = E.split_at(outer, 1)
    f = E.resolve(E.nth(first, 0))
    return tuple(a) + (Item(E.mk_tuple(tuple(E.iter_segs(l)) + tuple(E.iter_segs(f)))),) + tuple(rest)


def step(E):
    """One step of the resolution, recursive calls being replaced by the
    contract: with RES the result of resolving a bare name,
      eval(T) = RES(T.spec) with the modifiers and qualifiers of T appended
      RES(s)  = s without the word signed      when s is fundamental
              = DefinitionError                when s is unknown or in used
              = eval(table[s]) with used + [s] otherwise"""
    table = TypeFn(E, "entry", STR)
    tm = symdict(E, "types", val=lambda k: table.obj(k))
    this = TypeFn(E, "self", INT)
    me = this.obj(z3.IntVal(0))
    spec = SV(this.sp(0), "str")
    isf = fund(E, spec)
    E.contract(Type.is_fund_type, lambda E, a, k: E.b(fund(E, E.getitem(E.resolve(a[0]), 0))))
    none = E.choose(2)
    used = None if none else mlist(E, "used", fn_elem(E, "u", "str"))
    ulist = () if none else content(used)
    before = content(tm)
    res = TypeFn(E, "res", STR)
    err = E.fresh_t("res_fails", BOOL)
    calls = []

    def rec(E, a, k):
        """contract of Type.eval, for the recursive call"""
        t = E.resolve(a[0])
        args = list(a[1:]) + [k[n] for n in ("type_map", "used") if n in k]
        E.prove(len(args) == 2 and E.resolve(args[0]) is tm, "eval: the same table is used at every level")
        u = E.iter_segs(args[1]) if len(args) > 1 and args[1] is not None else ()
        E.prove(z3.Not(isf), "eval: fundamental types are not resolved further")
        known, pt = E.dict_get(tm, spec)
        E.prove(known, "eval: only known names are followed")
        E.prove(z3.Not(z3.BoolVal(E.truth(E.contains_segs(ulist, spec)))) if ulist else True, "eval: a name is followed once (the measure decreases)")
        E.prove_segs_eq(u, tuple(ulist) + (Item(spec),), "eval: the name followed is recorded (the measure decreases)")
        if not known:
            raise PathEnd()
        s2 = E.getitem(t, 0)
        E.prove_eq(s2, E.getitem(pt, 0), "eval: the base of the typedef is resolved next")
        calls.append(1)
        # value of the contract
        if E.decide(err):
            E.py_raise(DefinitionError, "chain")
        key = E.lift(s2)
        o = SObj(E, Type, base=E.mk_tuple((Item(SV(res.sp(key), "str")),) + res.decls(key) + tuple(decls_of(E, t))))
        o.d["type_quals"] = E.mk_tuple(join_quals(E, res.quals(key), E.iter_segs(E.getattr(t, "type_quals"))))
        return o

    real = E.wrap(Type.eval)
    first = []

    def dispatch(E, a, k):
        if not first:
            first.append(1)
            try:
                return E.invoke(real, a, k)
            finally:
                first.pop()
        return rec(E, a, k)

    E.contract(Type.eval, dispatch)
    got = outcome(E, lambda: E.call(real, [me, tm] + ([] if none else [used]), {}))
    E.must_reach("fundamental", "unknown", "circular", "followed")
    # what the contract says
    if E.decide(isf):
        E.reach("fundamental")
        E.prove(got[0] == "return", "eval: fundamental types are resolved")
        if got[0] != "return":
            return
        t = got[1]
        name = E.call(E.wrap(bare), [spec], {})
        check_type(E, t, name, this.decls(z3.IntVal(0)), this.quals(z3.IntVal(0)), "fundamental type")
    else:
        known, pt = E.dict_get(tm, spec)
        seen = bool(ulist) and E.truth(E.contains_segs(ulist, spec))
        if seen or not known:
            E.reach("circular" if seen else "unknown")
            E.prove(got[0] == "raise" and got[1].cls is DefinitionError, "eval: unknown names and circular definitions end in a DefinitionError")
        else:
            E.reach("followed")
            if E.decide(err):
                E.prove(got[0] == "raise" and got[1].cls is DefinitionError, "eval: errors of the chain are reported")
            else:
                E.prove(got[0] == "return", "eval: typedefs are followed")
                if got[0] == "return":
                    key = E.lift(E.getitem(pt, 0))
                    ptd, ptq = table.decls(E.lift(spec)), table.quals(E.lift(spec))
                    inner = join_quals(E, res.quals(key), ptq)
                    check_type(
                        E, got[1], SV(res.sp(key), "str"),
                        tuple(res.decls(key)) + tuple(ptd) + tuple(this.decls(z3.IntVal(0))),
                        join_quals(E, inner, this.quals(z3.IntVal(0))), "typedef")
    unchanged(E, tm, before, "eval: the table is not modified")
    E.prove_segs_eq(E.iter_segs(me), (Item(spec),) + tuple(this.decls(z3.IntVal(0))), "eval: the type is not modified")
    E.prove_segs_eq(E.iter_segs(E.getattr(me, "type_quals")), this.quals(z3.IntVal(0)), "eval: the qualifiers of the type are not modified")


def bare(s):
    return " ".join([w for w in s.split() if w != "signed"]) or "int"


def check_type(E, t, name, decls, quals, label):
    t = E.resolve(t)
    E.prove(isinstance(t, SObj) and t.cls is Type, "eval: the result is a type (%s)" % label)
    E.prove_eq(E.getitem(t, 0), name, "eval: base (%s)" % label)
    E.prove_segs_eq(decls_of(E, t), decls, "eval: modifiers in order (%s)" % label)
    E.prove_segs_eq(E.iter_segs(E.getattr(t, "type_quals")), quals, "eval: qualifiers (%s)" % label)


def fundamental(E):
    """is_fund_type: struct, union and enum, or only words of base types."""
    extra = mlist(E, "extra", fn_elem(E, "x", "str"))
    E.set_global(c_parser, "extra_type_list", extra)
    this = TypeFn(E, "self", INT)
    me = this.obj(z3.IntVal(0))
    s = SV(this.sp(0), "str")
    got = outcome(E, lambda: E.call(E.wrap(Type.is_fund_type), [me], {}))
    E.prove(got[0] == "return", "is_fund_type: no exception")
    want = outcome(E, lambda: E.call(E.wrap(spec_fund), [s, extra, tuple(WORDS)], {}))
    r = E.truth(got[1])
    E.must_reach("yes", "no")
    E.reach("yes" if r else "no")
    E.prove(r == E.truth(want[1]), "is_fund_type: words of base types, structures, unions and enums")


WORDS = [
    "int", "float", "double", "int8_t", "uint8_t", "int16_t", "uint16_t", "int32_t", "uint32_t", "int64_t", "uint64_t",
    "size_t", "ssize_t", "char", "wchar", "wchar_t", "bool", "void", "short", "long", "signed", "unsigned",
] + (["time_t"] if sys.version_info >= (3, 12) else [])


def spec_fund(s, extra, words):
    if s.startswith("struct ") or s.startswith("union ") or s.startswith("enum "):
        return True
    for w in s.split():
        if w not in words and w not in extra:
            return False
    return True


def construct(E):
    """A type has one list of qualifiers per level, or is refused."""
    this = TypeFn(E, "self", INT)
    d = this.decls(z3.IntVal(0))
    spec = SV(this.sp(0), "str")
    form = E.choose(3)
    kw = {}
    if form == 0:
        kw["type_quals"] = None if E.choose(2) else ()
        q = None
    elif form == 1:
        q = seq(E, "quals", fn_elem(E, "q"), lo=1)
        kw["type_quals"] = E.mk_tuple(q)
    else:
        q = None
    star = E.mk_tuple(d)
    got = outcome(E, lambda: E.call(E.wrap(mk_type), [Type, spec, star, kw.get("type_quals")] if kw else [Type, spec, star], {}))
    n = E.rope_len(d)
    if q is None:
        E.prove(got[0] == "return", "Type: no qualifiers needed")
        if got[0] == "return":
            tq = E.iter_segs(E.getattr(got[1], "type_quals"))
            E.prove(E.rope_len(tq) == n + 1, "Type: one level per modifier and one for the base")
            j = E.fresh_t("j", INT)
            E.assume(z3.And(j >= 0, j <= n))
            E.prove_eq(E.nth(tq, SV(j, "int")), (), "Type: levels are empty by default")
    else:
        okl = E.decide(E.rope_len(q) == n + 1)
        E.prove((got[0] == "return") == okl, "Type: the number of levels of qualifiers is checked")
        if got[0] == "raise":
            E.prove(got[1].cls is ValueError, "Type: wrong number of levels raises ValueError")
        elif okl:
            E.prove_segs_eq(E.iter_segs(E.getattr(got[1], "type_quals")), q, "Type: qualifiers as given")
    if got[0] == "return":
        E.prove_segs_eq(E.iter_segs(got[1]), (Item(spec),) + tuple(d), "Type: base and modifiers as given")
        E.prove_segs_eq(E.iter_segs(E.getattr(got[1], "declarators")), d, "Type: declarators")
        E.prove_eq(E.getattr(got[1], "type_spec"), spec, "Type: type_spec")


def mk_type(T, spec, decls, *quals):
    if quals:
        return T(spec, *decls, type_quals=quals[0])
    return T(spec, *decls)


def entry(E):
    """CParser.eval_type: resolution against the types of the parser."""
    this = TypeFn(E, "self", INT)
    as_tuple = E.choose(2)
    me = this.obj(z3.IntVal(0))
    arg = me.base if as_tuple else me
    types = symdict(E, "types")
    defs = MDict(E, None, (("types", types),))
    p = SObj(E, CParser, dict(defs=defs))
    r = E.fresh("resolved")

    def ev(E, a, k):
        args = list(a[1:]) + [k[n] for n in ("type_map", "used") if n in k]
        E.prove(E.resolve(args[0]) is types, "eval_type: the types of the parser are used")
        E.prove(len(args) == 1 or args[1] is None or E.decide(E.rope_len(E.iter_segs(args[1])) == 0), "eval_type: no name is used yet")
        t = E.resolve(a[0])
        E.prove_segs_eq(E.iter_segs(t), E.iter_segs(me), "eval_type: the type is resolved as it is")
        if not as_tuple:
            E.prove_segs_eq(E.iter_segs(E.getattr(t, "type_quals")), this.quals(z3.IntVal(0)), "eval_type: with its qualifiers")
        if E.choose(2):
            E.py_raise(DefinitionError, "chain")
        return r

    E.contract(Type.eval, ev)
    got = outcome(E, lambda: E.call(E.wrap(CParser.eval_type), [p, arg], {}))
    if got[0] == "return":
        E.prove_eq(got[1], r, "eval_type: result of the resolution")
    else:
        E.prove(got[1].cls is DefinitionError, "eval_type: errors are passed on")


def legacy_test(E):
    """CParser.is_fund_type is Type.is_fund_type of the bare name."""
    E.contract(Type.is_fund_type, lambda E, a, k: E.b(fund(E, E.getitem(E.resolve(a[0]), 0))))
    s = E.fresh("s", "str")
    got = outcome(E, lambda: E.call(E.wrap(CParser.is_fund_type), [SObj(E, CParser), s], {}))
    same(E, got, ("return", E.b(fund(E, s))), "CParser.is_fund_type")
