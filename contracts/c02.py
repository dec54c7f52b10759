"""C02: a C type maps to the ctypes class it denotes."""
from pyvc.sym import *
from pyvc.values import _ctr
from pyvc.interp import Env, Splat, is_segs
from pyclibrary import c_library
from pyclibrary.c_parser import CParser, Type
from pyclibrary.errors import DefinitionError
from pyclibrary.backends import ctypes as backend
from pyclibrary.backends.ctypes import CTypesCLibrary
import ctypes

FUNCTIONS = ["CTypesCLibrary._get_type", "CTypesCLibrary._get_array", "CTypesCLibrary._cast_to", "build_array", "CTypesCLibrary._extract_val_"]
HARNESSES = ["base", "dimensions", "pointers", "signature", "array", "bases", "modifiers", "modifiers_of_void", "modifiers_of_pointer"]
BOUND, BOUND_THOROUGH = 3, 4
SECS = 300
ASSUMPTIONS = [
    "POINTER, CFUNCTYPE and the multiplication of classes are functions of their arguments (ctypes keeps the classes it made)",
    "eval_type is used through its contract (C01), _get_struct through its contract (C03)",
    "the text of a modifier is not empty",
    "ctypes refuses an array of void",
]
PTR = {"char": ctypes.c_char_p, "wchar": ctypes.c_wchar_p, "wchar_t": ctypes.c_wchar_p, "void": ctypes.c_void_p}


class W:
    pass


def world(E, spec, mods):
    """A library and a type that resolves to spec and mods."""
    w = W()
    E.unroll_whiles = True
    w.spec, w.mods = spec, mods
    w.void_arrays = False
    w.at = None
    w.lib = SObj(E, CTypesCLibrary)
    w.lib.d["_headers_"] = SObj(E, CParser)
    w.asked = E.fresh("asked")
    w.resolved = SObj(E, Type, base=E.mk_tuple((Item(spec),) + tuple(mods)))
    w.bad = E.fresh_t("cannot_resolve", BOOL)

    def ev(E, a, k):
        E.prove_eq(a[1], w.asked, "type: the type asked for is resolved")
        if E.decide(w.bad):
            raise PyRaise(ExcVal(SV(U.opq(z3.Const("resolve_error", O)), "obj")))
        return w.resolved

    E.contract(CParser.eval_type, ev)
    w.types = symdict(E, "base_types", vkind="obj")
    w.tbefore = content(w.types)
    w.lib.d["_types_"] = w.types
    second = z3.Function(E.name("tag"), STR, STR)
    has = z3.Function(E.name("known"), STR, BOOL)
    w.tab = MDict(E, SymDict(lambda k: has(k), lambda k: (E.fresh("spec", "str"), SV(second(k), "str")), None, None, None, "str"))
    w.second, w.has = second, has
    d = MDict(E)
    E.dict_set(d, "types", w.tab)
    w.lib.d["_defs_"] = d
    w.defs = d
    w.struct = lambda kind, name: E.app("struct_class", [kind, name])

    def get_struct(E, a, k):
        return w.struct(a[1], a[2])

    E.contract(CTypesCLibrary._get_struct, get_struct)
    P = lambda E, a, k: E.app("POINTER", [a[0]])
    E.model(ctypes.POINTER, P)

    def mul(E, op, a, b):
        import ast

        if op is not ast.Mult:
            raise Unsupported("operator on a class")
        if w.void_arrays and (a is None or isinstance(a, SV) and a.k == "obj" and E.decide(U.is_none(a.t))):
            raise PyRaise(ExcVal(SV(U.opq(z3.Const("array_of_void", O)), "obj")))
        return E.app("array_of", [a, b])

    E.models["objbin"] = (None, mul)
    w.protos = []

    def proto(kind):
        def f(E, a, k):
            t = E.fresh("prototype")
            w.protos.append((kind, a[0], tuple(Item(x) if not isinstance(x, Splat) else x for x in a[1:]), t))
            return t

        return f

    E.model(ctypes.CFUNCTYPE, proto("CFUNCTYPE"))
    w.level = []

    def rec(E, a, k):
        """contract of _get_type, for the types of the arguments"""
        E.prove(E.resolve(a[0]) is w.lib and len(a) + len(k) == 2, "type: arguments are translated with their pointers")
        t = a[1]
        if E.decide(E.app("no_class", [t], "bool").t):
            raise PyRaise(ExcVal(SV(U.opq(z3.Const("type_error", O)), "obj")))
        return E.app("class_of", [t])

    real = E.wrap(CTypesCLibrary._get_type)

    def dispatch(E, a, k):
        if not w.level:
            w.level.append(1)
            try:
                return E.invoke(real, a, k)
            finally:
                w.level.pop()
        return rec(E, a, k)

    E.contract(CTypesCLibrary._get_type, dispatch)
    w.run = lambda **k: outcome(E, lambda: E.call(real, [w.lib, w.asked], k))
    return w


def base_class(E, w):
    """("return", class) or ("raise", exception class)"""
    spec = w.spec
    s = E.lift(spec)
    ok, v = E.dict_get(w.types, spec)
    if ok:
        return "return", v
    pre = lambda p: z3.PrefixOf(z3.StringVal(p), s)
    for kind in ("struct", "union"):
        if E.decide(pre(kind + " ")):
            if not E.decide(w.has(s)):
                return "raise", KeyError
            return "return", w.struct(kind + "s", SV(w.second(s), "str"))
    if E.decide(pre("enum ")):
        return "return", ctypes.c_int
    if E.decide(s == "void"):
        return "return", None
    return "raise", KeyError


def check(E, w, got, want, label):
    if E.decide(w.bad):
        E.prove(got[0] == "raise" and isinstance(got[1].cls, SV), label + ": what cannot be resolved raises")
    elif want[0] == "raise":
        if want[1] is None:
            E.prove(got[0] == "raise", label + ": what cannot be represented raises")
        else:
            E.prove(got[0] == "raise" and got[1].cls is want[1], label + ": what cannot be represented raises")
    else:
        E.prove(got[0] == "return", label + ": a class is given")
        if got[0] == "return":
            E.prove_eq(got[1], want[1], label + ": the class denoted")
    unchanged(E, w.types, w.tbefore, label + ": the tables are not modified")
    E.prove_segs_eq(E.iter_segs(w.resolved), (Item(w.spec),) + tuple(w.mods), label + ": the type is not modified")


def base(E):
    """The base class of any type, or the class of a type without modifiers."""
    bare = E.choose(2)
    mods = () if bare else seq(E, "mod", fn_elem(E, "m", "obj"))
    w = world(E, E.fresh("spec", "str"), mods)
    E.must_reach("class", "error")
    got = w.run(**({} if bare and E.choose(2) else dict(pointers=False)))
    if E.decide(w.bad):
        return check(E, w, got, None, "base")
    want = base_class(E, w)
    E.reach("class" if want[0] == "return" else "error")
    check(E, w, got, want, "base")


def dims(E, hint):
    """A list of dimensions of any length."""
    n = z3.Int(E.name("n_" + hint))
    E.assume(n >= 1)
    d = z3.Function(E.name(hint), INT, INT)
    p = z3.Int("e!%d" % next(_ctr))
    E.mark_index(p)
    return n, d, MList(E, E.norm((Map(n, Fn(p, SV(d(p), "int"))),)))


def one_dim(E, cls, d):
    return z3.If(d == -1, E.app("POINTER", [SV(cls, "obj")]).t, E.app("array_of", [SV(cls, "obj"), SV(d, "int")]).t)


class Fold:
    """The class after k dimensions, the last first."""

    def __init__(self, E):
        self.E = E
        self.cur = None

    def begin(self, cls, n, d):
        E = self.E
        self.A = z3.Function(E.name("dims_done"), INT, U)
        self.n, self.d = n, d
        E.assume(self.A(0) == E.enc(cls))

    def step(self, i):
        self.E.assume(self.A(i + 1) == one_dim(self.E, self.A(i), self.d(self.n - 1 - i)))

    def cand(self, name):
        def f():
            pass

        def factory(E, cell, k, e0):
            if k != name:
                return None

            def at(E, i):
                if not z3.eq(simp(I(i)), z3.IntVal(0)):
                    pass
                st = E.loop_stack
                if st and z3.eq(simp(st[-1][1]), simp(I(i))):
                    self.step(I(i))
                return SV(self.A(I(i)), "obj")

            return at

        f.factory = factory
        self.E.cands.append(f)


def known_base(E, w):
    """A base type of the table, not one of those with pointers of their own."""
    s = E.lift(w.spec)
    for k in PTR:
        E.assume(s != k)
    ok, v = E.dict_get(w.types, w.spec)
    if not ok:
        raise PathEnd()
    return v


def dimensions(E):
    """One array modifier with any number of dimensions."""
    n, d, l = dims(E, "dim")
    before = content(l)
    w = world(E, E.fresh("spec", "str"), (Item(l),))
    cls = known_base(E, w)
    f = Fold(E)
    f.begin(cls, n, d)
    f.cand("cls")
    got = w.run()
    check(E, w, got, ("return", SV(f.A(n), "obj")), "dimensions")
    unchanged(E, l, before, "dimensions: the modifier is not modified")


def pointers(E):
    """The first pointer to char, wchar_t and void."""
    spec = list(PTR)[E.choose(4)]
    w = world(E, spec, (Item("*"),))
    check(E, w, w.run(), ("return", PTR[spec]), "pointers")


def signature(E):
    """A pointer to a function with any number of arguments."""
    if E.bound is not None:
        raise Unsupported("bounded numbers of arguments: harness modifiers")
    args = mtuple(E, "arg", lambda p: (E.fresh("argname"), fn_elem_type(E)(p), E.fresh("argdefault")))
    w = world(E, E.fresh("spec", "str"), (Item(args), Item("*")))
    cls = known_base(E, w)
    got = w.run()
    if E.decide(w.bad):
        return check(E, w, got, None, "signature")
    none = lambda t: E.app("no_class", [t], "bool").t
    segs = E.iter_segs(args)
    n = E.rope_len(segs)
    j = E.fresh_t("j", INT)
    typ = lambda j: E.resolve(E.resolve(E.nth(segs, SV(j, "int")))[1])
    if got[0] == "raise":
        k = z3.Int("k!%d" % next(_ctr))
        E.prove(isinstance(got[1].cls, SV), "signature: only fails when an argument has no class")
        return
    E.prove(len(w.protos) == 1, "signature: one prototype")
    if len(w.protos) != 1:
        return
    kind, res, given, tok = w.protos[0]
    E.prove_eq(got[1], tok, "signature: the prototype is given")
    E.prove(kind == "CFUNCTYPE", "signature: default convention")
    E.prove_eq(res, cls, "signature: class of the result")
    # the arguments except (void)
    k = z3.Int("k!%d" % next(_ctr))
    given_segs = []
    for x in given:
        given_segs.extend(x.segs if isinstance(x, Splat) else [x])
    q = z3.Int("e!%d" % next(_ctr))
    E.mark_index(q)
    t = SV(w_type(E)(q), "obj")
    void = E.enc(t) == E.enc(("void",))
    want = (FMap(n, Fn(q, Choice([(z3.Not(void), (E.app("class_of", [t]),)), (void, ())]))),)
    E.prove_segs_eq(tuple(given_segs), want, "signature: classes of the arguments")


def w_type(E):
    f = E.__dict__.get("_argtype")
    if f is None:
        f = E.__dict__["_argtype"] = z3.Function("argtype", INT, U)
    return f


def fn_elem_type(E):
    f = w_type(E)
    return lambda p: SV(f(p), "obj")


def array(E):
    """build_array: the dimensions given, the first outermost."""
    n, d, l = dims(E, "dim")
    lib = SObj(E, CTypesCLibrary)
    typ = E.fresh("elem")
    one = E.choose(2)
    isclass = E.choose(2)
    E.models["objbin"] = (None, lambda E, op, a, b: E.app("array_of", [a, b]))
    asked = []

    def get_type(E, a, k):
        asked.append(a[1])
        return E.app("class_of", [a[1]])

    E.contract(CTypesCLibrary._get_type, get_type)
    if isclass:
        typ = ctypes.c_int
        cls = typ
    else:
        typ = E.fresh("elem", "str")
        cls = E.app("class_of", [(typ,)])
    vals = E.choose(2)
    values = mlist(E, "val", fn_elem(E, "v", "obj"), lo=1) if vals else None
    A = z3.Function(E.name("dims_done"), INT, U)
    E.assume(A(0) == E.enc(cls))
    if one:
        size = E.fresh("size", "int")
        want = E.app("array_of", [cls, size])
    else:
        size = E.mk_tuple(E.iter_segs(l))
        want = SV(A(n), "obj")

    def f():
        pass

    def factory(E, cell, k, e0):
        if k != "new":
            return None

        def at(E, i):
            st = E.loop_stack
            if st and z3.eq(simp(st[-1][1]), simp(I(i))):
                E.assume(A(I(i) + 1) == E.app("array_of", [SV(A(I(i)), "obj"), SV(d(n - 1 - I(i)), "int")]).t)
            return SV(A(I(i)), "obj")

        return at

    f.factory = factory
    E.cands.append(f)
    made = []

    def call(E, o, a, k):
        made.append((o, a))
        return E.app("instance", [o])

    E.models["objcall"] = (None, call)
    got = outcome(E, lambda: E.call(E.wrap(c_library.build_array), [lib, typ, size] + ([values] if vals else []), {}))
    E.prove(got[0] == "return", "array: built")
    if got[0] != "return":
        return
    E.prove(len(made) == 1, "array: one object")
    if len(made) != 1:
        return
    E.prove_eq(made[0][0], want, "array: the first dimension is outermost")
    E.prove_eq(got[1], E.app("instance", [want]), "array: the new array is given")
    segs = []
    for x in made[0][1]:
        segs.extend(x.segs if isinstance(x, Splat) else [Item(x)])
    E.prove_segs_eq(tuple(segs), E.iter_segs(values) if vals else (), "array: initial values")


KINDS = ["*", "**", "&", "array", "function", "__stdcall", "__cdecl", "other"]


class Mod:
    """One modifier of the type, or consecutive arrays put together: those
    from s up to e.  KIND gives what modifier number s is."""

    STR, LIST, TUPLE, OTHER = range(4)
    immutable = True  # what would change it is not supported

    @staticmethod
    def make(E, s, e):
        return Stub(E, Mod, SV(simp(s), "int"), SV(simp(e), "int"))

    @staticmethod
    def fns(E):
        return E.world.d["mods"]

    @staticmethod
    def ends(o):
        return I(o.data[0]), I(o.data[1])

    @staticmethod
    def is_(E, o, kind):
        return E.decide(Mod.fns(E).KIND(Mod.ends(o)[0]) == kind)

    @staticmethod
    def text(E, o):
        return SV(Mod.fns(E).TEXT(Mod.ends(o)[0]), "str")

    @staticmethod
    def isinstance(E, o, cls):
        if cls is str:
            return Mod.is_(E, o, Mod.STR)
        if cls is list:
            return Mod.is_(E, o, Mod.LIST)
        if cls is tuple:
            return Mod.is_(E, o, Mod.TUPLE)
        raise Unsupported("class of a modifier")

    @staticmethod
    def eq(E, a, b):
        if E.kind(b) == "str":
            return E.b(z3.And(Mod.fns(E).KIND(Mod.ends(a)[0]) == Mod.STR, Mod.text(E, a).t == E.lift(b)))
        raise Unsupported("comparison of modifiers")

    @staticmethod
    def binop(E, op, a, b):
        import ast

        for x in (a, b):
            if not isinstance(x, Stub) or x.model is not Mod or not Mod.is_(E, x, Mod.LIST):
                raise Unsupported("operator on a modifier")
        if op is not ast.Add:
            raise Unsupported("operator on a modifier")
        (s, m), (m2, e) = Mod.ends(a), Mod.ends(b)
        E.prove(m == m2, "modifiers: only arrays that follow each other are put together")
        return Mod.make(E, s, e)

    @staticmethod
    def iop(E, op, a, b):
        # += modifies a list in place
        if E.ent(Mod.fns(E).KIND(Mod.ends(a)[0]) != Mod.LIST):
            return Mod.binop(E, op, a, b)
        raise Unsupported("a modifier is extended in place")

    @staticmethod
    def attr(E, o, name):
        if Mod.is_(E, o, Mod.STR):
            return E.getattr(Mod.text(E, o), name)
        raise Unsupported("attribute %s of a modifier" % name)

    @staticmethod
    def segs(E, o):
        f = Mod.fns(E)
        s, e = Mod.ends(o)
        if Mod.is_(E, o, Mod.STR):
            f.current = None
            return E.iter_segs(Mod.text(E, o))
        p = z3.Int("e!%d" % next(_ctr))
        E.mark_index(p)
        if Mod.is_(E, o, Mod.LIST):
            E.assume(f.LEN(s, e) >= 0)
            f.current = (s, e)
            return (Map(f.LEN(s, e), Fn(p, SV(f.DIM(s, e, p), "int"))),)
        if Mod.is_(E, o, Mod.TUPLE):
            E.assume(f.NARGS(s) >= 0)
            item = tuple(SV(g(s, p), "obj") for g in f.ARG)
            return (Map(f.NARGS(s), Fn(p, item)),)
        E.py_raise(TypeError, "not a sequence")

    @staticmethod
    def iter(E, o):
        return MList(E, Mod.segs(E, o))

    @staticmethod
    def getitem(E, o, k):
        if Mod.is_(E, o, Mod.STR):
            return E.getitem(Mod.text(E, o), k)
        return E.getitem(E.mk_tuple(Mod.segs(E, o)), k)

    @staticmethod
    def len(E, o):
        if Mod.is_(E, o, Mod.STR):
            return SV(z3.Length(Mod.text(E, o).t), "int")
        return E.len_val(Mod.segs(E, o))

    @staticmethod
    def truth(E, o):
        return E.truth(E.py_eq(Mod.len(E, o), 0)) is False


def modifiers(E):
    """Any list of modifiers, of any length, of a type of the tables."""
    if E.bound is not None:
        return few_modifiers(E)
    any_modifiers(E, "known")


def modifiers_of_void(E):
    """Any list of modifiers, of any length, of void."""
    any_modifiers(E, "void")


def modifiers_of_pointer(E):
    """Any list of modifiers, of any length, after the pointer of the types
    with a pointer class of their own."""
    any_modifiers(E, "special")


def bases(E):
    """Any base with a modifier."""
    w = world(E, E.fresh("spec", "str"), (Item("**"),))
    got = w.run()
    if E.decide(w.bad):
        return check(E, w, got, None, "bases")
    want = base_class(E, w)
    if want[0] == "return":
        want = "return", E.app("POINTER", [E.app("POINTER", [want[1]])])
    check(E, w, got, want, "bases")


def any_modifiers(E, which):
    if E.bound is not None:
        raise Unsupported("lists of modifiers of bounded length: harness modifiers")
    f = W()
    nm = lambda h, *sorts: z3.Function(E.name(h), *sorts)
    f.KIND, f.TEXT = nm("kind", INT, INT), nm("text", INT, STR)
    f.LEN, f.DIM = nm("len_run", INT, INT, INT), nm("dim", INT, INT, INT, INT)
    f.NARGS = nm("n_args", INT, INT)
    f.ARG = [nm("arg%d" % k, INT, INT, U) for k in range(3)]
    f.current = None
    # runs of arrays: run j starts at START(j); DONE(i) runs end before i
    f.START, f.DONE = nm("start", INT, INT), nm("done", INT, INT)
    # the class after t steps, and the run then reached
    f.C, f.POS = nm("class_after", INT, U), nm("run_after", INT, INT)
    f.PTRS = nm("pointers", U, INT, U)
    f.DIMS = nm("dims", U, INT, INT, INT, U)
    f.PROTO = nm("function", U, INT, U)
    E.world.d["mods"] = f
    n = z3.Int(E.name("n_mods"))
    E.assume(n >= 1)
    p = z3.Int("e!%d" % next(_ctr))
    E.mark_index(p)
    seq_ = (Map(n, Fn(p, Mod.make(E, p, p + 1))),)
    spec = E.fresh("spec", "str")
    star = z3.StringVal("*")
    if which == "special":
        # the other types of the table: harness pointers
        spec = ("char", "void")[E.choose(2)]
        w = world(E, spec, (Item("*"),) + seq_)
        cls0 = PTR[spec]
    else:
        spec = "void" if which == "void" else spec
        w = world(E, spec, seq_)
        if which == "void":
            E.assume(z3.Not(E.lift(E.dict_get(w.types, spec)[0])))
            cls0 = None
            E.assume(z3.Not(z3.And(f.KIND(0) == Mod.STR, f.TEXT(0) == star)))
        else:
            cls0 = known_base(E, w)
    E.unroll_whiles = False
    E.merge_raises = True
    w.void_arrays = True
    E.must_reach("class", "error")
    kind = lambda i: f.KIND(i)
    merged = lambda i: z3.And(kind(f.START(f.DONE(i))) == Mod.LIST, kind(i + 1) == Mod.LIST)
    R = f.DONE(n - 1) + 1
    E.assume(z3.And(f.START(0) == 0, f.DONE(0) == 0, f.START(R) == n, R >= 1))

    def merge_step(i):
        E.assume(z3.If(merged(i), f.DONE(i + 1) == f.DONE(i), z3.And(f.DONE(i + 1) == f.DONE(i) + 1, f.START(f.DONE(i) + 1) == i + 1)))
        E.assume(f.DONE(i) >= 0)

    run = lambda j: Mod.make(E, f.START(j), f.START(j + 1))
    rk = lambda j: kind(f.START(j))
    rt = lambda j: f.TEXT(f.START(j))
    E.assume(z3.And(f.C(0) == E.enc(cls0), f.POS(0) == 0))
    isstr = lambda j, *ts: z3.And(j < R, rk(j) == Mod.STR, z3.Or(*[rt(j) == z3.StringVal(t) for t in ts]))

    def shape(j):
        """what is at run j: (does it denote, runs used, class from c)"""
        a, b = j + 1, j + 2
        conv = ("__stdcall", "__cdecl")
        sa, sb = isstr(a, "*"), isstr(b, "*")
        ca, cb = isstr(a, *conv), isstr(b, *conv)
        std = z3.Or(z3.And(sa, isstr(b, "__stdcall")), z3.And(isstr(a, "__stdcall"), sb))
        fn = z3.And(z3.Or(sa, z3.And(ca, sb)), z3.Not(std))
        pointer = z3.Or(z3.PrefixOf(star, rt(j)), z3.PrefixOf(z3.StringVal("&"), rt(j)))
        k = rk(j)
        ok = z3.Or(k == Mod.STR, k == Mod.LIST, z3.And(k == Mod.TUPLE, fn))
        used = z3.If(k == Mod.TUPLE, z3.If(z3.Or(z3.And(sa, cb), ca), 3, 2), 1)

        def cls(c):
            s0, e0 = f.START(j), f.START(j + 1)
            return z3.If(k == Mod.STR, z3.If(pointer, f.PTRS(c, z3.Length(rt(j))), c),
                         z3.If(k == Mod.LIST, f.DIMS(c, s0, e0, f.LEN(s0, e0)), f.PROTO(c, s0)))

        return ok, used, cls

    def step(t):
        q = f.POS(t)
        w.at = t
        # lemma: a step does not go beyond the last run (function: runs
        # after it are only used when they are there)
        E.assume(z3.And(q >= 0, q <= R))
        ok, used, cls = shape(q)
        E.assume(z3.Implies(z3.And(q < R, ok), z3.And(f.POS(t + 1) == q + used, f.C(t + 1) == cls(f.C(t)))))
        # the text of a modifier is not empty
        for j in (q, q + 1, q + 2):
            E.assume(z3.Implies(z3.And(j < R, rk(j) == Mod.STR), z3.Length(rt(j)) >= 1))
            E.assume(z3.And(rk(j) >= 0, rk(j) <= 3))

    lemma = z3.Int(E.name("some_run"))
    ok, used, _ = shape(lemma)
    E.prove(z3.Implies(z3.And(lemma >= 0, lemma < R, ok), lemma + used <= R), "modifiers: a step does not go beyond the last modifier")

    def factory(E, cell, k, e0):
        inner = len(E.loop_stack) > 0
        zero = lambda t: z3.eq(simp(I(t)), z3.IntVal(0))
        top = lambda t: bool(E.loop_stack) and z3.eq(simp(E.loop_stack[-1][1]), simp(I(t)))
        if inner:
            if not (e0 is None or isinstance(e0, SV) and e0.k == "obj" or isinstance(e0, type)):
                return None
            c = E.enc(e0)
            if f.current is not None:
                s0, e0_ = f.current
                A = lambda t: f.DIMS(c, s0, e0_, t)

                def at(E, t):
                    t = I(t)
                    E.assume(A(z3.IntVal(0)) == c)
                    if top(t):
                        E.assume(A(t + 1) == one_dim(E, A(t), f.DIM(s0, e0_, f.LEN(s0, e0_) - 1 - t)))
                        E.assume(z3.Not(U.is_none(A(t + 1))))
                    return SV(A(t), "obj")
            else:

                def at(E, t):
                    t = I(t)
                    E.assume(f.PTRS(c, 0) == c)
                    if top(t):
                        E.assume(f.PTRS(c, t + 1) == E.app("POINTER", [SV(f.PTRS(c, t), "obj")]).t)
                    return SV(f.PTRS(c, t), "obj")

            return at
        if isinstance(cell, Env):
            if isinstance(e0, Stub) and e0.model is Mod:
                # the run being put together

                def at(E, t):
                    if top(t):
                        merge_step(I(t))
                    return Mod.make(E, f.START(f.DONE(I(t))), I(t) + 1)

                return at
            if e0 is None or isinstance(e0, type) or isinstance(e0, SV) and e0.k == "obj":

                def at(E, t):
                    if top(t):
                        step(I(t))
                    return SV(f.C(I(t)), "obj")

                return at
            return None
        if isinstance(cell, MList) and is_segs(e0):
            j = z3.Int("e!%d" % next(_ctr))
            E.mark_index(j)
            if not e0:
                # the runs that are complete

                def at(E, t):
                    if top(t):
                        merge_step(I(t))
                    return E.norm((Map(f.DONE(I(t)), Fn(j, run(j))),)) if not zero(t) else ()

                return at

            def at(E, t):
                if top(t):
                    step(I(t))
                q = f.POS(I(t))
                return (Map(R - q, Fn(j, run(q + j))),)

            return at
        return None

    def cand():
        pass

    cand.factory = factory
    cand.eager = False
    E.cands.append(cand)

    def proto(E, a, k):
        q = f.START(f.POS(0 if w.at is None else w.at))
        pp = z3.Int("e!%d" % next(_ctr))
        E.mark_index(pp)
        typ = SV(f.ARG[1](q, pp), "obj")
        void = E.enc(typ) == E.enc(("void",))
        want = (FMap(f.NARGS(q), Fn(pp, Choice([(z3.Not(void), (E.app("class_of", [typ]),)), (void, ())]))),)
        given = []
        for x in a[1:]:
            given.extend(x.segs if isinstance(x, Splat) else [Item(x)])
        E.prove_segs_eq(tuple(given), want, "modifiers: classes of the arguments")
        return SV(f.PROTO(E.enc(a[0]), q), "obj")

    E.model(ctypes.CFUNCTYPE, proto)
    got = w.run()
    if E.decide(w.bad):
        return check(E, w, got, None, "modifiers")
    if w.at is None:
        return E.fail("modifiers: a class is given", "%r" % (got,))
    q = f.POS(w.at)
    ok, used, cls = shape(q)
    E.reach("class" if got[0] == "return" else "error")
    if got[0] == "return":
        E.prove(q == R, "modifiers: every modifier is applied")
        E.prove_eq(got[1], SV(f.C(w.at), "obj"), "modifiers: the class denoted")
    elif not isinstance(got[1].cls, SV):
        # (an argument or an array of void that ctypes refuses otherwise)
        E.prove(z3.Not(ok), "modifiers: raises only for what cannot be represented")
    unchanged(E, w.types, w.tbefore, "modifiers: the tables are not modified")
    E.prove_segs_eq(E.iter_segs(w.resolved), (Item(w.spec),) + tuple(w.mods), "modifiers: the type is not modified")


def few_modifiers(E):
    """Any list of few modifiers, longer lists of arrays and pointers."""
    E.max_paths = 10 ** 6
    if E.choose(2):
        n = E.choose(E.bound + 1)
        kinds = [KINDS[E.choose(len(KINDS))] for _ in range(n)]
    else:
        n = E.bound + 1 + E.choose(2)
        kinds = [("array", "*")[E.choose(2)] for _ in range(n)]
    denotes(E, kinds)


def denotes(E, kinds):
    spec = ["int", "char", "void"][E.choose(3)]
    mods, info = [], []
    for k in kinds:
        if k == "array":
            m = 1 + (len(kinds) <= 2 and E.choose(2))
            d = [E.fresh("dim", "int") for _ in range(m)]
            l = MList(E, tuple(Item(x) for x in d))
            mods.append(l)
            info.append((k, d, l))
        elif k == "function":
            a = [(), ("void",), ("t",), ("t", "t")][E.choose(4) if len(kinds) < 3 else 3 * E.choose(2)]
            ts = [("void",) if x == "void" else E.fresh("argtype") for x in a]
            for t in ts:
                if isinstance(t, SV):
                    E.assume(t.t != E.enc(("void",)))
            mods.append(tuple((E.fresh("argname"), t, E.fresh("argdefault")) for t in ts))
            info.append((k, [t for t in ts if isinstance(t, SV)], None))
        elif k == "other":
            mods.append(5)
            info.append((k, None, None))
        else:
            mods.append(k)
            info.append((k, None, None))
    w = world(E, spec, tuple(Item(m) for m in mods))
    ok, v = E.dict_get(w.types, spec)
    E.assume(z3.BoolVal(ok == (spec != "void")))
    before = [content(x) if x is not None else None for _, _, x in info]
    got = w.run()
    if E.decide(w.bad):
        return check(E, w, got, None, "modifiers")
    want = denote(E, w, spec, v, info)
    if want is None:
        E.prove(got[0] == "raise", "modifiers: what cannot be represented raises")
    else:
        E.prove(got[0] == "return", "modifiers: a class is given")
        if got[0] == "return":
            E.prove_eq(got[1], want[0], "modifiers: the class denoted")
    unchanged(E, w.types, w.tbefore, "modifiers: the tables are not modified")
    for (k, _, x), b in zip(info, before):
        if x is not None:
            unchanged(E, x, b, "modifiers: the type is not modified")
    E.prove_segs_eq(E.iter_segs(w.resolved), tuple(Item(m) for m in [spec] + mods), "modifiers: the type is not modified")


def denote(E, w, spec, v, info):
    """[class] or None.  The modifiers from the base outwards."""
    P = lambda c: E.app("POINTER", [c])
    if info and info[0][0] == "*" and spec in PTR:
        cls, k = PTR[spec], 1
    else:
        cls, k = (None if spec == "void" else v), 0
    protos = list(w.protos)
    while k < len(info):
        kind, x, _ = info[k]
        k += 1
        if kind in ("*", "**", "&"):
            for _ in kind:
                cls = P(cls)
        elif kind == "array":
            ds = list(x)
            while k < len(info) and info[k][0] == "array":
                ds += info[k][1]
                k += 1
            for d in reversed(ds):
                if E.decide(d.t == -1):
                    cls = P(cls)
                elif cls is None:
                    return None
                else:
                    cls = E.app("array_of", [cls, d])
        elif kind == "function":
            # the pointer and the convention in any order
            conv, ptr = False, False
            for _ in range(2):
                if k < len(info) and info[k][0] == "*" and not ptr:
                    ptr = True
                elif k < len(info) and info[k][0] in ("__cdecl", "__stdcall"):
                    conv = info[k][0] == "__stdcall"
                else:
                    break
                k += 1
            if not ptr or conv:
                # other conventions only exist elsewhere
                return None
            for t in x:
                if E.decide(E.app("no_class", [t], "bool").t):
                    return None
            if not protos:
                return None
            kd, res, given, tok = protos.pop(0)
            E.prove_eq(res, cls, "modifiers: class of the result")
            E.prove_segs_eq(tuple(given), tuple(Item(E.app("class_of", [t])) for t in x), "modifiers: classes of the arguments")
            cls = tok
        elif kind in ("__stdcall", "__cdecl"):
            continue
        else:
            return None
    return [cls]
