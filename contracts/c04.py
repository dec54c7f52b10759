"""C04: function calls give the C function the right arguments, or are refused."""
from contracts.call_setup import *
import specs.c04 as S

FUNCTIONS = ["CFunction.__init__", "CFunction.__call__", "CTypesCLibrary._get_pointer", "CTypesCLibrary._init_function"]
HARNESSES = ["call_args", "init", "get_pointer", "init_function"]
ASSUMPTIONS = [
    "parameters are declared without default values (C has none) and named parameters have different names",
    "at most as many positional values as parameters are given",
    "calling the ctypes function object with the arguments is calling the C function (ctypes is trusted)",
    "eval_type and _get_type are used through their contracts (C01, C02)",
]
SECS = 400


def call_args(E):
    c = setup(E)
    E.must_reach("called", "refused")
    sp = [Splat(E.norm(c.args))] if E.norm(c.args) else []
    got = outcome(E, lambda: E.call(c.f, sp, {"**": c.kw}))
    ev = E.norm(c.events.d["c"])
    n = E.rope_len(ev)
    # an unknown keyword?
    j = E.fresh_t("j", INT)
    s = E.fresh_t("s", U)
    if not z3.is_int_value(n):
        return E.fail("the C function is called at most once", "%r" % (ev,))
    n = n.as_long()
    if n > 1:
        return E.fail("the C function is called at most once", "%r" % (ev,))
    if n == 1:
        E.reach("called")
        E.prove(E.nth(ev, 0)[0] == "call", "only the call is made")
        # every keyword is a parameter

        def kw_ok():
            E.assume(c.kw_has(s))
            E.prove(c.is_param(s), "unknown keywords are refused before the call")

        E.sub(kw_ok)
        actual = E.segs_of(E.nth(ev, 0)[1])
        E.prove(E.rope_len(actual) == c.n, "one argument per parameter")

        def elem():
            E.assume(z3.And(j >= 0, j < c.n))
            x = E.resolve(E.nth(actual, SV(j, "int")))
            has, sn = filled(c, j)
            if E.decide(has):
                if E.decide(c.kw_none(sn)):
                    nul(x)
                else:
                    E.prove_eq(x, c.kw_obj(sn), "a keyword value is at the position of its parameter")
            elif E.decide(j < c.nargs):
                if E.decide(c.arg_none(j)):
                    nul(x)
                else:
                    E.prove_eq(x, c.arg_val(j), "a positional value is at its position")
            else:
                E.prove(E.app("auto_ptr", [c.ptype(j)], "bool").t, "only single and double pointers may be omitted")
                E.prove(E.app("newptr_type", [x]).t == E.enc(c.ptype(j)), "an omitted pointer is replaced by a new one of the declared type")

        def nul(x):
            E.prove(E.app("et_len", [c.ptype(j)], "int").t >= 2, "None is accepted for pointers only")
            E.prove_eq(x, E.app("null_of", [c.ptype(j)]), "None becomes a NULL pointer of the declared type")

        E.sub(elem)
        if got[0] == "raise":
            E.prove(isinstance(got[1].cls, SV), "an exception of the C function is passed on")
            return
        r = E.resolve(got[1])
        E.prove(isinstance(r, SObj) and r.cls is CallResult, "a CallResult is returned")
        E.prove_eq(E.getattr(r, "rval"), c.rval, "the result holds what the C function returned")
        E.prove_eq(E.getattr(r, "args"), E.nth(ev, 0)[1], "the result holds the arguments")
        E.prove(E.resolve(E.getattr(r, "sig")) is c.sig, "the result holds the signature")
        g = E.segs_of(E.resolve(E.getattr(r, "guessed")))

        def guessed():
            E.assume(z3.And(j >= 0, j < c.n))
            has, sn = filled(c, j)
            om = z3.And(z3.Not(has), j >= c.nargs)
            inn = E.truth(E.contains_segs(g, SV(j, "int")))
            E.prove(om if inn else z3.Not(om), "the guessed arguments are the omitted ones")

        E.sub(guessed)
    else:
        E.reach("refused")
        if got[0] != "raise":
            return E.fail("the C function is called", "no call was made and no exception raised")
        E.prove(got[1].cls is TypeError, "refusals are TypeErrors")
        # there is a reason to refuse: otherwise a contradiction follows
        q = z3.Int("qr")
        sk = z3.Const("sr", U)
        E.assume(z3.ForAll([sk], z3.Implies(c.kw_has(sk), c.is_param(sk))))
        has, sn = filled(c, q)
        ty = c.ptype(q)
        isn = z3.If(has, c.kw_none(sn), z3.And(q < c.nargs, c.arg_none(q)))
        om = z3.And(z3.Not(has), q >= c.nargs)
        E.assume(
            z3.ForAll(
                [q],
                z3.Implies(
                    z3.And(q >= 0, q < c.n),
                    z3.And(
                        z3.Implies(isn, E.app("et_len", [ty], "int").t >= 2),
                        z3.Implies(om, E.app("auto_ptr", [ty], "bool").t),
                    ),
                ),
            )
        )
        if E.bound is not None:
            for k, _ in c.kw.d["c"][1]:
                E.assume(c.is_param(k.t))
        E.fail("calls are refused only for a reason", "refused with %r" % (got[1],))


def init(E):
    """The signature a wrapper keeps, and what it derives from it."""
    from pyclibrary.c_parser import Type

    void = z3.Function(E.name("is_void"), INT, BOOL)
    pt = z3.Function(E.name("ptype"), INT, O)
    pn = z3.Function(E.name("pname"), INT, O)
    ty = lambda p: Choice([(void(p), ("void",)), (z3.Not(void(p)), SV(U.opq(pt(p)), "obj"))])
    params = seq(E, "params", lambda p: (SV(U.opq(pn(p)), "obj"), ty(p), None))
    rt = z3.Function(E.name("rt"), INT, STR)
    rtype = SObj(E, Type, dict(type_quals=E.fresh_opq("quals")))
    rtype.base = E.mk_tuple(seq(E, "rt", lambda p: SV(rt(p), "str"), lo=1))
    given = MList(E, params)
    sig = (rtype, given)
    types = []

    def get_type(E, a, k):
        if len(a) > 2 or k:
            raise Unsupported("_get_type")
        return E.app("class_of_type", [a[1]])

    inits = []
    E.contract(CTypesCLibrary._get_type, get_type)
    E.contract(CTypesCLibrary._init_function, lambda E, a, k: E.world.d.__setitem__("inits", E.world.d.get("inits", ()) + (a[1],)))
    # a return type is a base type and modifiers: conventions are modifiers
    E.assume(z3.And(rt(0) != "__stdcall", rt(0) != "__cdecl"))
    # the type built for the return value, as the sequence it is made of
    E.contract(Type, lambda E, a, k: mk_type(E, a[1:], k))
    lib, func, name = SObj(E, CTypesCLibrary), E.fresh_opq("func"), E.fresh("fname", "str")
    got = outcome(E, lambda: E.call(CFunction, [lib, func, sig, name, E.fresh_opq("lock")], {}))
    if got[0] == "raise":
        return E.fail("a wrapper can be made for every signature", repr(got[1]))
    f = got[1]
    E.must_reach("made")
    E.reach("made")
    # specification
    keep = E.call(E.wrap(S.without_void), [MList(E, params)], {})
    ps = E.resolve(E.getitem(E.getattr(f, "sig"), 1))
    E.prove_eq(ps, keep, "the parameters are those declared, without (void)")
    ret = E.resolve(E.getitem(E.getattr(f, "sig"), 0))
    E.prove_eq(
        E.mk_tuple(E.segs_of(ret)),
        E.mk_tuple(E.segs_of(E.call(E.wrap(S.without_conventions), [E.mk_tuple(E.segs_of(rtype))], {}))),
        "the return type is the one declared, without calling conventions",
    )
    E.prove_eq(E.getattr(f, "arg_types"), E.call(E.wrap(S.arg_types), [keep, SpecGetType(E)], {}), "argument classes in order")
    E.prove_eq(E.getattr(f, "res_type"), E.app("class_of_type", [ret]), "result class")
    E.prove_eq(E.getattr(f, "req_args"), E.call(E.wrap(S.names_of), [keep], {}), "every parameter is required")
    E.prove(E.world.d.get("inits", ()) == (f,), "argument and result classes are declared to the library")
    # names and positions
    j = E.fresh_t("j", INT)
    kp = E.segs_of(E.resolve(keep))

    def pos():
        nk = E.rope_len(kp)
        E.assume(z3.And(j >= 0, j < nk))
        nm = E.getitem(E.nth(kp, SV(j, "int")), 0)
        # names differ
        q = z3.Int("qu")
        E.assume(
            z3.ForAll(
                [q],
                z3.Implies(z3.And(q >= 0, q < nk, E.enc(E.getitem(E.nth_choice(kp, q), 0)) == E.enc(nm)), q == j),
            )
        )
        inds = E.getattr(f, "arg_inds")
        if not E.truth(E.contains(inds, nm)):
            return E.fail("every named parameter has a position", "")
        E.prove_eq(E.getitem(inds, nm), SV(j, "int"), "the position of a named parameter is its own")

    if all(isinstance(s, (Item, Map)) for s in kp):
        E.sub(pos)
    E.prove(content(given) == params, "the definition is not modified")


class SpecGetType(Stub):
    def __init__(self, E):
        super().__init__(E, GetTypeModel)


class GetTypeModel:
    @staticmethod
    def call(E, o, a, k):
        return E.app("class_of_type", [a[0]])


def mk_type(E, a, k):
    segs = []
    for x in a:
        segs.extend(x.segs if isinstance(x, Splat) else [Item(x)])
    return E.mk_tuple(segs)


def get_pointer(E):
    """Shapes for which a pointer is made, and what is made."""
    import ctypes

    # a resolved type: any base, up to four modifiers of any kind
    n = E.choose(5)
    mods = []
    for i in range(n):
        mods.append([E.fresh("mod", "str"), E.fresh_opq("mod")][E.choose(2)])
    base = E.fresh("base", "str")
    et = tuple([base] + mods)
    sig = E.fresh_opq("sig")
    lib = SObj(E, CTypesCLibrary)
    cls = [None, ctypes.c_char, ctypes.c_wchar, ctypes.c_int, E.fresh_opq("cls")][E.choose(5)]
    asked = []

    def get_type(E, a, k):
        if len(a) == 3:
            k = dict(pointers=a[2])
        E.prove(k == dict(pointers=False), "the base class is asked for")
        E.prove_eq(a[1], sig, "of the type of the parameter")
        return cls

    if isinstance(cls, SV):
        for x in (None, ctypes.c_char, ctypes.c_wchar):
            E.assume(cls.t != E.enc(x))
    E.contract(CTypesCLibrary._get_type, get_type)
    E.model(ctypes.POINTER, lambda E, a, k: E.app("POINTER", [a[0]]))
    E.model(ctypes.pointer, lambda E, a, k: E.app("pointer", [a[0]]))
    inst = lambda c: E.app("instance", [c])
    for c in (ctypes.c_void_p, ctypes.c_char_p, ctypes.c_wchar_p, ctypes.c_int):
        E.model(c, lambda E, a, k, c=c: inst(c))
    E.models["objcall"] = (None, lambda E, o, a, k: inst(o))
    E.must_reach("made", "refused")
    got = outcome(E, lambda: E.call(E.wrap(CTypesCLibrary._get_pointer), [lib, et, sig], {}))
    star = n in (1, 2)
    cond = z3.BoolVal(star)
    if star:
        for m in mods:
            cond = z3.And(cond, E.enc(m) == E.enc("*"))
    if got[0] == "raise":
        E.reach("refused")
        E.prove(got[1].cls is AssertionError, "a refusal is an AssertionError")
        E.prove(z3.Not(cond), "pointers are refused only for types that are not single or double pointers")
        return
    E.reach("made")
    E.prove(cond, "pointers are made for single and double pointers only")
    P = lambda c: E.app("POINTER", [c])
    if cls is None:
        inner = ctypes.c_void_p
    elif cls is ctypes.c_char and n == 2:
        inner = ctypes.c_char_p
    elif cls is ctypes.c_wchar and n == 2:
        inner = ctypes.c_wchar_p
    elif cls in (ctypes.c_char, ctypes.c_wchar):
        return
    else:
        inner = cls if n == 1 else P(cls)
    E.prove_eq(got[1], E.app("pointer", [inst(inner)]), "the pointer points to a new object of the declared type")


def init_function(E):
    class FuncObj:
        pass

    func = Stub(E, FuncObj)
    f = SObj(E, CFunction, dict(func=func, arg_types=E.fresh_opq("at"), res_type=E.fresh_opq("rt")))
    E.call(E.wrap(CTypesCLibrary._init_function), [SObj(E, CTypesCLibrary), f], {})
    E.prove_eq(func.d.get("argtypes"), f.d["arg_types"], "argument classes are declared")
    E.prove_eq(func.d.get("restype"), f.d["res_type"], "the result class is declared")
