"""C05: call results expose the return value and every argument faithfully."""
from pyvc.sym import *
from pyvc.values import _ctr
from pyclibrary.c_library import CallResult, CLibrary
from pyclibrary.backends.ctypes import CTypesCLibrary

FUNCTIONS = [
    "CallResult.__call__",
    "CallResult.__getitem__",
    "CallResult.__setitem__",
    "CallResult.__iter__",
    "CallResult.auto",
    "CallResult.find_arg",
    "CTypesCLibrary._extract_val_",
]
HARNESSES = ["call", "get_by_position", "get_by_name", "get_other", "set_item", "iterate", "auto", "extract"]
ASSUMPTIONS = [
    "reading .value of a ctypes object and dereferencing a pointer with [0] are functions of the object (ctypes is trusted)",
    "positions are not negative; the guessed positions lie within the arguments",
]


def pyval(E, o):
    """Python value of a ctypes object: its .value when it has one."""
    return E.app("pyval", [o])


def deref(E, o):
    return E.app("deref", [o])


def hooks(E):
    def has(E, o, name):
        if name == "value":
            return E.b(E.app("has_value", [o], "bool").t)
        raise Unsupported("hasattr %s" % name)

    def attr(E, o, name, has_default, default):
        if name == "value":
            if E.decide(E.app("has_value", [o], "bool").t):
                v = E.app("value_of", [o])
                # the definition of pyval
                return v
            if has_default:
                return default
            E.py_raise(AttributeError, name)
        raise Unsupported("attribute %s" % name)

    E.models["objhas"] = (None, has)
    E.models["objattr"] = (None, attr)

    def item(E, o, k):
        if E.resolve(k) != 0:
            raise Unsupported("index of an argument")
        return deref(E, o)

    E.models["objitem"] = (None, item)


def want_val(E, o):
    """pyval, unfolded: the specification of _extract_val_"""
    o = E.resolve(o)
    h = E.app("has_value", [o], "bool").t
    return Choice([(h, E.app("value_of", [o])), (z3.Not(h), o)])


def setup(E):
    hooks(E)
    lib = SObj(E, CTypesCLibrary)
    args = mlist(E, "args", fn_elem(E, "arg", opq=True))
    nargs = E.rope_len(args.d["c"])
    gi = z3.Function(E.name("guess"), INT, INT)
    guessed = mlist(E, "guessed", lambda p: SV(gi(p), "int"))
    ng = E.rope_len(guessed.d["c"])
    q = z3.Int("qg")
    E.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < ng), z3.And(gi(q) >= 0, gi(q) < nargs))))
    pn = z3.Function(E.name("pname"), INT, U)
    params = mlist(E, "params", lambda p: (SV(pn(p), "obj"), E.app("ptype", [p]), None))
    sig = MList(E, [Item(E.fresh_opq("rtype")), Item(params)])
    rval = E.fresh_opq("rval")
    r = SObj(E, CallResult)
    E.call(E.wrap(CallResult.__init__), [r, lib, rval, args, sig], {"guessed": guessed})
    return lib, args, guessed, params, sig, rval, r, gi, ng, nargs, pn


def is_guessed(E, k, gi, ng):
    q = z3.Int("qx%d" % next(_ctr))
    return z3.Exists([q], z3.And(q >= 0, q < ng, gi(q) == k))


def expect(E, args, k, gi, ng):
    a = E.nth(args, SV(k, "int") if not isinstance(k, int) else k)
    q = is_guessed(E, k, gi, ng)
    return want_val(E, Choice([(q, deref(E, a)), (z3.Not(q), a)]))



def call(E):
    st = setup(E)
    r, rval = st[6], st[5]
    got = outcome(E, lambda: E.call(r, [], {}))
    same(E, got, ("return", want_val(E, rval)), "calling the result gives the return value")


def extract(E):
    hooks(E)
    lib = SObj(E, CTypesCLibrary)
    o = E.fresh_opq("o")
    got = outcome(E, lambda: E.call(E.wrap(CTypesCLibrary._extract_val_), [lib, o], {}))
    same(E, got, ("return", want_val(E, o)), "_extract_val_")
    got = outcome(E, lambda: E.call(E.wrap(CTypesCLibrary._extract_val_), [lib, None], {}))
    same(E, got, ("return", None), "_extract_val_ of the result of a void function")


def get_by_position(E):
    st = setup(E)
    args, gi, ng, nargs, r = content(st[1]), st[7], st[8], st[9], st[6]
    before = content(st[1])
    k = E.fresh_t("k", INT)
    E.assume(k >= 0)
    E.must_reach("in", "out")
    got = outcome(E, lambda: E.call(E.wrap(CallResult.__getitem__), [r, SV(k, "int")], {}))
    if E.decide(k < nargs):
        E.reach("in")
        same(E, got, ("return", expect(E, args, k, gi, ng)), "indexing by position")
    else:
        E.reach("out")
        E.prove(got[0] == "raise", "a position beyond the arguments is refused")
    unchanged(E, st[1], before, "indexing changes nothing")


def get_by_name(E):
    st = setup(E)
    args, gi, ng, nargs, r, pn = content(st[1]), st[7], st[8], st[9], st[6], st[10]
    params = content(st[3])
    np_ = E.rope_len(params)
    name = E.fresh("name", "str")
    E.must_reach("found", "not found")
    k = E.fresh_t("k", INT)
    if E.choose(2):
        # k is the parameter of that name
        E.assume(z3.And(k >= 0, k < np_, k < nargs, pn(k) == U.ustr(name.t)))
        q = z3.Int("qd")
        E.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < np_, pn(q) == U.ustr(name.t)), q == k)))
        if not E.feasible(z3.BoolVal(True)):
            raise PathEnd()
        E.reach("found")
        got = outcome(E, lambda: E.call(E.wrap(CallResult.__getitem__), [r, name], {}))
        same(E, got, ("return", expect(E, args, k, gi, ng)), "indexing by name")
    else:
        q = z3.Int("qd")
        E.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < np_), pn(q) != U.ustr(name.t))))
        if E.bound is not None:
            for j in range(len(params)):
                E.assume(pn(j) != U.ustr(name.t))
        E.reach("not found")
        got = outcome(E, lambda: E.call(E.wrap(CallResult.__getitem__), [r, name], {}))
        same(E, got, ("raise", ExcVal(KeyError)), "a name that is not a parameter")


def get_other(E):
    st = setup(E)
    r = st[6]
    bad = [None, (1,), 1.5][E.choose(3)]
    got = outcome(E, lambda: E.call(E.wrap(CallResult.__getitem__), [r, bad], {}))
    same(E, got, ("raise", ExcVal(ValueError)), "an index of another type")
    got = outcome(E, lambda: E.call(E.wrap(CallResult.__setitem__), [r, bad, None], {}))
    same(E, got, ("raise", ExcVal(ValueError)), "replacing at an index of another type")


def set_item(E):
    st = setup(E)
    args, gi, ng, nargs, r, pn = st[1], st[7], st[8], st[9], st[6], st[10]
    before = content(args)
    params = content(st[3])
    np_ = E.rope_len(params)
    v = E.fresh_opq("new")
    k = E.fresh_t("k", INT)
    E.assume(z3.And(k >= 0, k < nargs))
    by_name = E.choose(2)
    if by_name:
        name = E.fresh("name", "str")
        E.assume(z3.And(k < np_, pn(k) == U.ustr(name.t)))
        q = z3.Int("qd")
        E.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < np_, pn(q) == U.ustr(name.t)), q == k)))
        idx = name
    else:
        idx = SV(k, "int")
    if not E.feasible(z3.BoolVal(True)):
        raise PathEnd()
    got = outcome(E, lambda: E.call(E.wrap(CallResult.__setitem__), [r, idx, v], {}))
    E.prove(got[0] == "return", "replacing an argument succeeds")
    now = E.getattr(r, "args")
    now = E.segs_of(E.resolve(now))
    E.prove(E.rope_len(now) == nargs, "replacing keeps the number of arguments")
    j = E.fresh_t("j", INT)
    E.assume(z3.And(j >= 0, j < nargs))
    x = E.nth(now, SV(j, "int"))
    if E.decide(j == k):
        E.prove_eq(x, v, "the argument is replaced")
    else:
        E.prove_eq(x, E.nth(before, SV(j, "int")), "no other argument changes")


def iterate(E):
    st = setup(E)
    args, gi, ng, nargs, r = content(st[1]), st[7], st[8], st[9], st[6]
    segs = E.norm(E.iter_segs(r))
    E.prove(E.rope_len(segs) == 2, "unpacking gives two values")
    same(E, ("return", E.nth(segs, 0)), ("return", want_val(E, st[5])), "the first is the return value")
    inner = E.iter_segs(E.nth(segs, 1))
    E.prove(E.rope_len(inner) == nargs, "the second has all arguments")
    j = E.fresh_t("j", INT)
    E.assume(z3.And(j >= 0, j < nargs))
    E.prove_eq(E.nth(inner, SV(j, "int")), expect(E, args, j, gi, ng), "all arguments in order")


def auto(E):
    st = setup(E)
    args, gi, ng, nargs, r = content(st[1]), st[7], st[8], st[9], st[6]
    got = outcome(E, lambda: E.call(E.wrap(CallResult.auto), [r], {}))
    E.prove(got[0] == "return", "auto succeeds")
    segs = E.iter_segs(got[1])
    E.prove(E.rope_len(segs) == ng, "auto gives one value per created pointer")
    j = E.fresh_t("j", INT)
    E.assume(z3.And(j >= 0, j < ng))
    a = E.nth(args, SV(gi(j), "int"))
    E.prove_eq(E.nth(segs, SV(j, "int")), want_val(E, deref(E, a)), "auto dereferences in order")
