"""Common setting of the harnesses about CFunction.__call__."""
from pyvc.sym import *
from pyvc.values import _ctr
from pyvc.interp import Splat
import threading
from pyclibrary import c_library
from pyclibrary.c_library import CFunction, CallResult, CLibrary
from pyclibrary.c_parser import CParser
from pyclibrary.backends.ctypes import CTypesCLibrary


class Lock:
    """threading.RLock: events are recorded."""

    @staticmethod
    def enter(E, o):
        E.trace("acquire", o)
        return o

    @staticmethod
    def exit(E, o, exc):
        E.trace("release", o)

    @staticmethod
    def m_acquire(E, o, a, k):
        E.trace("acquire", o)
        return True

    @staticmethod
    def m_release(E, o, a, k):
        E.trace("release", o)


class CFunc:
    """The C function: records its arguments, then returns or raises."""

    @staticmethod
    def call(E, o, a, k):
        segs = []
        for x in a:
            segs.extend(x.segs if isinstance(x, Splat) else [Item(x)])
        E.trace("call", MList(E, segs) if not k else Poison("keywords"))
        E.assume_mode("call may raise")
        if E.choose(2):
            raise PyRaise(ExcVal(SV(U.opq(z3.Const("c_exception", O)), "obj")))
        return o.data[0]

    @staticmethod
    def attr(E, o, name):
        if name == "argtypes":
            return E.fresh_opq("argtypes")
        raise Unsupported("attribute %s of the C function" % name)


class PyClass:
    """The class of a declared type: calling it gives a NULL pointer."""

    @staticmethod
    def call(E, o, a, k):
        if a or k:
            raise Unsupported("class call")
        return E.app("null_of", [o.data[0]])


class Ctx0:
    pass


def null_of(E, typ):
    return E.app("null_of", [typ])


def setup(E, lock=None):
    c = Ctx0()
    c.events = MList(E)
    E.trace = lambda what, v: c.events.d.__setitem__("c", c.events.d["c"] + (Item((what, v)),))
    E.assume_mode = lambda t: None
    c.lock = Stub(E, Lock)
    c.parser = SObj(E, CParser)
    c.lib = SObj(E, CTypesCLibrary, dict(_headers_=c.parser, _lock_=c.lock))
    c.lib.d["_lock_calls_"] = bool(lock)

    # eval_type and _get_type through their contracts
    def eval_type(E, a, k):
        sig = E.resolve(a[1])
        n = E.app("et_len", [sig], "int")
        E.assume(n.t >= 1)
        return Stub(E, EvType, sig)

    def get_type(E, a, k):
        if len(a) > 2 or k:
            raise Unsupported("_get_type")
        return Stub(E, PyClass, E.resolve(a[1]))

    def get_pointer(E, a, k):
        et, sig = E.resolve(a[1]), E.resolve(a[2])
        if isinstance(et, Stub) and et.model is EvType:
            E.prove_eq(et.data[0], sig, "the pointer is built from the resolved type of its parameter")
        if not E.decide(E.app("auto_ptr", [sig], "bool").t):
            E.py_raise(AssertionError)
        x = E.fresh_opq("newptr")
        # what the contract promises about the new pointer
        E.assume(E.app("newptr_type", [x]).t == E.enc(sig))
        return x

    E.contract(CParser.eval_type, eval_type)
    E.contract(CTypesCLibrary._get_type, get_type)
    E.contract(CTypesCLibrary._get_pointer, get_pointer)
    c.null = CTypesCLibrary.Null

    # the signature: any number of parameters, without defaults
    pn = z3.Function(E.name("pname"), INT, U)
    pt = z3.Function(E.name("ptype"), INT, O)
    c.pname = lambda p: SV(pn(p), "obj")
    c.ptype = lambda p: SV(U.opq(pt(p)), "obj")
    c.params = mlist(E, "params", lambda p: (c.pname(p), c.ptype(p), None))
    c.n = E.rope_len(c.params.d["c"])
    q = z3.Int("qn")
    E.assume(z3.ForAll([q], z3.Or(U.is_none(pn(q)), U.is_opq(pn(q))), patterns=[pn(q)]))
    # position of a name: defined by the invariant of CFunction (this also
    # says that named parameters have different names)
    c.pos = z3.Function(E.name("posof"), U, INT)
    c.is_param = lambda s: z3.And(c.pos(s) >= 0, c.pos(s) < c.n, pn(c.pos(s)) == s)
    E.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < c.n, U.is_opq(pn(q))), c.pos(pn(q)) == q), patterns=[pn(q)]))
    if E.bound is not None:
        for j in range(len(c.params.d["c"])):
            j = z3.IntVal(j)
            E.assume(z3.Or(U.is_none(pn(j)), z3.And(U.is_opq(pn(j)), c.pos(pn(j)) == j)))
    c.arg_inds = MDict(E, SymDict(lambda k: z3.And(U.is_opq(k), c.is_param(k)), lambda k: SV(c.pos(k), "int"), kk="obj"))
    c.rval = E.fresh_opq("rval")
    c.func = Stub(E, CFunc, c.rval)
    c.sig = MList(E, [Item(E.fresh_opq("rtype")), Item(c.params)])
    c.arg_types = MList(E, ())
    c.f = SObj(
        E,
        CFunction,
        dict(
            lock_call=bool(lock),
            lib=c.lib,
            func=c.func,
            sig=c.sig,
            name=E.fresh("fname", "str"),
            res_type=E.fresh_opq("res_type"),
            arg_types=E.fresh_opq("arg_types"),
            req_args=MList(E, c.params.d["c"] and E.norm([Map(s_.n, Fn(s_.fn.p, s_.fn.body[0])) if isinstance(s_, Map) else Item(s_.v[0]) for s_ in c.params.d["c"]])),
            arg_inds=c.arg_inds,
        ),
    )
    E.contract(CFunction.pretty_signature, lambda E, a, k: E.fresh("sig", "str"))

    # positional values: None or any object
    none = z3.Function(E.name("arg_none"), INT, BOOL)
    val = z3.Function(E.name("arg_val"), INT, O)
    c.arg = lambda p: Choice([(none(p), None), (z3.Not(none(p)), SV(U.opq(val(p)), "obj"))])
    c.arg_none = none
    c.arg_val = lambda p: SV(U.opq(val(p)), "obj")
    c.args = seq(E, "args", c.arg)
    c.nargs = E.rope_len(c.args)
    E.assume(c.nargs <= c.n)
    # keyword values
    knone = z3.Function(E.name("kw_none"), U, BOOL)
    kval = z3.Function(E.name("kw_val"), U, O)
    c.kw_val = lambda s: Choice([(knone(s), None), (z3.Not(knone(s)), SV(U.opq(kval(s)), "obj"))])
    c.kw_none, c.kw_obj = knone, (lambda s: SV(U.opq(kval(s)), "obj"))
    c.kw = symdict(E, "kwargs", c.kw_val, kk="obj", iterable=True)
    base, ov = c.kw.d["c"]
    if base is None:
        keys = [k for k, _ in ov]
        for k in keys:
            E.assume(U.is_opq(k.t))
        c.kw_has = lambda s: z3.Or(*[k.t == s for k in keys]) if keys else z3.BoolVal(False)
        c.kw_pos = None
    else:
        has, key, pos = base.has, base.key, base.pos
        c.kw_has, c.kw_pos = has, pos
        q = z3.Int("qk")
        s2 = z3.Const("sk", U)
        # positions and keys correspond
        E.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < base.n), z3.And(U.is_opq(key(q)), has(key(q)), pos(key(q)) == q)), patterns=[key(q)]))
        E.assume(z3.ForAll([s2], z3.Implies(has(s2), z3.And(pos(s2) >= 0, pos(s2) < base.n, key(pos(s2)) == s2)), patterns=[has(s2)]))
    E.cands.append(lambda E, t, cell, k, e0: kw_cand(E, c, t, cell, e0))
    return c


class EvType:
    """Result of eval_type: only its length matters."""

    @staticmethod
    def len(E, o):
        return E.app("et_len", [o.data[0]], "int")

    @staticmethod
    def enc(E, o):
        return E.app("et", [o.data[0]]).t


def filled(c, p, t=None):
    """Value given at position p by the keywords (before iteration t of the
    loop over them), as a condition and a value."""
    nm = c.pname(p).t
    s = nm
    has = z3.And(p < c.n, U.is_opq(nm), c.kw_has(s))
    if t is not None:
        has = z3.And(has, c.kw_pos(s) < t)
    return has, s


def kw_cand(E, c, t, cell, e0):
    """After t keywords, the values of those t are in their places."""
    if not isinstance(cell, MList) or c.kw_pos is None:
        return None
    if E.cand_n is None or not E.cand_n.eq(c.kw.d["c"][0].n):
        return None
    if not E.ent(E.rope_len(e0) == c.n):
        return None
    p = z3.Int("kp!%d" % next(_ctr))
    has, s = filled(c, p, t)
    body = Choice(
        [
            (z3.And(has, c.kw_none(s)), c.null),
            (z3.And(has, z3.Not(c.kw_none(s))), c.kw_obj(s)),
            (z3.Not(has), E.nth_choice(e0, p)),
        ]
    )
    return (Map(c.n, Fn(p, body)),)
