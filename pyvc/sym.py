"""Symbolic inputs and small helpers for harnesses."""
import z3

from .values import *
from .values import _ctr
from .ops import I, simp
from .core import PyRaise, PathEnd
from .interp import Interp, KeysView, TAnyList


def fn_elem(E, hint, kind="obj", opq=False):
    """Element of a symbolic sequence as a function of its index."""
    nm = E.name(hint)
    if opq:
        f = z3.Function(nm, INT, O)
        return lambda p: SV(U.opq(f(p)), "obj")
    f = z3.Function(nm, INT, SORT[kind])
    return lambda p: SV(f(p), kind)


def seq(E, hint, elem=None, lo=0, hi=None):
    """Segments of a symbolic sequence of any length (bounded mode: of each
    length up to the bound)."""
    elem = elem or fn_elem(E, hint)
    n = z3.Int(E.name("len_" + hint))
    E.assume(n >= lo)
    if hi is not None:
        E.assume(n <= hi)
    if E.bound is not None or hi is not None:
        top = E.bound if hi is None else (hi if E.bound is None else min(hi, E.bound))
        k = lo + E.choose(max(top - lo, 0) + 1)
        E.assume(n == k)
        return tuple(Item(elem(z3.IntVal(j))) for j in range(k))
    p = z3.Int("e!%d" % next(_ctr))
    return (Map(n, Fn(p, elem(p))),)


def mlist(E, hint, elem=None, lo=0, hi=None):
    return MList(E, seq(E, hint, elem, lo, hi))


def mtuple(E, hint, elem=None, lo=0, hi=None):
    return E.mk_tuple(seq(E, hint, elem, lo, hi))


def outcome(E, thunk):
    """("return", value) or ("raise", exception)"""
    try:
        return "return", thunk()
    except PyRaise as e:
        return "raise", e.exc


def same(E, got, want, label):
    """The outcome of the code is the one of the specification."""
    if got[0] != want[0]:
        E.fail(label, "code: %s %r\nspecification: %s %r" % (got + want))
        return
    if got[0] == "raise":
        same_exc(E, got[1], want[1], label)
    else:
        E.prove_eq(got[1], want[1], label)


def same_exc(E, a, b, label):
    if a.cls is b.cls:
        E.prove(True, label + " (exception)")
    elif isinstance(a.cls, SV) or isinstance(b.cls, SV):
        if isinstance(a.cls, SV) and isinstance(b.cls, SV):
            E.prove(a.cls.t == b.cls.t, label + " (exception)")
        else:
            E.fail(label + " (exception)", "code raises %r, specification %r" % (a, b))
    elif isinstance(a.cls, type) and isinstance(b.cls, type) and issubclass(a.cls, b.cls):
        E.prove(True, label + " (exception)")
    else:
        E.fail(label + " (exception)", "code raises %r, specification %r" % (a, b))


def conc_str(E, hint):
    return E.fresh(hint, "str")


def symdict(E, hint, val=None, kk="str", iterable=False, vkind="obj"):
    """A symbolic dict with any content."""
    h = z3.Function(E.name("has_" + hint), SORT[kk], BOOL)
    if val is None:
        v = z3.Function(E.name("val_" + hint), SORT[kk], SORT[vkind])
        val = lambda k: SV(v(k), vkind)
    if not iterable:
        sd = SymDict(lambda k: h(k), val, None, None, None, kk)
        return MDict(E, sd)
    if E.bound is not None:
        # explicit content: each size up to the bound, keys distinct
        n = E.choose(E.bound + 1)
        keys = [E.fresh(hint + "_key", kk) for _ in range(n)]
        if n > 1:
            E.assume(z3.Distinct(*[k.t for k in keys]))
        return MDict(E, None, tuple((k, val(k.t)) for k in reversed(keys)))
    n = z3.Int(E.name("size_" + hint))
    E.assume(n >= 0)
    key = z3.Function(E.name("key_" + hint), INT, SORT[kk])
    pos = z3.Function(E.name("pos_" + hint), SORT[kk], INT)
    sd = SymDict(lambda k: h(k), val, n, lambda p: key(p), lambda k: pos(k), kk)
    return MDict(E, sd)


def content(v):
    """Snapshot of the content of a list or dict."""
    if isinstance(v, SObj):
        v = v.base
    return v.d["c"]


def unchanged(E, cell, before, label):
    """The list or dict still has the content it had."""
    if isinstance(cell, SObj):
        cell = cell.base
    now = cell.d["c"]
    if now is before or now == before:
        E.prove(True, label)
        return
    tmp = MList(E) if isinstance(cell, MList) else MDict(E)
    tmp.d["c"] = before
    E.prove_eq(cell, tmp, label)


def staged(E, setup, run):
    """setup() and then run(w) on each path, executed once: the paths of the
    harness that follow share the paths of the code (which are all of them)
    instead of executing it again.  setup may not choose."""
    if E.bound is not None:
        w = setup()
        return w, outcome(E, lambda: run(w))
    cache = E.__dict__.setdefault("stage_cache", {})
    key = tuple(E.ctx.taken)
    if key not in cache:
        n0 = len(E.pc)
        w = setup()
        if tuple(E.ctx.taken) != key:
            raise Unsupported("choice in a stage")
        pcs = list(E.pc[n0:])
        outs = E.explore(lambda: outcome(E, lambda: run(w)))
        cache[key] = (w, pcs, outs, dict(E.fresh_c), _ctr.n, list(E.cands))
        first = True
    else:
        first = False
    w, pcs, outs, fresh_c, ctr, cands = cache[key]
    if not first:
        for c in pcs:
            E.assume(c)
        E.fresh_c = dict(fresh_c)
        _ctr.n = ctr
        E.cands[:] = cands
    if not outs:
        raise PathEnd()
    conds, out, st = outs[E.choose(len(outs))]
    for c in conds:
        E.assume(c)
    if out[0] != "normal":
        raise Unsupported("stage ended with %s" % (out[0],))
    E.adopt(st)
    return w, out[1]
