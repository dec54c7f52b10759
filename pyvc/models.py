"""Models of builtins and of the library functions the code calls.

Functions of the standard library are trusted: they are uninterpreted
functions of their arguments unless stated otherwise.
"""
import ast
import functools
import inspect
import logging
import os
import re
import sys
import traceback
import types
import z3

from .interp import *
from .interp import Splat, KeysView, is_segs, mk_choice
from .ops import I, simp, dict_items, map_choice
from .core import NeedTemplate, PyRaise, PathEnd
from .values import *
from .values import _ctr


def install(E):
    m = E.model

    def builtin(f):
        def deco(g):
            m(f, g)
            return g

        return deco

    @builtin(len)
    def _len(E, a, k):
        v = E.resolve(a[0])
        if isinstance(v, Stub) and hasattr(v.model, "len"):
            return v.model.len(E, v)
        if isinstance(v, KeysView):
            v = v.d
        segs = E.segs_of(v)
        if segs is not None:
            return E.len_val(segs)
        d = v.base if isinstance(v, SObj) else v
        if isinstance(d, MDict):
            base, ov = d.d["c"]
            if base is None:
                return len(dict_items(E, ov))
            if not ov and base.n is not None:
                return SV(I(base.n), "int")
            raise Unsupported("length of a symbolic dict")
        if E.kind(v) == "str":
            v = v.base if isinstance(v, SObj) else v
            return len(v) if isinstance(v, str) else SV(z3.Length(v.t), "int")
        if isinstance(v, RangeVal):
            return E.len_val(E.iter_segs(v))
        if isinstance(v, SV) and v.k == "obj" and "objlen" in E.models:
            return E.models["objlen"][1](E, v)
        if v is None or isinstance(v, (int, bool)):
            E.py_raise(TypeError, "has no len()")
        raise Unsupported("len of %r" % (v,))

    @builtin(isinstance)
    def _isinstance(E, a, k):
        return E.is_instance(a[0], E.resolve(a[1]))

    @builtin(type)
    def _type(E, a, k):
        o = E.resolve(a[0])
        if isinstance(o, SV) and o.k == "obj":
            for c, cl in (
                (U.is_ustr(o.t), str),
                (U.is_uint(o.t), int),
                (U.is_ubool(o.t), bool),
                (U.is_none(o.t), type(None)),
            ):
                if E.decide(c):
                    return cl
            f = E.models.get("objtype")
            if f:
                return f[1](E, o)
            raise Unsupported("type of an opaque object")
        return E.py_type(o)

    @builtin(range)
    def _range(E, a, k):
        a = [E.resolve(x) for x in a]
        if len(a) == 1:
            return RangeVal(0, a[0])
        if len(a) == 2:
            return RangeVal(a[0], a[1])
        return RangeVal(a[0], a[1], a[2])

    @builtin(enumerate)
    def _enumerate(E, a, k):
        start = a[1] if len(a) > 1 else k.get("start", 0)
        v = E.resolve(a[0])
        segs = E.norm(E.iter_segs(v))
        off = simp(I(E.resolve(start)))
        out = []
        for s in segs:
            if isinstance(s, Item):
                out.append(Item((E.lower(SV(off, "int")), s.v)))
                off = simp(off + 1)
            elif isinstance(s, Map):
                p = z3.Int("en!%d" % next(_ctr))
                out.append(Map(s.n, Fn(p, map_choice(s.fn(p), lambda v, p=p: (SV(simp(off + p), "int"), v)))))
                off = simp(off + I(s.n))
            else:
                p = z3.Int("en!%d" % next(_ctr))
                cnt = E.fcount(FMap(p, s.fn))
                body = map_choice(
                    s.fn(p),
                    lambda t: tuple((SV(off + cnt + j, "int"), v) for j, v in enumerate(t)),
                )
                out.append(FMap(s.n, Fn(p, body)))
                off = simp(off + E.fcount(s))
        g = GenVal(tuple(out))
        g.src = [v] if isinstance(v, MList) else list(getattr(v, "src", ()))
        return g

    @builtin(zip)
    def _zip(E, a, k):
        ropes = [E.norm(E.iter_segs(x)) for x in a]
        if all(all(isinstance(s, Item) for s in r) for r in ropes):
            return GenVal(tuple(Item(tuple(x)) for x in zip(*[[s.v for s in r] for r in ropes])))
        lens = [E.rope_len(r) for r in ropes]
        n = lens[0]
        for l in lens[1:]:
            n = simp(z3.If(l < n, l, n)) if not E.ent(l == n) else n
        p = z3.Int("zp!%d" % next(_ctr))
        return GenVal((Map(n, Fn(p, tuple(E.nth_choice(r, p) for r in ropes))),))

    @builtin(reversed)
    def _reversed(E, a, k):
        return GenVal(E.reverse(E.norm(E.iter_segs(a[0]))))

    @builtin(map)
    def _map(E, a, k):
        acc = MList(E)
        node = ast.parse("0").body[0]
        node.lineno = -id(a[0]) % 100000
        node.col_offset = 0
        cell = {}

        def bind(v):
            cell["v"] = v

        def body():
            acc.d["c"] = acc.d["c"] + (Item(E.call(a[0], [cell["v"]], {})),)

        env = Env(E, types.ModuleType("map"))
        E.run_for(node, a[1], bind, body, lambda: None, env)
        return GenVal(acc.d["c"])

    @builtin(filter)
    def _filter(E, a, k):
        raise Unsupported("filter")

    @builtin(max)
    def _max(E, a, k):
        xs = a if len(a) > 1 else [s.v for s in _items(E, a[0])]
        xs = [E.resolve(x) for x in xs]
        if all(isinstance(x, (int, float)) for x in xs):
            return max(xs)
        r = I(xs[0])
        for x in xs[1:]:
            r = z3.If(I(x) > r, I(x), r)
        return E.lower(SV(r, "int"))

    @builtin(min)
    def _min(E, a, k):
        xs = [E.resolve(x) for x in (a if len(a) > 1 else [s.v for s in _items(E, a[0])])]
        if all(isinstance(x, (int, float)) for x in xs):
            return min(xs)
        r = I(xs[0])
        for x in xs[1:]:
            r = z3.If(I(x) < r, I(x), r)
        return E.lower(SV(r, "int"))

    def _items(E, v):
        segs = E.norm(E.iter_segs(v))
        if not all(isinstance(s, Item) for s in segs):
            raise Unsupported("symbolic sequence")
        return segs

    @builtin(all)
    def _all(E, a, k):
        return E.all_segs(E.iter_segs(a[0]), lambda e: E.truth(e))

    @builtin(any)
    def _any(E, a, k):
        return E.any_segs(E.iter_segs(a[0]), lambda e: E.truth(e))

    @builtin(list)
    def _list(E, a, k):
        return MList(E, E.iter_segs(a[0]) if a else ())

    @builtin(tuple)
    def _tuple(E, a, k):
        return E.mk_tuple(E.iter_segs(a[0]) if a else ())

    @builtin(set)
    def _set(E, a, k):
        return SetVal(tuple(E.iter_segs(a[0])) if a else ())

    @builtin(frozenset)
    def _fset(E, a, k):
        return SetVal(tuple(E.iter_segs(a[0])) if a else ())

    @builtin(sorted)
    def _sorted(E, a, k):
        segs = E.norm(E.iter_segs(a[0]))
        if all(isinstance(s, Item) and isinstance(s.v, (str, int)) for s in segs) and not k:
            return MList(E, [Item(v) for v in sorted(s.v for s in segs)])
        raise Unsupported("sorted")

    @builtin(dict)
    def _dict(E, a, k):
        d = MDict(E)
        if a:
            o = E.resolve(a[0])
            if isinstance(o, SObj) and isinstance(o.base, MDict):
                o = o.base
            if isinstance(o, MDict):
                d.d["c"] = o.d["c"]
            else:
                for s in _items(E, o):
                    kk, vv = [x.v for x in _items(E, s.v)]
                    E.dict_set(d, kk, vv)
        for kk, vv in k.items():
            E.dict_set(d, kk, vv)
        return d

    @builtin(str)
    def _str(E, a, k):
        return E.to_str(a[0]) if a else ""

    @builtin(repr)
    def _repr(E, a, k):
        try:
            return E.app("repr", [E.resolve(a[0])], "str")
        except Unsupported:
            return E.fresh("repr", "str")

    @builtin(int)
    def _int(E, a, k):
        v = E.resolve(a[0])
        if isinstance(v, (int, float, str)) and len(a) == 1:
            try:
                return int(v)
            except ValueError as e:
                E.py_raise(ValueError, str(e))
        if isinstance(v, SV) and v.k == "int":
            return v
        if isinstance(v, SV) and v.k == "bool":
            return SV(z3.If(v.t, 1, 0), "int")
        if isinstance(v, SV) and v.k == "str" and len(a) == 1:
            if not E.decide(E.app("intok", [v], "bool").t):
                E.py_raise(ValueError, "invalid literal")
            return E.app("int_of", [v], "int")
        raise Unsupported("int()")

    @builtin(bool)
    def _bool(E, a, k):
        v = E.resolve(a[0]) if a else False
        if isinstance(v, SV) and v.k == "bool":
            return v
        return E.truth(v)

    @builtin(hasattr)
    def _hasattr(E, a, k):
        o, name = E.resolve(a[0]), E.resolve(a[1])
        if isinstance(o, Stub) and hasattr(o.model, "hasattr"):
            return o.model.hasattr(E, o, name)
        if isinstance(o, SV) and o.k == "obj" and "objhas" in E.models:
            return E.models["objhas"][1](E, o, name)
        s = object()
        try:
            return E.getattr(o, name, s, True) is not s
        except PyRaise as e:
            if e.exc.cls is AttributeError:
                return False
            raise

    @builtin(getattr)
    def _getattr(E, a, k):
        name = E.resolve(a[1])
        o = E.resolve(a[0])
        if isinstance(name, SV):
            if isinstance(o, Stub) and hasattr(o.model, "getattr_dyn"):
                return o.model.getattr_dyn(E, o, name)
            raise Unsupported("getattr with a symbolic name")
        if isinstance(o, Stub) and hasattr(o.model, "getattr_dyn"):
            return o.model.getattr_dyn(E, o, name)
        if len(a) > 2:
            try:
                return E.getattr(a[0], name, a[2], True)
            except PyRaise as e:
                if e.exc.cls is AttributeError:
                    return a[2]
                raise
        return E.getattr(a[0], name)

    @builtin(setattr)
    def _setattr(E, a, k):
        E.setattr(a[0], E.resolve(a[1]), a[2])

    @builtin(print)
    def _print(E, a, k):
        return None

    @builtin(iter)
    def _iter(E, a, k):
        return GenVal(E.iter_segs(a[0]))

    @builtin(callable)
    def _callable(E, a, k):
        x = E.resolve(a[0])
        if isinstance(x, SV) and x.k == "obj":
            r = E.app("callable", [x], "bool")
            E.assume(z3.Implies(r.t, U.is_opq(x.t)))
            return E.lower(r)
        if isinstance(x, (Func, Bound, BuiltinMethod, type, DynClass)):
            return True
        if isinstance(x, Stub):
            return hasattr(x.model, "call")
        if isinstance(x, SObj):
            return E.find_attr(x.cls, "__call__") is not None
        if isinstance(x, Poison):
            raise NeedTemplate(x.why)
        return callable(x) if not isinstance(x, (Cell, SV, PTuple)) else False

    @builtin(sum)
    def _sum(E, a, k):
        raise Unsupported("sum")

    @builtin(next)
    def _next(E, a, k):
        g = E.resolve(a[0])
        segs = E.norm(E.iter_segs(g))
        if not segs:
            if len(a) > 1:
                return a[1]
            E.py_raise(StopIteration)
        if isinstance(segs[0], Item):
            return segs[0].v
        if isinstance(segs[0], Map):
            if E.decide(I(segs[0].n) > 0):
                return segs[0].fn(0)
            return _next(E, [GenVal(segs[1:])] + list(a[1:]), k)
        # first element kept by a filter
        s = segs[0]
        j = E.fresh_t("first", INT)
        E.mark_index(j)
        pos, neg = E.pred_len(s, j)
        if E.choose_bool():
            E.assume(z3.And(j >= 0, j < I(s.n), pos))
            q = z3.Int("q!%d" % next(_ctr)) if False else z3.Int("q!nx%d" % id(s))
            E.assume(forall_lt(q, j, z3.substitute(neg, (j, q))))
            if not E.feasible(z3.BoolVal(True)):
                raise PathEnd()
            return E.resolve(s.fn(j))[0]
        q = z3.Int("q!nx%d" % id(s))
        E.assume(forall_lt(q, I(s.n), z3.substitute(neg, (j, q))))
        if not E.feasible(z3.BoolVal(True)):
            raise PathEnd()
        return _next(E, [GenVal(segs[1:])] + list(a[1:]), k)

    # --- modules -------------------------------------------------------------
    def uf(real, name, kind, arity=None):
        def f(E, a, k):
            a = [E.resolve(x) for x in a]
            if pure and all(type(x) is str for x in a):
                return real(*a)
            if real is os.path.join and len(a) > 2:
                # join(a, b, c) == join(join(a, b), c)
                return f(E, [f(E, a[:2], k)] + a[2:], k)
            r = E.app(name, a, kind)
            if kind == "bool" and len(a) == 1 and isinstance(a[0], SV) and a[0].k == "str":
                # nothing has the empty path
                E.assume(z3.Implies(r.t, a[0].t != z3.StringVal("")))
            return E.lower(r)

        pure = real in (os.path.basename, os.path.dirname, os.path.join)
        m(real, f)

    uf(os.path.isfile, "isfile", "bool")
    uf(os.path.isdir, "isdir", "bool")
    uf(os.path.exists, "pexists", "bool")
    uf(os.path.basename, "basename", "str")
    uf(os.path.dirname, "dirname", "str")
    uf(os.path.join, "pjoin", "str")

    @builtin(os.path.realpath)
    def _realpath(E, a, k):
        r = E.app("realpath", [E.resolve(a[0])], "str")
        E.assume(E.app("realpath", [r], "str").t == r.t)
        return r

    def noop(E, a, k):
        return None

    for nm in ("debug", "info", "warning", "error", "exception", "critical", "log"):
        m(getattr(logging, nm), noop)
    m(traceback.format_exc, lambda E, a, k: E.fresh("exc", "str"))
    m(inspect.cleandoc, lambda E, a, k: inspect.cleandoc(a[0]) if isinstance(a[0], str) else E.app("cleandoc", a, "str"))

    @builtin(sys.exc_info)
    def _exc_info(E, a, k):
        if not E.exc_stack:
            return (None, None, None)
        return (E.exc_stack[-1].cls, E.exc_stack[-1], None)


def pred_len(self, s, k):
    from .ops import Ops

    pos, neg = [], []
    self.quiet += 1
    self.ixctx.append(k)
    try:

        def run():
            self.assume(z3.And(k >= 0, k < I(s.n)))
            return len(self.resolve(s.fn(k))) > 0

        outs = self.explore(run)
    finally:
        self.ixctx.pop()
        self.quiet -= 1
    for conds, (kind, val), _ in outs:
        (pos if val else neg).append(z3.And(*conds[1:]) if len(conds) > 1 else z3.BoolVal(True))
    return [z3.simplify(z3.Or(*x)) if x else z3.BoolVal(False) for x in (pos, neg)]


Interp.pred_len = pred_len

STR_PURE = {
    "strip": "str",
    "rstrip": "str",
    "lstrip": "str",
    "upper": "str",
    "lower": "str",
    "isdigit": "bool",
    "replace": "str",
    "title": "str",
    "decode": "str",
    "find": "int",
    "rfind": "int",
    "count": "int",
    "isalpha": "bool",
    "isidentifier": "bool",
    "zfill": "str",
    "ljust": "str",
    "rjust": "str",
    "index": "int",
}


def call_method(E, o, name, a, k):
    a = list(a)
    if isinstance(o, SuperProxy):
        return super_method(E, o, name, a, k)
    if isinstance(o, Stub):
        if not hasattr(o.model, "m_" + name) and hasattr(o.model, "method"):
            return o.model.method(E, o, name, a, k)
        return getattr(o.model, "m_" + name)(E, o, a, k)
    if isinstance(o, logging.Logger):
        return None
    if isinstance(o, SObj) and isinstance(o.base, (str, SV)):
        o = o.base
    if isinstance(o, SObj) and isinstance(o.base, MDict):
        o = o.base
    if isinstance(o, SObj) and isinstance(o.base, (tuple, PTuple)):
        if name == "__eq__":
            return E.raw_eq(o.base, tuple_base(E, a[0]))
        o = o.base
    if isinstance(o, SObj) and name in ("__init__", "__init_subclass__"):
        return None
    if isinstance(o, MList):
        return list_method(E, o, name, a, k)
    if isinstance(o, MDict):
        return dict_method(E, o, name, a, k)
    if E.kind(o) == "str":
        return str_method(E, o, name, a, k)
    if isinstance(o, (tuple, PTuple)):
        if name == "index":
            return seq_index(E, E.segs_of(o), a)
        if name == "count":
            raise Unsupported("tuple.count")
        if name == "__eq__":
            return E.raw_eq(o, tuple_base(E, a[0]))
        if name == "__getitem__":
            return E.getitem(o, a[0])
    if isinstance(o, SetVal):
        if name in ("issubset", "__le__"):
            return E.all_segs(o.segs, lambda e: E.truth(E.contains_segs(E.segs_of(a[0]), e)))
        raise Unsupported("set.%s" % name)
    if isinstance(o, type) and name in ("__new__", "__init__"):
        return super_method(E, SuperProxy(None, a[0]), name, a, k)
    if isinstance(o, type) and o is dict and name == "fromkeys":
        d = MDict(E)
        for s in E.norm(E.iter_segs(a[0])):
            if not isinstance(s, Item):
                raise Unsupported("dict.fromkeys")
            E.dict_set(d, s.v, a[1] if len(a) > 1 else None)
        return d
    if isinstance(o, type) and o in (str, list, dict, tuple):
        return call_method(E, E.resolve(a[0]), name, a[1:], k)
    if isinstance(o, ExcVal):
        if name == "with_traceback":
            return o
    raise Unsupported("method %s of %r" % (name, o))


def tuple_base(E, v):
    v = E.resolve(v)
    if isinstance(v, SObj) and isinstance(v.base, (tuple, PTuple)):
        return v.base
    return v


def super_method(E, sp, name, a, k):
    o = sp.obj
    if name == "__new__":
        cls = E.resolve(a[0])
        if isinstance(cls, type) and issubclass(cls, tuple):
            return SObj(E, cls, base=E.mk_tuple(E.iter_segs(a[1]) if len(a) > 1 else ()))
        if isinstance(cls, type) and issubclass(cls, str):
            v = E.resolve(a[1])
            if isinstance(v, SObj):
                v = v.base
            if E.kind(v) != "str":
                v = E.to_str(v)
            return SObj(E, cls, base=v)
        if isinstance(cls, type) and issubclass(cls, dict):
            return SObj(E, cls, base=MDict(E))
        if isinstance(cls, type) and issubclass(cls, type):
            raise Unsupported("class creation")
        return SObj(E, cls)
    if name == "__init__":
        if isinstance(o, SObj) and isinstance(o.base, MDict):
            src = E.call(dict, a, k)
            o.base.d["c"] = src.d["c"]
        return None
    if name == "__eq__":
        return E.raw_eq(o.base, tuple_base(E, a[0]))
    if name == "__ne__":
        return E.neg(E.raw_eq(o.base, tuple_base(E, a[0])))
    if name == "__call__":
        f = E.models.get("typecall")
        if f:
            return f[1](E, o, a, k)
    if name == "__setattr__":
        o.d[E.resolve(a[0])] = a[1]
        return None
    if isinstance(o, SObj) and o.base is not None:
        return call_method(E, o.base, name, a, k)
    raise Unsupported("super().%s" % name)


def seq_index(E, segs, a):
    """First position of an element, or ValueError."""
    off = z3.IntVal(0)
    for s in E.norm(segs):
        if isinstance(s, Item):
            if E.truth(E.py_eq(s.v, a[0])):
                return E.lower(SV(off, "int"))
            off = simp(off + 1)
            continue
        if isinstance(s, FMap):
            raise Unsupported("index in a filtered sequence")
        j = E.fresh_t("pos", INT)
        E.mark_index(j)
        pos, neg = E.pred_term(s, j, lambda e: E.py_eq(e, a[0]))
        q = z3.Int("q!ix%d" % next(_ctr))
        fact = lambda lim: E.assume(
            forall_lt(q, lim, z3.substitute(neg, (j, q)))
        )
        if E.choose_bool():
            E.assume(z3.And(j >= 0, j < I(s.n), pos))
            fact(j)
            if not E.feasible(z3.BoolVal(True)):
                raise PathEnd()
            return E.lower(SV(simp(off + j), "int"))
        fact(I(s.n))
        if not E.feasible(z3.BoolVal(True)):
            raise PathEnd()
        off = simp(off + I(s.n))
    E.py_raise(ValueError, "not in list")


def list_method(E, o, name, a, k):
    segs = o.d["c"]
    if name == "append":
        o.d["c"] = segs + (Item(a[0]),)
        return None
    if name == "extend":
        o.d["c"] = segs + tuple(E.iter_segs(a[0]))
        return None
    if name == "insert":
        idx = E.resolve(a[0])
        l, r = E.split_at(segs, I(idx))
        o.d["c"] = tuple(l) + (Item(a[1]),) + tuple(r)
        return None
    if name == "pop":
        segs = E.norm(segs)
        if not E.decide(E.rope_len(segs) > 0):
            E.py_raise(IndexError, "pop from empty list")
        idx = E.resolve(a[0]) if a else -1
        if idx == -1 and not isinstance(idx, SV):
            v = E.nth(segs, -1)
            l, _ = E.split_at(segs, simp(E.rope_len(segs) - 1))
            o.d["c"] = tuple(l)
            return v
        v = E.nth(segs, idx)
        t = I(idx)
        if E.decide(t < 0):
            t = simp(t + E.rope_len(segs))
        l, r = E.split_at(segs, t)
        _, r = E.split_at(r, 1)
        o.d["c"] = tuple(l) + tuple(r)
        return v
    if name == "copy":
        return MList(E, segs)
    if name == "index":
        return seq_index(E, segs, a)
    if name == "clear":
        o.d["c"] = ()
        return None
    if name == "reverse":
        o.d["c"] = E.reverse(E.norm(segs))
        return None
    if name == "remove":
        p = seq_index(E, segs, a)
        E.delitem(o, p)
        return None
    if name == "__iter__":
        return GenVal(segs)
    raise Unsupported("list.%s" % name)


def dict_method(E, o, name, a, k):
    if name == "get":
        ok, v = E.dict_get(o, a[0])
        return v if ok else (a[1] if len(a) > 1 else None)
    if name in ("keys", "values", "items"):
        return KeysView(o, name)
    if name == "copy":
        d = MDict(E)
        d.d["c"] = o.d["c"]
        return d
    if name == "pop":
        ok, v = E.dict_get(o, a[0])
        if ok:
            E.dict_del(o, a[0])
            return v
        if len(a) > 1:
            return a[1]
        E.py_raise(KeyError, a[0])
    if name == "setdefault":
        ok, v = E.dict_get(o, a[0])
        if ok:
            return v
        E.dict_set(o, a[0], a[1] if len(a) > 1 else None)
        return a[1] if len(a) > 1 else None
    if name == "update":
        if a:
            s = E.resolve(a[0])
            if isinstance(s, SObj):
                s = s.base
            if isinstance(s, MDict):
                base, ov = s.d["c"]
                if base is None:
                    for kk, vv in dict_items(E, ov):
                        E.dict_set(o, kk, vv)
                else:
                    merge_dict(E, o, s)
            else:
                for it in E.norm(E.iter_segs(s)):
                    if not isinstance(it, Item):
                        raise Unsupported("dict.update")
                    kk, vv = [x.v for x in E.iter_segs(it.v)]
                    E.dict_set(o, kk, vv)
        for kk, vv in k.items():
            E.dict_set(o, kk, vv)
        return None
    if name == "clear":
        o.d["c"] = (None, ())
        return None
    if name == "__contains__":
        return E.contains(o, a[0])
    if name == "__getitem__":
        return E.getitem(o, a[0])
    raise Unsupported("dict.%s" % name)


def merge_dict(E, o, s):
    """o.update(s) for a symbolic s."""
    src = MDict(E)
    src.d["c"] = s.d["c"]
    dst = MDict(E)
    dst.d["c"] = o.d["c"]
    kk = (s.d["c"][0] or o.d["c"][0]).kk

    def lookup(d, kt):
        base, ov = d.d["c"]
        # as terms: (has, value)
        has, val = z3.BoolVal(False), None
        alts = []
        rest = z3.BoolVal(True)
        for key, v in ov:
            e = E.eq_t(SV(kt, kk), key)
            e = z3.BoolVal(bool(e)) if isinstance(e, (bool, type(None))) else e
            alts.append((z3.And(rest, e), v))
            rest = z3.And(rest, z3.Not(e))
        if base is not None:
            alts.append((z3.And(rest, base.has(kt)), base.val(kt)))
        return alts

    def has(kt):
        r = z3.BoolVal(False)
        for d in (dst, src):
            al = lookup(d, kt)
            h = z3.Or(*[c for c, v in al if v is not DELETED]) if al else z3.BoolVal(False)
            r = z3.Or(r, h)
        return z3.simplify(r)

    def val(kt):
        s_al = [(c, v) for c, v in lookup(src, kt) if v is not DELETED]
        hs = z3.Or(*[c for c, _ in s_al]) if s_al else z3.BoolVal(False)
        d_al = [(z3.And(z3.Not(hs), c), v) for c, v in lookup(dst, kt) if v is not DELETED]
        return mk_choice(s_al + d_al)

    o.d["c"] = (SymDict(has, val, None, None, None, kk), ())


def str_method(E, o, name, a, k):
    if isinstance(o, SObj):
        o = o.base
    a = [E.resolve(x) for x in a]
    conc = isinstance(o, str) and all(isinstance(x, (str, int, type(None))) for x in a) and not k
    if conc and name not in ("format",):
        f = getattr(o, name, None)
        if f is None:
            E.py_raise(AttributeError, name)
        try:
            r = f(*a)
        except Exception as e:
            E.py_raise(type(e), str(e))
        return E.wrap(list(r)) if isinstance(r, list) and False else (MList(E, [Item(x) for x in r]) if isinstance(r, list) else r)
    if name == "format":
        h = E.models.get("strformat")
        if h:
            r = h[1](E, o, a, k)
            if r is not None:
                return r
        xs = []
        for x in a:
            if isinstance(x, Splat):
                x = E.mk_tuple(x.segs)
            try:
                xs.append(E.enc(x))
            except Unsupported:
                return E.fresh("fmt", "str")
        if isinstance(o, str) and all(isinstance(x, (str, int)) for x in a) and not k:
            return o.format(*a)
        if k:
            return E.fresh("fmt", "str")
        # braces around plain text and plain {} of strings
        if isinstance(o, str) and all(E.kind(x) in ("str",) for x in a) and o.count("{}") == len(a) and o.count("{") == len(a):
            parts = o.split("{}")
            r = z3.StringVal(parts[0])
            for p, x in zip(parts[1:], a):
                r = z3.Concat(r, E.lift(x), z3.StringVal(p))
            return E.lower(SV(r, "str"))
        f = z3.Function("fmt%d" % len(xs), STR, *[U] * len(xs), STR)
        return SV(f(E.lift(o), *xs), "str")
    if name in ("startswith", "endswith"):
        pre = a[0]
        if isinstance(pre, (tuple, PTuple)):
            return E.any_segs(E.segs_of(pre), lambda p: str_method(E, o, name, [p], {}))
        f = z3.PrefixOf if name == "startswith" else z3.SuffixOf
        return E.b(f(E.lift(pre), E.lift(o)))
    if name == "join":
        segs = E.norm(E.iter_segs(a[0]))
        h = E.models.get("strjoin")
        if h:
            r = h[1](E, o, segs)
            if r is not None:
                return r
        if all(isinstance(s, Item) for s in segs):
            xs = [E.resolve(s.v) for s in segs]
            for x in xs:
                if E.kind(x) != "str":
                    if isinstance(x, SV) and x.k == "obj":
                        if E.decide(U.is_ustr(x.t)):
                            continue
                    E.py_raise(TypeError, "expected str instance")
            xs = [SV(U.s(x.t), "str") if isinstance(x, SV) and x.k == "obj" else x for x in xs]
            if not xs:
                return ""
            r = E.lift(xs[0].base if isinstance(xs[0], SObj) else xs[0])
            for x in xs[1:]:
                x = x.base if isinstance(x, SObj) else x
                parts = [r, E.lift(x)] if o == "" else [r, E.lift(o), E.lift(x)]
                r = z3.Concat(*parts)
            return E.lower(SV(r, "str"))
        return E.app("join", [o, E.mk_tuple(segs)], "str")
    if name == "split":
        h = E.models.get("strsplit")
        if h:
            r = h[1](E, o, a)
            if r is not None:
                return r
        if len(a) == 2 and a[0] is not None and a[1] == 1:
            if not E.decide(E.app("has_sep", [o, a[0]], "bool").t):
                return MList(E, [Item(o)])
            return MList(E, [Item(E.app("before_sep", [o, a[0]], "str")), Item(E.app("after_sep", [o, a[0]], "str"))])
        nm = "split%d" % len(a)
        n = E.app(nm + "_n", [o] + a, "int").t
        E.assume(n >= 0)
        if a and a[0] is not None:
            E.assume(n >= 1)
        if E.bound is not None:
            c = E.choose(E.bound + 1)
            E.assume(n == c)
            if not E.feasible(z3.BoolVal(True)):
                raise PathEnd()
            n = z3.IntVal(c)
        f = lambda p: SV(
            z3.Function(nm + "_e", STR, *[E.lift(x).sort() for x in a], INT, STR)(
                E.lift(o), *[E.lift(x) for x in a], p
            ),
            "str",
        )
        p = z3.Int("sw!%d" % next(_ctr))
        return MList(E, E.norm((Map(n, Fn(p, f(p))),)))
    if name == "partition":
        if not E.decide(E.app("has_sep", [o, a[0]], "bool").t):
            return (o, "", "")
        return (E.app("before_sep", [o, a[0]], "str"), a[0], E.app("after_sep", [o, a[0]], "str"))
    if name in STR_PURE:
        return E.lower(E.app("s_" + name, [o] + list(a), STR_PURE[name]))
    if name == "splitlines":
        raise Unsupported("splitlines")
    raise Unsupported("str.%s" % name)
