"""Interpreter for the Python source of the functions under contract."""
import ast
import builtins
import inspect
import logging
import sys
import types
import z3

from .ops import *
from .ops import I, simp
from .values import *
from .values import _ctr, IX_SERIAL, IX_KEEP, real_id

PKG = "pyclibrary"


class Source:
    """Parsed source of the modules under verification."""

    def __init__(self):
        self.mods = {}

    def module(self, m):
        if m.__name__ not in self.mods:
            tree = ast.parse(open(m.__file__, encoding="utf-8").read())
            idx = {}
            for n in ast.walk(tree):
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    first = min([n.lineno] + [d.lineno for d in n.decorator_list])
                    idx[(n.name, first)] = n
            self.mods[m.__name__] = (tree, idx)
        return self.mods[m.__name__]

    def node(self, f):
        m = sys.modules.get(f.__module__)
        if m is None or not getattr(m, "__file__", None):
            return None
        _, idx = self.module(m)
        return idx.get((f.__name__, f.__code__.co_firstlineno))


SRC = Source()


class Env(Cell):
    """Local variables of a call."""

    def __init__(self, E, module, parent=None, func=None):
        super().__init__(E)
        self.module, self.parent, self.func = module, parent, func
        self.globals_, self.nonlocals = set(), set()
        self.selfv = None
        self.cls = None

    def lookup(self, name):
        e = self
        while e is not None:
            if name in e.d and name not in e.globals_:
                return e
            e = e.parent
        return None


def is_pkg_func(f):
    return isinstance(f, types.FunctionType) and (f.__module__ or "").split(".")[0] in (PKG, "contracts", "specs")


def has_yield(node):
    todo = list(node.body)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))
    return False


class ClassVal:
    """Wrapper giving attribute access on a real class."""


class Interp(Ops):
    def __init__(self, bound=None, deadline=None):
        super().__init__(bound, deadline)
        self.world = Cell(self)
        self.contracts = {}
        self.models = {}
        self.lib_wrappers = []
        self.lib_callers = []
        self.keep = []
        self.fcache = {}
        self.live = set()
        self.cands = []
        self.exc_stack = []
        self.loop_stack = []
        self.depth = 0
        self.while_unroll = 6
        self.inlined = set()
        self.havocked = False
        self.trial = 0
        self.want, self.reached = set(), set()
        self.used_contracts = set()
        self.used_models = set()
        from . import models

        models.install(self)
        self.eager()

    def eager(self):
        """Cells for the mutable globals and class attributes of the code."""
        for nm, m in sorted(sys.modules.items()):
            if nm.split(".")[0] != PKG or not isinstance(m, types.ModuleType):
                continue
            for k, v in list(vars(m).items()):
                if k.startswith("__"):
                    continue
                if type(v) in (list, dict):
                    self.wrap(v)
                elif isinstance(v, type) and v.__module__ == nm:
                    for a, b in list(vars(v).items()):
                        if type(b) in (list, dict) and not a.startswith("__"):
                            self.wrap(b)

    def must_reach(self, *names):
        """Vacuity guard: these points have to be reached on some path."""
        self.want.update(names)

    def reach(self, name):
        if self.feasible(z3.BoolVal(True)):
            self.reached.add(name)

    # --- registry ------------------------------------------------------------
    def model(self, real, fn):
        self.keep.append(real)
        self.models[id(real)] = (real, fn)

    def contract(self, real, fn):
        """Use a contract in place of the body of a function of the code."""
        self.keep.append(real)
        self.contracts[id(real)] = (real, fn)

    # --- wrapping of real objects ------------------------------------------------
    def wrap(self, o):
        if isinstance(o, (Cell, SV, Choice, PTuple, Func, Bound, Poison)):
            return o
        if o is None or isinstance(o, (bool, int, float, str, bytes)):
            if type(o) in (type(None), bool, int, float, str, bytes):
                return o
        if is_pkg_func(o):
            k = id(o)
            if k not in self.fcache:
                node = SRC.node(o)
                if node is None:
                    raise Unsupported("no source for %r" % o)
                self.keep.append(o)
                self.fcache[k] = Func(
                    node,
                    sys.modules[o.__module__],
                    None,
                    o.__qualname__,
                    tuple(o.__defaults__ or ()),
                    dict(o.__kwdefaults__ or {}),
                    real=o,
                )
            return self.fcache[k]
        if type(o) is tuple:
            return tuple(self.wrap(x) for x in o)
        if type(o) is list:
            k = ("o", id(o))
            if k not in self.world.d:
                self.keep.append(o)
                self.world.d[k] = MList(self, [Item(self.wrap(x)) for x in o])
            return self.world.d[k]
        if type(o) is dict:
            k = ("o", id(o))
            if k not in self.world.d:
                self.keep.append(o)
                self.world.d[k] = MDict(
                    self, None, tuple((self.wrap(a), self.wrap(b)) for a, b in reversed(list(o.items())))
                )
            return self.world.d[k]
        if type(o) in (set, frozenset):
            return SetVal(tuple(Item(self.wrap(x)) for x in sorted(o, key=repr)))
        for f in self.lib_wrappers:
            r = f(self, o)
            if r is not None:
                return r
        return o

    def set_global(self, module, name, v):
        self.world.d[("g", module.__name__, name)] = v

    def get_global(self, module, name):
        k = ("g", module.__name__, name)
        if k in self.world.d:
            return self.world.d[k]
        if name in module.__dict__:
            return self.wrap(module.__dict__[name])
        if hasattr(builtins, name):
            return getattr(builtins, name)
        self.py_raise(NameError, name)

    def set_class_attr(self, cls, name, v):
        self.world.d[("c", cls, name)] = v

    # --- attributes -----------------------------------------------------------------
    def mro(self, cls):
        if isinstance(cls, DynClass):
            out = [cls]
            for b in cls.bases:
                out += [c for c in self.mro(b) if c not in out]
            return out
        return list(cls.__mro__)

    def find_attr(self, cls, name, after=None):
        """Look a name up in a class: (kind, value) or None."""
        mro = self.mro(cls)
        if after is not None:
            mro = mro[mro.index(after) + 1 :]
        for c in mro:
            k = ("c", c, name)
            if not isinstance(c, DynClass) and k in self.world.d:
                return "val", self.world.d[k]
            if isinstance(c, DynClass):
                if name in c.d:
                    v = c.d[name]
                    return ("func" if isinstance(v, Func) else "val"), v
                continue
            if name in c.__dict__:
                raw = c.__dict__[name]
                if isinstance(raw, types.FunctionType):
                    if is_pkg_func(raw):
                        f = self.wrap(raw)
                        f.cls = c
                        return "func", f
                    return "builtin", c
                if isinstance(raw, property):
                    f = self.wrap(raw.fget)
                    f.cls = c
                    return "prop", f
                if isinstance(raw, staticmethod):
                    return "static", self.wrap(raw.__func__)
                if isinstance(raw, classmethod):
                    if not is_pkg_func(raw.__func__):
                        return "builtin", c
                    f = self.wrap(raw.__func__)
                    f.cls = c
                    return "classm", f
                if c in (object, tuple, dict, str, list, int, BaseException, Exception, type):
                    return "builtin", c
                return "val", self.wrap(raw)
        return None

    def getattr(self, o, name, default=None, has_default=False):
        o = self.resolve(o)
        if isinstance(o, SuperProxy):
            on_cls = isinstance(o.obj, type) and isinstance(o.cls, type) and issubclass(o.obj, o.cls)
            m = self.find_attr(o.obj if on_cls else self.class_of(o.obj), name, after=o.cls)
            if m is None:
                self.py_raise(AttributeError, name)
            if on_cls and m[0] in ("func", "static"):
                return m[1]
            if m[0] == "func":
                return Bound(m[1], o.obj)
            if m[0] == "prop":
                return self.call(m[1], [o.obj], {})
            if m[0] == "builtin":
                return BuiltinMethod(o, name)
            return m[1]
        if isinstance(o, SObj):
            if name in o.d:
                return o.d[name]
            if name == "__class__":
                return o.cls
            m = self.find_attr(o.cls, name)
            if m is not None:
                if m[0] == "func":
                    return Bound(m[1], o)
                if m[0] == "prop":
                    return self.call(m[1], [o], {})
                if m[0] == "classm":
                    return Bound(m[1], o.cls)
                if m[0] == "builtin":
                    return BuiltinMethod(o, name)
                return m[1]
            ga = self.find_attr(o.cls, "__getattr__")
            if ga is not None and ga[0] == "func" and not (name.startswith("_") and name.endswith("_")):
                return self.call(Bound(ga[1], o), [name], {})
            if has_default:
                return default
            self.py_raise(AttributeError, name)
        if isinstance(o, Stub):
            if name in o.d:
                return o.d[name]
            m = getattr(o.model, "attr", None)
            if m is not None:
                return m(self, o, name)
            if hasattr(o.model, "m_" + name):
                return BuiltinMethod(o, name)
            if has_default:
                return default
            raise Unsupported("attribute %s of %s" % (name, o.model.__name__))
        if isinstance(o, DynClass):
            if name in o.d:
                return o.d[name]
            if name == "__name__":
                return o.name
            m = self.find_attr(o, name)
            if m:
                return m[1]
            if has_default:
                return default
            self.py_raise(AttributeError, name)
        if isinstance(o, type):
            if name == "__name__":
                return o.__name__
            m = self.find_attr(o, name)
            if m is not None:
                if m[0] == "classm":
                    return Bound(m[1], o)
                if m[0] == "builtin":
                    return BuiltinMethod(o, name)
                return m[1]
            m = self.find_attr(type(o), name)
            if m is not None and m[0] in ("func",):
                return Bound(m[1], o)
            if m is not None and m[0] == "val":
                return m[1]
            if has_default:
                return default
            self.py_raise(AttributeError, name)
        if isinstance(o, types.ModuleType):
            if (o.__name__ or "").split(".")[0] == PKG:
                return self.get_global(o, name)
            k = ("g", o.__name__, name)
            if k in self.world.d:
                return self.world.d[k]
            if not hasattr(o, name):
                self.py_raise(AttributeError, name)
            return self.wrap_lib(getattr(o, name))
        if isinstance(o, ExcVal):
            if name == "args":
                return o.args
            if name == "__class__":
                return o.cls
            if ("x", o, name) in self.world.d:
                return self.world.d[("x", o, name)]
            return BuiltinMethod(o, name)
        if isinstance(o, (Func, Bound)) and name in ("__name__",):
            return getattr(o, "name", "f")
        if isinstance(o, (str, bytes, MList, MDict, tuple, PTuple, SV, SetVal, GenVal)):
            if isinstance(o, SV) and o.k == "obj":
                f = self.models.get("objattr")
                if f:
                    return f[1](self, o, name, has_default, default)
                raise Unsupported("attribute %s of an opaque object" % name)
            if has_default and name == "value":
                return default
            return BuiltinMethod(o, name)
        if has_default and not hasattr(o, name):
            return default
        if isinstance(o, (int, float, type(None), bool)):
            if not hasattr(o, name):
                self.py_raise(AttributeError, name)
            return BuiltinMethod(o, name)
        # a concrete library object
        if hasattr(o, name):
            return self.wrap_lib(getattr(o, name))
        raise Unsupported("attribute %s of %r" % (name, o))

    def wrap_lib(self, o):
        if isinstance(o, (list, dict, set)) and type(o) in (list, dict, set):
            return self.wrap(o)
        return o

    def class_of(self, o):
        o = self.resolve(o)
        if isinstance(o, SObj):
            return o.cls
        if isinstance(o, (type, DynClass)):
            return type if not isinstance(o, type) else type(o)
        return self.py_type(o)

    def setattr(self, o, name, v):
        o = self.resolve(o)
        if isinstance(o, Cell):
            if isinstance(o, Stub) and hasattr(o.model, "setattr"):
                return o.model.setattr(self, o, name, v)
            if isinstance(o, (SObj, Stub, DynClass)):
                o.d[name] = v
                return
        if isinstance(o, type):
            self.set_class_attr(o, name, v)
            return
        if isinstance(o, types.ModuleType):
            self.set_global(o, name, v)
            return
        if isinstance(o, ExcVal):
            self.world.d[("x", o, name)] = v
            return
        raise Unsupported("attribute assignment on %r" % (o,))

    def py_type(self, o):
        """type(o) as a real class."""
        if isinstance(o, SV):
            if o.k == "obj":
                raise Unsupported("type of an opaque object")
            return {"int": int, "bool": bool, "str": str}[o.k]
        if isinstance(o, (tuple, PTuple)):
            return tuple
        if isinstance(o, MList):
            return list
        if isinstance(o, MDict):
            return dict
        if isinstance(o, SetVal):
            return set
        if isinstance(o, SObj):
            return o.cls
        if isinstance(o, ExcVal):
            return o.cls
        if isinstance(o, (Func, Bound)):
            return types.FunctionType
        if isinstance(o, DynClass):
            return type
        if isinstance(o, Stub):
            return getattr(o.model, "pytype", o.model)
        if isinstance(o, GenVal):
            return types.GeneratorType
        return type(o)

    def is_instance(self, o, cls):
        """isinstance, as a Python bool (may fork)."""
        o = self.resolve(o)
        if isinstance(cls, (tuple, PTuple, MList)):
            return any(self.is_instance(o, s.v) for s in self.segs_of(cls))
        if isinstance(o, SV) and o.k == "obj":
            t = o.t
            tests = {
                str: U.is_ustr(t),
                bool: U.is_ubool(t),
                int: z3.Or(U.is_uint(t), U.is_ubool(t)),
                type(None): U.is_none(t),
                tuple: z3.Or(U.is_nil(t), U.is_cons(t)),
            }
            if cls in tests:
                return self.decide(tests[cls])
            f = self.models.get("objinst")
            if f:
                return f[1](self, o, cls)
            raise Unsupported("isinstance of an opaque object")
        pt = self.py_type(o)
        if isinstance(cls, DynClass):
            return isinstance(o, SObj) and cls in self.mro(o.cls)
        if isinstance(o, Stub) and hasattr(o.model, "isinstance"):
            return o.model.isinstance(self, o, cls)
        if not isinstance(pt, type):
            return False
        return issubclass(pt, cls)

    # --- calls -----------------------------------------------------------------------
    def call(self, f, args, kwargs, node=None):
        f = self.resolve(f)
        args = list(args)
        if isinstance(f, Bound):
            return self.call(f.func, [f.self_] + args, kwargs)
        if isinstance(f, Func):
            if f.real is not None and id(f.real) in self.contracts:
                self.used_contracts.add(f.name)
                return self.contracts[id(f.real)][1](self, args, kwargs)
            return self.invoke(f, args, kwargs)
        if isinstance(f, Stub):
            if not hasattr(f.model, "call"):
                raise Unsupported("call of %s" % f.model.__name__)
            return f.model.call(self, f, args, kwargs)
        if isinstance(f, BuiltinMethod):
            from . import models

            return models.call_method(self, f.obj, f.name, args, kwargs)
        if id(f) in self.models:
            real, fn = self.models[id(f)]
            self.used_models.add(getattr(real, "__qualname__", getattr(real, "__name__", repr(real))))
            return fn(self, args, kwargs)
        if isinstance(f, type):
            if issubclass(f, BaseException):
                return ExcVal(f, args)
            meta = type(f)
            if meta is not type and is_pkg_func(meta.__dict__.get("__call__", None)):
                m = self.wrap(meta.__dict__["__call__"])
                m.cls = meta
                if id(m.real) in self.contracts:
                    return self.contracts[id(m.real)][1](self, [f] + args, kwargs)
                return self.invoke(m, [f] + args, kwargs)
            if (f.__module__ or "").split(".")[0] == PKG:
                return self.instantiate(f, args, kwargs)
        if isinstance(f, DynClass):
            o = SObj(self, f)
            return o
        if isinstance(f, SObj):
            m = self.find_attr(f.cls, "__call__")
            if m and m[0] == "func":
                return self.call(Bound(m[1], f), args, kwargs)
        if isinstance(f, types.MethodType) and isinstance(f.__self__, logging.Logger):
            return None
        if isinstance(f, SV) and f.k == "obj" and "objcall" in self.models:
            return self.models["objcall"][1](self, f, args, kwargs)
        if f is None or isinstance(f, (int, str, SV)) and self.kind(f) in ("int", "str", "bool"):
            self.py_raise(TypeError, "not callable")
        for c in self.lib_callers:
            r = c(self, f, args, kwargs)
            if r is not NotImplemented:
                return r
        raise Unsupported("call of %r" % (f,))

    def instantiate(self, cls, args, kwargs):
        if id(cls) in self.contracts:
            return self.contracts[id(cls)][1](self, [cls] + list(args), kwargs)
        new = self.find_attr(cls, "__new__")
        if new and new[0] in ("func", "static"):
            o = self.call(new[1], [cls] + list(args), kwargs)
        else:
            o = SObj(self, cls)
            if issubclass(cls, tuple):
                o.base = self.mk_tuple(self.iter_segs(args[0]) if args else ())
            elif issubclass(cls, dict):
                o.base = MDict(self)
            elif issubclass(cls, str):
                o.base = args[0] if args else ""
        init = self.find_attr(cls, "__init__")
        if init and init[0] == "func" and isinstance(o, SObj):
            self.call(Bound(init[1], o), args, kwargs)
        elif init and init[0] == "builtin" and issubclass(cls, dict):
            from . import models

            models.call_method(self, SuperProxy(cls, o), "__init__", args, kwargs)
        return o

    def bind_args(self, f, env, args, kwargs):
        a = f.node.args
        args = list(args)
        kwargs = dict(kwargs)
        starmap = kwargs.pop("**", None)
        names = [x.arg for x in a.posonlyargs + a.args]
        # splat of a symbolic sequence
        flat = []
        rest_segs = None
        for x in args:
            if isinstance(x, Splat):
                if rest_segs is None:
                    rest_segs = list(x.segs)
                else:
                    rest_segs += list(x.segs)
            elif rest_segs is not None:
                rest_segs.append(Item(x))
            else:
                flat.append(x)
        if rest_segs is not None:
            rest_segs = self.norm(rest_segs)
            while rest_segs and isinstance(rest_segs[0], Item):
                flat.append(rest_segs[0].v)
                rest_segs = rest_segs[1:]
            while rest_segs and len(flat) < len(names):
                if self.decide(self.rope_len(rest_segs) > 0):
                    l, rest_segs = self.split_at(rest_segs, 1)
                    flat.append(self.nth(l, 0))
                else:
                    rest_segs = ()
        rest_segs = tuple(rest_segs or ())
        for n in names:
            if flat:
                env.d[n] = flat.pop(0)
                if n in kwargs:
                    self.py_raise(TypeError, "multiple values for argument")
            elif n in kwargs:
                env.d[n] = kwargs.pop(n)
        if a.vararg:
            env.d[a.vararg.arg] = self.mk_tuple([Item(x) for x in flat] + list(rest_segs))
        elif flat:
            self.py_raise(TypeError, "too many arguments")
        elif rest_segs:
            if self.decide(self.rope_len(rest_segs) > 0):
                self.py_raise(TypeError, "too many arguments")
        dn = names[len(names) - len(f.defaults) :] if f.defaults else []
        for n, v in zip(dn, f.defaults):
            if n not in env.d:
                env.d[n] = self.wrap(v)
        for x in a.kwonlyargs:
            if x.arg in kwargs:
                env.d[x.arg] = kwargs.pop(x.arg)
            elif x.arg in f.kwdefaults:
                env.d[x.arg] = self.wrap(f.kwdefaults[x.arg])
        for n in names + [x.arg for x in a.kwonlyargs]:
            if n not in env.d:
                self.py_raise(TypeError, "missing argument %s" % n)
        if a.kwarg:
            if starmap is not None:
                if kwargs:
                    raise Unsupported("mixed keywords")
                env.d[a.kwarg.arg] = starmap
            else:
                env.d[a.kwarg.arg] = MDict(self, None, tuple(reversed(list(kwargs.items()))))
        elif kwargs or starmap is not None:
            if starmap is not None and not self.truth(starmap):
                return
            self.py_raise(TypeError, "unexpected keyword %s" % list(kwargs))

    def invoke(self, f, args, kwargs):
        if self.depth > 60:
            raise Unsupported("recursion too deep: %s" % f.name)
        env = Env(self, f.module, f.env, f)
        env.cls = f.cls
        if f.real is not None:
            self.inlined.add("%s.%s" % (f.module.__name__, f.name))
        self.bind_args(f, env, args, kwargs)
        if args:
            env.selfv = args[0]
        if isinstance(f.node, ast.Lambda):
            self.depth += 1
            try:
                return self.eval(f.node.body, env)
            finally:
                self.depth -= 1
        gen = has_yield(f.node)
        if gen:
            env.yields = MList(self)
        self.depth += 1
        try:
            self.exec_block(f.node.body, env)
            ret = None
        except ReturnEx as r:
            ret = r.v
        finally:
            self.depth -= 1
        if gen:
            return GenVal(env.yields.d["c"])
        return ret

    # --- statements ----------------------------------------------------------------
    def exec_block(self, stmts, env):
        for s in stmts:
            self.exec(s, env)

    def exec(self, s, env):
        m = getattr(self, "x_" + type(s).__name__, None)
        if m is None:
            raise Unsupported("statement %s" % type(s).__name__)
        m(s, env)

    def x_Expr(self, s, env):
        if isinstance(s.value, ast.Constant):
            return
        self.eval(s.value, env)

    def x_Pass(self, s, env):
        pass

    def x_Assign(self, s, env):
        v = self.eval(s.value, env)
        for t in s.targets:
            self.assign(t, v, env)

    def x_AnnAssign(self, s, env):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, env), env)

    def x_AugAssign(self, s, env):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.load_name(t.id, env)
            put = lambda v: self.assign(t, v, env)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, env)
            cur = self.getattr(o, t.attr)
            put = lambda v: self.setattr(o, t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, env)
            k = self.eval_index(t.slice, env)
            cur = self.getitem(o, k)
            put = lambda v: self.setitem(o, k, v)
        else:
            raise Unsupported("augmented assignment")
        rhs = self.eval(s.value, env)
        cur = self.resolve(cur)
        if isinstance(cur, MList) and isinstance(s.op, ast.Add):
            cur.d["c"] = tuple(cur.d["c"]) + tuple(self.iter_segs(rhs))
            put(cur)
            return
        if isinstance(cur, Stub) and hasattr(cur.model, "iop"):
            put(cur.model.iop(self, type(s.op), cur, rhs))
            return
        put(self.binop(type(s.op), cur, rhs))

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            self.store_name(t.id, v, env)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, env)
            self.setitem(o, self.eval_index(t.slice, env), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t, v, env)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, env)
        else:
            raise Unsupported("assignment target")

    def unpack(self, t, v, env):
        v = self.resolve(v)
        segs = self.norm(self.iter_segs(v))
        star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
        if star:
            k = star[0]
            after = len(t.elts) - k - 1
            n = self.rope_len(segs)
            if not self.decide(n >= k + after):
                self.py_raise(ValueError, "not enough values to unpack")
            left, rest = self.split_at(segs, k)
            mid, right = self.split_at(rest, simp(self.rope_len(rest) - after))
            for j in range(k):
                self.assign(t.elts[j], self.nth(left, j), env)
            self.assign(t.elts[k], MList(self, mid), env)
            for j in range(after):
                self.assign(t.elts[k + 1 + j], self.nth(right, j), env)
            return
        n = self.rope_len(segs)
        if not self.decide(n == len(t.elts)):
            self.py_raise(ValueError, "wrong number of values to unpack")
        for j, x in enumerate(t.elts):
            self.assign(x, self.nth(segs, j), env)

    def store_name(self, name, v, env):
        if name in env.globals_:
            self.set_global(env.module, name, v)
            return
        if name in env.nonlocals:
            e = env.parent.lookup(name)
            e.d[name] = v
            return
        env.d[name] = v

    def load_name(self, name, env):
        e = env
        if name not in env.globals_:
            e = env.lookup(name)
            if e is not None:
                v = e.d[name]
                if isinstance(v, Poison):
                    raise NeedTemplate(v.why)
                return v
            if env.func is not None and self.is_local(env, name):
                self.py_raise(UnboundLocalError, name)
        return self.get_global(env.module, name)

    def is_local(self, env, name):
        node = env.func.node
        c = getattr(node, "_locals", None)
        if c is None:
            c = assigned_names(node.body if isinstance(node.body, list) else [])
            node._locals = c
        return name in c

    def x_If(self, s, env):
        if self.truth(self.eval(s.test, env)):
            self.exec_block(s.body, env)
        else:
            self.exec_block(s.orelse, env)

    def x_Return(self, s, env):
        raise ReturnEx(self.eval(s.value, env) if s.value is not None else None)

    def x_Break(self, s, env):
        raise BreakEx()

    def x_Continue(self, s, env):
        raise ContinueEx()

    def x_Raise(self, s, env):
        if s.exc is None:
            if not self.exc_stack:
                self.py_raise(RuntimeError, "No active exception to reraise")
            raise PyRaise(self.exc_stack[-1])
        e = self.resolve(self.eval(s.exc, env))
        if isinstance(e, type) and issubclass(e, BaseException):
            e = ExcVal(e)
        if not isinstance(e, ExcVal):
            raise Unsupported("raise of %r" % (e,))
        if s.cause is not None:
            self.eval(s.cause, env)
        raise PyRaise(e)

    def x_Try(self, s, env):
        try:
            try:
                self.exec_block(s.body, env)
            except PyRaise as e:
                for h in s.handlers:
                    if h.type is None or self.exc_match(e.exc, self.eval(h.type, env)):
                        if h.name:
                            env.d[h.name] = e.exc
                        self.exc_stack.append(e.exc)
                        try:
                            self.exec_block(h.body, env)
                        finally:
                            self.exc_stack.pop()
                        break
                else:
                    raise
            else:
                self.exec_block(s.orelse, env)
        except (PyRaise, ReturnEx, BreakEx, ContinueEx):
            self.exec_block(s.finalbody, env)
            raise
        else:
            self.exec_block(s.finalbody, env)

    def exc_match(self, exc, cls):
        cls = self.resolve(cls)
        if isinstance(cls, tuple):
            return any(self.exc_match(exc, c) for c in cls)
        if isinstance(exc.cls, SV):
            # an unknown exception: never SystemExit and the like
            if cls in (Exception, BaseException):
                return True
            return self.decide(self.app("exc_isa_" + cls.__name__, [exc.cls], "bool").t)
        return issubclass(exc.cls, cls)

    def x_With(self, s, env):
        self.with_items(s.items, s.body, env)

    def with_items(self, items, body, env):
        if not items:
            return self.exec_block(body, env)
        it = items[0]
        cm = self.resolve(self.eval(it.context_expr, env))
        if not isinstance(cm, Stub) or not hasattr(cm.model, "enter"):
            raise Unsupported("context manager %r" % (cm,))
        v = cm.model.enter(self, cm)
        if it.optional_vars is not None:
            self.assign(it.optional_vars, v, env)
        try:
            self.with_items(items[1:], body, env)
        except PyRaise as e:
            cm.model.exit(self, cm, e.exc)
            raise
        except (ReturnEx, BreakEx, ContinueEx):
            cm.model.exit(self, cm, None)
            raise
        else:
            cm.model.exit(self, cm, None)

    def x_FunctionDef(self, s, env):
        f = Func(
            s,
            env.module,
            env,
            s.name,
            tuple(self.eval(d, env) for d in s.args.defaults),
            {
                a.arg: self.eval(d, env)
                for a, d in zip(s.args.kwonlyargs, s.args.kw_defaults)
                if d is not None
            },
        )
        if s.decorator_list:
            raise Unsupported("decorator")
        self.store_name(s.name, f, env)

    def x_ClassDef(self, s, env):
        bases = [self.resolve(self.eval(b, env)) for b in s.bases]
        c = DynClass(self, s.name, bases)
        sub = Env(self, env.module, env)
        for st in s.body:
            self.exec(st, sub)
        for k, v in sub.d.items():
            c.d[k] = v
        self.store_name(s.name, c, env)

    def x_Import(self, s, env):
        import importlib

        for a in s.names:
            m = importlib.import_module(a.name)
            self.store_name(a.asname or a.name.split(".")[0], m, env)

    def x_ImportFrom(self, s, env):
        import importlib

        pkg = env.module.__package__
        name = "." * s.level + (s.module or "")
        m = importlib.import_module(name, pkg) if s.level else importlib.import_module(s.module)
        for a in s.names:
            if not hasattr(m, a.name):
                self.store_name(a.asname or a.name, importlib.import_module(m.__name__ + "." + a.name), env)
            elif m.__name__.split(".")[0] == PKG:
                self.store_name(a.asname or a.name, self.get_global(m, a.name), env)
            else:
                self.store_name(a.asname or a.name, self.wrap_lib(getattr(m, a.name)), env)

    def x_Global(self, s, env):
        env.globals_.update(s.names)

    def x_Nonlocal(self, s, env):
        env.nonlocals.update(s.names)

    def x_Delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Name):
                if t.id not in env.d:
                    self.py_raise(UnboundLocalError, t.id)
                del env.d[t.id]
            elif isinstance(t, ast.Subscript):
                o = self.resolve(self.eval(t.value, env))
                self.delitem(o, self.eval_index(t.slice, env))
            elif isinstance(t, ast.Attribute):
                o = self.resolve(self.eval(t.value, env))
                if t.attr not in o.d:
                    self.py_raise(AttributeError, t.attr)
                del o.d[t.attr]
            else:
                raise Unsupported("del")

    def x_Assert(self, s, env):
        if not self.truth(self.eval(s.test, env)):
            self.py_raise(AssertionError)

    # --- loops ----------------------------------------------------------------------
    def x_For(self, s, env):
        it = self.eval(s.iter, env)
        self.run_for(
            s,
            it,
            lambda v: self.assign(s.target, v, env),
            lambda: self.exec_block(s.body, env),
            lambda: self.exec_block(s.orelse, env),
            env,
        )

    def run_for(self, node, it, bind, body, orelse, env):
        it = self.resolve(it)
        src = [it] if isinstance(it, MList) else list(getattr(it, "src", ()))
        if isinstance(it, Stub) and hasattr(it.model, "iter"):
            it = it.model.iter(self, it)
        segs = self.norm(self.iter_segs(it))
        if isinstance(it, MList) and all(isinstance(s, Item) for s in segs):
            # live iteration
            k = 0
            try:
                while True:
                    cur = self.norm(it.d["c"])
                    if k >= len(cur):
                        break
                    if not isinstance(cur[k], Item):
                        raise Unsupported("list changed while iterated")
                    bind(cur[k].v)
                    k += 1
                    if k > 200:
                        raise Unsupported("loop too long")
                    try:
                        body()
                    except ContinueEx:
                        pass
            except BreakEx:
                return
            orelse()
            return
        try:
            for j, sg in enumerate(segs):
                if isinstance(sg, Item):
                    bind(sg.v)
                    try:
                        body()
                    except ContinueEx:
                        pass
                else:
                    self.loop_cut(node, j, sg, bind, body, env, src)
        except BreakEx:
            return
        orelse()

    def x_While(self, s, env):
        def cond():
            return self.truth(self.eval(s.test, env))

        body = lambda: self.exec_block(s.body, env)
        if self.bound is not None or not self.cut_while(s):
            try:
                for k in range(self.while_unroll + 1):
                    if not cond():
                        self.exec_block(s.orelse, env)
                        return
                    if k == self.while_unroll:
                        self.notes.add("while loop at line %d unrolled %d times" % (s.lineno, k))
                        if self.bound is None:
                            raise Unsupported("while loop not unrolled completely")
                        raise PathEnd()
                    try:
                        body()
                    except ContinueEx:
                        pass
            except BreakEx:
                return
            return
        try:
            self.loop_cut(s, 0, None, None, body, env, (), cond)
        except BreakEx:
            return
        self.exec_block(s.orelse, env)

    # set by harnesses in which every while loop ends after a few iterations:
    # then they are executed (and not proved when they do not end)
    unroll_whiles = False

    def cut_while(self, s):
        return not self.unroll_whiles

    # The rule for loops over a symbolic range: at the head of iteration i the
    # changed locations have the values of their templates (inferred, or
    # proposed by the contract); the body is explored for a generic i, the
    # templates are shown to hold initially (by construction or obligation)
    # and to be preserved, and the loop is left either exhausted or from the
    # abnormal paths of a generic iteration.
    def loop_cut(self, node, ordinal, seg, bind, body, env, src, cond=None):
        key = (getattr(env.module, "__name__", ""), node.lineno, node.col_offset, ordinal)
        i = self.fresh_t("i", INT)
        self.mark_index(i)
        n = I(seg.n) if seg is not None else None
        snap = self.save()
        entry = {}
        for c in self.cells:
            entry[c.serial] = dict(c.d)
        entry_cells = {c.serial: c for c in self.cells}
        tmpl = {}
        attempts = {}
        keep_obls = self.obls
        if self.feasible(n > 0 if n is not None else z3.BoolVal(True)) is False:
            return
        final = None
        fresh0 = dict(self.fresh_c)
        # proposals to start with, before knowing what changes
        for cd in self.cands:
            if self.loop_stack or not getattr(cd, "eager", False):
                continue
            for ser, c in entry_cells.items():
                for k, e0 in entry[ser].items():
                    if (ser, k) not in tmpl:
                        tp = self.try_cand(cd, c, k, e0, i)
                        if tp is not None and not (isinstance(e0, Cell) and self.holders(e0) != 1):
                            tmpl[(ser, k)] = tp
                            attempts[(ser, k)] = [1, []]
        rnd, aborts = 0, 0
        while rnd < 14 and aborts < 60:
            rnd += 1
            failed, effects = {}, []
            self.obls = []

            def one():
                self.assume(i >= 0)
                if n is not None:
                    self.assume(i < n)
                self.ixctx.append(i)
                self.loop_stack.append((key, i))
                for (ser, k), tp in tmpl.items():
                    entry_cells[ser].d[k] = tp.at(self, i)
                head = {ser: dict(c.d) for ser, c in entry_cells.items()}
                try:
                    try:
                        if cond is not None and not cond():
                            return ("exit", None)
                        if seg is not None:
                            v = seg.fn(i)
                            if isinstance(seg, FMap):
                                items = self.resolve(v)
                                self.fcount_step(seg, i, len(items))
                                for it in items:
                                    bind(it)
                                    body()
                            else:
                                bind(v)
                                body()
                        else:
                            body()
                    except ContinueEx:
                        pass
                finally:
                    self.ixctx.pop()
                    self.loop_stack.pop()
                # normal end of the body
                changed = []
                for ser, c in entry_cells.items():
                    hd = head[ser]
                    for k in set(c.d) | set(hd):
                        a, b = hd.get(k, MISSING), c.d.get(k, MISSING)
                        if a is b or same_val(a, b):
                            if (ser, k) in tmpl and not tmpl[(ser, k)].lazy:
                                pass
                            else:
                                continue
                        changed.append((ser, k, a, b))
                eff = {(ser, k): (a, b) for ser, k, a, b in changed}
                # templated locations that did not change still have to match
                for loc in tmpl:
                    if loc not in eff:
                        c = entry_cells[loc[0]]
                        eff[loc] = (head[loc[0]].get(loc[1], MISSING), c.d.get(loc[1], MISSING))
                self.loop_stack.append((key, i))
                try:
                    for loc, (a, b) in eff.items():
                        tp = tmpl.get(loc)
                        if tp is None or tp.lazy:
                            continue
                        self.ixctx.append(i)
                        try:
                            ok, res = self.holds(
                                lambda: self.check_loc(b, tp.at(self, simp(i + 1)), "loop invariant %s" % loc_name(entry_cells, loc))
                            )
                            if isinstance(b, Cell) and isinstance(tp, TGhost) and isinstance(entry_cells[loc[0]], Env) and not getattr(getattr(b, "model", None), "immutable", False) and self.holders(b) != 1:
                                raise Unsupported("%s is known by several names in a loop" % (loc[1],))
                        finally:
                            self.ixctx.pop()
                        if not ok:
                            failed[loc] = res
                            if loc in attempts and len(attempts[loc]) > 1 and attempts[loc][1]:
                                # try the next proposal of the contract
                                raise RoundAbort(loc)
                        else:
                            self.obls.extend(res)
                finally:
                    self.loop_stack.pop()
                return ("end", eff)

            self.fresh_c = dict(fresh0)
            try:
                outs = self.explore(one)
            except RoundAbort as ab:
                loc = ab.args[0]
                aborts += 1
                rnd -= 1
                att = attempts[loc]
                cell = entry_cells[loc[0]]
                tmpl.pop(loc)
                while att[1]:
                    tp = self.try_cand(att[1].pop(0), cell, loc[1], entry[loc[0]].get(loc[1], MISSING), i)
                    if tp is not None:
                        tmpl[loc] = tp
                        break
                continue
            normal = [(c, o[1][1], st) for c, o, st in outs if o[0] == "normal" and o[1][0] == "end"]
            exits = [(c, o, st) for c, o, st in outs if o[0] == "normal" and o[1][0] == "exit"]
            abn = [(c, o, st) for c, o, st in outs if o[0] != "normal"]
            # locations changed on some path without a template
            todo = {}
            for _, eff, _ in normal:
                for loc in eff:
                    if loc not in tmpl or loc in failed:
                        todo[loc] = True
            if not todo:
                final = (normal, exits, abn)
                break
            for loc in todo:
                tmpl[loc] = self.next_template(key, loc, entry_cells, entry, normal, i, n, attempts, failed, src)
        if final is None:
            self.obls = keep_obls
            raise Unsupported("no loop invariant found at line %d" % node.lineno)
        normal, exits, abn = final
        if not self.quiet:
            keep_obls.extend(self.obls)
            self.covered.setdefault("loops", set()).add(key)
        self.obls = keep_obls
        for loc, tp in tmpl.items():
            if isinstance(tp, TPoint) or entry_cells[loc[0]] not in src:
                continue
            raise Unsupported("list changed while iterated")
        if self.merge_raises:
            abn = self.merge_abnormal(abn, i)
        # facts about completed iterations
        conds = [z3.And(*c[(2 if n is not None else 1):]) if len(c) > (2 if n is not None else 1) else z3.BoolVal(True) for c, _, _ in normal]
        N = z3.simplify(z3.Or(*conds)) if conds else z3.BoolVal(False)
        outsx = [("exh", None)] if n is not None else []
        outsx += [("exit", x) for x in exits] + [("abn", x) for x in abn]
        if not outsx:
            raise PathEnd()
        pick = outsx[self.choose(len(outsx))]
        self.restore(snap)
        q = z3.Int("q!%d" % next(_ctr))

        def done_upto(limit):
            if z3.is_true(N):
                return
            body_ = z3.substitute(N, (i, q))
            self.assume(forall_lt(q, limit, body_))

        if pick[0] == "exh":
            self.assume(n >= 0)
            for (ser, k), tp in tmpl.items():
                entry_cells[ser].d[k] = tp.at(self, n)
            done_upto(n)
            if not self.feasible(z3.BoolVal(True)):
                raise PathEnd()
            return
        c, o, st = pick[1]
        self.adopt(st)
        self.assume(i >= 0)
        for x in c:
            self.assume(x)
        done_upto(i)
        if not self.feasible(z3.BoolVal(True)):
            raise PathEnd()
        if pick[0] == "exit":
            return
        if o[0] == "break":
            raise BreakEx()
        if o[0] == "return":
            raise ReturnEx(o[1])
        raise PyRaise(o[1])

    # set by harnesses with many ways of raising the same exception: the paths
    # are then followed together, nothing being known of what differs
    merge_raises = False

    def merge_abnormal(self, abn, i):
        groups, out = {}, []
        for c, o, st in abn:
            if o[0] != "raise" or not isinstance(o[1], ExcVal):
                out.append((c, o, st))
                continue
            cls = o[1].cls
            k = ("t", str(cls.t)) if isinstance(cls, SV) else ("c", id(cls))
            groups.setdefault(k, []).append((c, o, st))
        for g in groups.values():
            if len(g) == 1:
                out.append(g[0])
                continue
            c0, o0, st0 = g[0]
            others = [{cell.serial: d for cell, d in st} for _, _, st in g[1:]]
            st = []
            for cell, d in st0:
                d = dict(d)
                for x in others:
                    e = x.get(cell.serial)
                    if e is None:
                        continue
                    for k in set(d) | set(e):
                        a, b = d.get(k, MISSING), e.get(k, MISSING)
                        if a is not b and not same_val(a, b):
                            d[k] = Poison(("hard", "merged"))
                st.append((cell, d))
            args = o0[1].args
            for _, o, _ in g[1:]:
                if not same_val(tuple(args), tuple(o[1].args)):
                    args = (Poison(("hard", "merged")),)
            out.append(([z3.Or(*[z3.And(*c) for c, _, _ in g])], (o0[0], ExcVal(o0[1].cls, args)) + tuple(o0[2:]), st))
        return out

    def holders(self, cell):
        """The number of places that refer to a list or dict."""
        n = 0
        todo = [v for c in self.cells for v in c.d.values()]
        while todo:
            v = todo.pop()
            if v is cell:
                n += 1
            elif isinstance(v, (tuple, list)):
                todo.extend(v)
            elif isinstance(v, Item):
                todo.append(v.v)
            elif isinstance(v, (Map, FMap)):
                todo.append(v.fn.body)
            elif isinstance(v, Choice):
                todo.extend(x for _, x in v.alts)
        return n

    def fcount_step(self, seg, i, k):
        """The count of a filter grows by what the filter keeps."""
        try:
            a, b = self.fcount(FMap(i, seg.fn)), self.fcount(FMap(simp(i + 1), seg.fn))
        except Unsupported:
            return
        self.assume(b == a + k)
        z = self.fcount(FMap(z3.IntVal(0), seg.fn))
        self.assume(z == 0)

    def adopt(self, st):
        self.cells = [c for c, _ in st]
        for c, d in st:
            c.d = dict(d)

    def check_loc(self, actual, expected, label):
        if actual is MISSING or expected is MISSING:
            if actual is not expected:
                self.fail(label, "missing")
            return
        if isinstance(expected, SegsVal) or is_segs(actual):
            return self.prove_segs_eq(actual, expected, label)
        if is_dictc(actual):
            a, b = MDict(self), MDict(self)
            a.d["c"], b.d["c"] = actual, expected
            return self.prove_dict_eq(a, b, label)
        return self._prove_eq(actual, expected, label)

    def next_template(self, key, loc, cells, entry, normal, i, n, attempts, failed, src):
        ser, k = loc
        cell = cells[ser]
        e0 = entry[ser].get(k, MISSING)
        self.cand_n = n
        att = attempts.setdefault(loc, [0])
        att[0] += 1
        name = k if isinstance(cell, Env) else None
        # 1. proposals of the contract
        if att[0] == 1:
            att.append(list(self.cands))
            for cd in list(self.cands):
                att[1].remove(cd)
                tp = self.try_cand(cd, cell, k, e0, i)
                if tp is not None:
                    return tp
        elif att[1]:
            for cd in list(att[1]):
                att[1].remove(cd)
                tp = self.try_cand(cd, cell, k, e0, i)
                if tp is not None:
                    return tp
        step = att.__len__() > 2 and att[2] or 0
        if len(att) == 2:
            att.append(0)
        att[2] += 1
        step = att[2]
        lazy_key = (key, type(cell).__name__, str(k))
        effs = []
        for c, eff, st in normal:
            a, b = eff.get(loc, (None, None))
            if loc not in eff:
                b = self.head_of(st, ser, k)
                a = b
            effs.append((z3.And(*c[(2 if n is not None else 1):]) if len(c) > (2 if n is not None else 1) else z3.BoolVal(True), a, b))
        if isinstance(cell, Env) and lazy_key not in self.live:
            return TPoison(lazy_key)
        if step > 4:
            k0 = self.kind(e0) if e0 is not MISSING else None
            if k0:
                return THavoc(self, k0)
            return TPoison(lazy_key, hard=True)
        if is_segs(e0) and isinstance(cell, MList):
            return self.guess_list(cell, e0, effs, i, n, lazy_key)
        if is_dictc(e0) and isinstance(cell, MDict):
            return self.guess_dict(cell, e0, effs, i, n, lazy_key)
        if self.kind(e0) == "int" and step == 1:
            diffs = set()
            for c, a, b in effs:
                if self.kind(b) != "int" or self.kind(a) != "int":
                    diffs.add(None)
                    continue
                d = simp(I(b) - I(a))
                diffs.add(d.as_long() if z3.is_int_value(d) else None)
            if len(diffs) == 1 and None not in diffs:
                return TCounter(e0, diffs.pop())
        if any(isinstance(b, Poison) or b is MISSING for _, _, b in effs):
            return TPoison(lazy_key, hard=True)
        return TLast(e0, Fn(i, mk_choice([(c, b) for c, a, b in effs])))

    def head_of(self, st, ser, k):
        for c, d in st:
            if c.serial == ser:
                return d.get(k, MISSING)
        return MISSING

    def try_cand(self, cd, cell, k, e0, i):
        name = str(k) if isinstance(cell, Env) else None
        if e0 is MISSING:
            return None
        if hasattr(cd, "factory"):
            # chooses the proposal from where the loop is
            fn = cd.factory(self, cell, k, e0)
            if fn is None:
                return None
            if isinstance(fn, Template):
                return fn
            tp = TGhost(lambda E, t, *a: fn(E, t), e0, cell, k)
        else:
            tp = TGhost(cd, e0, cell, k)
        try:
            v0 = tp.at(self, z3.IntVal(0))
            if v0 is None:
                return None
            ok, res = self.holds(lambda: self.check_loc(e0, v0, "loop invariant holds initially"))
        except Unsupported:
            return None
        except PyRaise:
            return None
        if not ok:
            return None
        return tp

    def guess_list(self, cell, e0, effs, i, n, lazy_key):
        items = []
        for c, a, b in effs:
            if not is_segs(b):
                return TPoison(lazy_key, hard=True)
            if len(b) >= len(a) and all(x is y for x, y in zip(a, b)):
                rest = b[len(a) :]
                if all(isinstance(s, Item) for s in rest):
                    items.append((c, tuple(s.v for s in rest)))
                    continue
                items = None
                break
            items = None
            break
        if items is not None:
            return TAppend(e0, i, items)
        # pointwise: same length, element i replaced
        vals = []
        for c, a, b in effs:
            if b is a or (len(a) == len(b) and all(x is y for x, y in zip(a, b))):
                vals.append((c, None))
                continue
            # expect  left ++ [v] ++ right with left of length i
            hit = None
            for j, s in enumerate(b):
                if isinstance(s, Item) and not any(s is x for x in a):
                    hit = s.v
            if hit is None:
                return TPoison(lazy_key, hard=True)
            vals.append((c, hit))
        return TPoint(self, e0, i, vals)

    def guess_dict(self, cell, e0, effs, i, n, lazy_key):
        puts = []
        for c, a, b in effs:
            if not is_dictc(b) or b[0] is not a[0]:
                return TPoison(lazy_key, hard=True)
            na, nb = a[1], b[1]
            if len(nb) >= len(na) and nb[len(nb) - len(na) :] == na:
                new = nb[: len(nb) - len(na)]
                puts.append((c, tuple(reversed(new))))
            else:
                return TPoison(lazy_key, hard=True)
        return TDict(self, e0, i, puts)

    # --- comprehensions --------------------------------------------------------------
    def comp(self, node, env, emit):
        scope = Env(self, env.module, env, None)
        scope.cls, scope.selfv = env.cls, env.selfv
        scope.func = None

        def level(k):
            if k == len(node.generators):
                emit(scope)
                return
            g = node.generators[k]
            it = self.eval(g.iter, env if k == 0 else scope)

            def body():
                for c in g.ifs:
                    if not self.truth(self.eval(c, scope)):
                        return
                level(k + 1)

            self.run_for(
                g.target, it, lambda v: self.assign(g.target, v, scope), body, lambda: None, scope
            )

        level(0)

    def e_ListComp(self, n, env):
        acc = MList(self)

        def emit(sc):
            v = self.eval(n.elt, sc)
            acc.d["c"] = acc.d["c"] + (Item(v),)

        self.comp(n, env, emit)
        return acc

    def e_GeneratorExp(self, n, env):
        return GenVal(self.e_ListComp(n, env).d["c"])

    def e_SetComp(self, n, env):
        return SetVal(self.e_ListComp(n, env).d["c"])

    def e_DictComp(self, n, env):
        acc = MDict(self)

        def emit(sc):
            k = self.eval(n.key, sc)
            v = self.eval(n.value, sc)
            self.dict_set_raw(acc, k, v)

        self.comp(n, env, emit)
        return acc

    def dict_set_raw(self, d, k, v):
        if self.ixctx and d.d["c"][0] is None and not self.bound:
            base, ov = d.d["c"]
            d.d["c"] = (base, ((self.resolve(k), v),) + tuple(ov))
        else:
            self.dict_set(d, k, v)

    # --- expressions ---------------------------------------------------------------
    def eval(self, n, env):
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            raise Unsupported("expression %s" % type(n).__name__)
        return m(n, env)

    def e_Constant(self, n, env):
        return n.value

    def e_Name(self, n, env):
        return self.load_name(n.id, env)

    def e_Attribute(self, n, env):
        return self.getattr(self.eval(n.value, env), n.attr)

    def e_NamedExpr(self, n, env):
        v = self.eval(n.value, env)
        e = env
        while e.func is None and e.parent is not None:
            e = e.parent
        self.store_name(n.target.id, v, e)
        return v

    def elts(self, elts, env):
        segs = []
        for x in elts:
            if isinstance(x, ast.Starred):
                segs.extend(self.iter_segs(self.eval(x.value, env)))
            else:
                segs.append(Item(self.eval(x, env)))
        return segs

    def e_Tuple(self, n, env):
        return self.mk_tuple(self.elts(n.elts, env))

    def e_List(self, n, env):
        return MList(self, self.elts(n.elts, env))

    def e_Set(self, n, env):
        return SetVal(tuple(self.elts(n.elts, env)))

    def e_Dict(self, n, env):
        d = MDict(self)
        for k, v in zip(n.keys, n.values):
            if k is None:
                o = self.resolve(self.eval(v, env))
                base, ov = o.d["c"] if isinstance(o, MDict) else o.base.d["c"]
                if base is not None:
                    if d.d["c"] != (None, ()):
                        raise Unsupported("dict display")
                    d.d["c"] = (base, ov)
                else:
                    for kk, vv in dict_items(self, ov):
                        self.dict_set(d, kk, vv)
            else:
                kk = self.eval(k, env)
                self.dict_set(d, kk, self.eval(v, env))
        return d

    def e_Lambda(self, n, env):
        return Func(n, env.module, env, "<lambda>", tuple(self.eval(d, env) for d in n.args.defaults))

    def e_IfExp(self, n, env):
        return self.eval(n.body if self.truth(self.eval(n.test, env)) else n.orelse, env)

    def e_BoolOp(self, n, env):
        isand = isinstance(n.op, ast.And)
        v = None
        for k, x in enumerate(n.values):
            v = self.eval(x, env)
            if k == len(n.values) - 1:
                return v
            if self.truth(v) != isand:
                return v
        return v

    def e_UnaryOp(self, n, env):
        v = self.resolve(self.eval(n.operand, env))
        if isinstance(v, Stub) and hasattr(v.model, "unop"):
            return v.model.unop(self, type(n.op), v)
        if isinstance(n.op, ast.Not):
            if isinstance(v, SV) and v.k == "bool":
                return self.b(z3.Not(v.t))
            return not self.truth(v)
        if isinstance(n.op, ast.USub):
            return SV(-v.t, "int") if isinstance(v, SV) else -v
        if isinstance(n.op, ast.UAdd):
            return v
        raise Unsupported("unary operator")

    def e_BinOp(self, n, env):
        a = self.eval(n.left, env)
        return self.binop(type(n.op), a, self.eval(n.right, env))

    def binop(self, op, a, b):
        a, b = self.resolve(a), self.resolve(b)
        if op is ast.Mod and (self.kind(a) == "str"):
            return self.app("fmt%", [a, b], "str")
        if isinstance(a, SObj) and isinstance(a.base, (str, SV)):
            a = a.base
        if isinstance(b, SObj) and isinstance(b.base, (str, SV)):
            b = b.base
        ka, kb = self.kind(a), self.kind(b)
        if isinstance(a, SV) or isinstance(b, SV):
            if ka == "obj" or kb == "obj":
                sk = self.seq_kind(a) or self.seq_kind(b)
                for x in (a, b):
                    if isinstance(x, SV) and x.k == "obj":
                        want = (kb if x is a else ka)
                        if want == "str" and self.decide(U.is_ustr(x.t)):
                            y = SV(U.s(x.t), "str")
                            return self.binop(op, y if x is a else a, y if x is b else b)
                f = self.models.get("objbin")
                if f:
                    return f[1](self, op, a, b)
                raise Unsupported("operator on an opaque object")
            if ka in ("int", "bool") and kb in ("int", "bool"):
                x = z3.If(self.lift(a), 1, 0) if ka == "bool" else self.lift(a)
                y = z3.If(self.lift(b), 1, 0) if kb == "bool" else self.lift(b)
                if op is ast.Add:
                    return self.lower(SV(x + y, "int"))
                if op is ast.Sub:
                    return self.lower(SV(x - y, "int"))
                if op is ast.Mult:
                    return self.lower(SV(x * y, "int"))
                if ka == kb == "bool" and op in (ast.BitAnd, ast.BitOr):
                    f = z3.And if op is ast.BitAnd else z3.Or
                    return self.b(f(self.lift(a), self.lift(b)))
                raise Unsupported("integer operator")
            if ka == "str" and kb == "str" and op is ast.Add:
                return self.lower(SV(z3.Concat(self.lift(a), self.lift(b)), "str"))
            if op is ast.Mult and (ka == "str" or kb == "str"):
                return self.app("strmul", [a, b], "str")
            if ka and kb and op is ast.Add:
                self.py_raise(TypeError, "unsupported operand types")
        sa, sb = self.seq_kind(a), self.seq_kind(b)
        if sa and sb and op is ast.Add:
            if sa != sb:
                self.py_raise(TypeError, "can only concatenate")
            segs = tuple(self.segs_of(a)) + tuple(self.segs_of(b))
            return MList(self, segs) if sa == "list" else self.mk_tuple(segs)
        if op is ast.Mult and (sa or sb):
            s, k = (a, b) if sa else (b, a)
            segs = self.norm(self.segs_of(s))
            if isinstance(k, int) and not isinstance(k, bool):
                out = tuple(segs) * max(k, 0)
            elif isinstance(k, SV) and len(segs) == 1 and isinstance(segs[0], Item):
                p = z3.Int("mp!%d" % next(_ctr))
                if self.decide(k.t <= 0):
                    out = ()
                else:
                    out = (Map(k.t, Fn(p, segs[0].v)),)
            else:
                raise Unsupported("repetition")
            return MList(self, out) if (sa or sb) == "list" else self.mk_tuple(out)
        if sa or sb:
            if (sa and not kb and b is None) or (sb and a is None) or op is ast.Add:
                self.py_raise(TypeError, "unsupported operand types")
        for o, x, y in ((a, a, b), (b, b, a)):
            if isinstance(o, (Stub, SObj, DynClass)) or (isinstance(o, type) and op is ast.Mult):
                f = self.models.get("binop")
                if f:
                    return f[1](self, op, a, b)
        if isinstance(a, Stub) and hasattr(a.model, "binop"):
            return a.model.binop(self, op, a, b)
        if isinstance(b, Stub) and hasattr(b.model, "binop"):
            return b.model.binop(self, op, a, b)
        if isinstance(a, (int, float, str)) and isinstance(b, (int, float, str)):
            import operator

            f = {
                ast.Add: operator.add,
                ast.Sub: operator.sub,
                ast.Mult: operator.mul,
                ast.Div: operator.truediv,
                ast.FloorDiv: operator.floordiv,
                ast.Mod: operator.mod,
                ast.Pow: operator.pow,
                ast.BitAnd: operator.and_,
                ast.BitOr: operator.or_,
                ast.BitXor: operator.xor,
                ast.LShift: operator.lshift,
                ast.RShift: operator.rshift,
            }[op]
            try:
                return f(a, b)
            except Exception as e:
                self.py_raise(type(e), str(e))
        if a is None or b is None:
            self.py_raise(TypeError, "unsupported operand types")
        if (isinstance(a, type) or isinstance(b, type)) and self.models.get("objbin"):
            return self.models["objbin"][1](self, op, a, b)
        if isinstance(a, SetVal) and isinstance(b, SetVal) and op is ast.BitOr:
            return SetVal(a.segs + b.segs)
        raise Unsupported("operator %s on %r and %r" % (op.__name__, a, b))

    def e_Compare(self, n, env):
        left = self.eval(n.left, env)
        res = None
        for k, (op, r) in enumerate(zip(n.ops, n.comparators)):
            right = self.eval(r, env)
            res = self.compare(type(op), left, right)
            if k == len(n.ops) - 1:
                return res
            if not self.truth(res):
                return False
            left = right
        return res

    def neg(self, v):
        if isinstance(v, SV):
            return self.b(z3.Not(v.t))
        return not v

    def compare(self, op, a, b):
        if op is ast.Eq:
            return self.py_eq(a, b)
        if op is ast.NotEq:
            ra = self.resolve(a)
            if isinstance(ra, SObj):
                m = self.find_attr(ra.cls, "__ne__")
                if m and m[0] == "func":
                    return self.call(Bound(m[1], ra), [b], {})
            return self.neg(self.py_eq(ra, b))
        if op is ast.Is:
            return self.is_(a, b)
        if op is ast.IsNot:
            return self.neg(self.is_(a, b))
        if op is ast.In:
            return self.contains(b, a)
        if op is ast.NotIn:
            return self.neg(self.contains(b, a))
        a, b = self.resolve(a), self.resolve(b)
        if self.kind(a) in ("int", "bool") and self.kind(b) in ("int", "bool"):
            x, y = I(a), I(b)
            if isinstance(a, SV) and a.k == "bool":
                x = z3.If(x, 1, 0)
            if isinstance(b, SV) and b.k == "bool":
                y = z3.If(y, 1, 0)
            t = {ast.Lt: x < y, ast.LtE: x <= y, ast.Gt: x > y, ast.GtE: x >= y}[op]
            return self.b(t)
        if isinstance(a, SV) and isinstance(b, SV) and a.k == b.k == "obj":
            nm = {ast.Lt: "olt", ast.LtE: "ole", ast.Gt: "olt", ast.GtE: "ole"}[op]
            x, y = (a, b) if op in (ast.Lt, ast.LtE) else (b, a)
            f = z3.Function("oless", U, U, BOOL)
            if op in (ast.Lt, ast.Gt):
                return self.b(f(x.t, y.t))
            return self.b(z3.Not(f(y.t, x.t)))
        if isinstance(a, (int, float, str, tuple)) and isinstance(b, (int, float, str, tuple)):
            import operator

            try:
                return {ast.Lt: operator.lt, ast.LtE: operator.le, ast.Gt: operator.gt, ast.GtE: operator.ge}[op](a, b)
            except TypeError as e:
                self.py_raise(TypeError, str(e))
        raise Unsupported("comparison of %r and %r" % (a, b))

    def is_(self, a, b):
        a, b = self.resolve(a), self.resolve(b)
        if a is b:
            return True
        if isinstance(a, SV) and a.k == "obj" or isinstance(b, SV) and b.k == "obj":
            if isinstance(a, (SObj, MList, MDict)) or isinstance(b, (SObj, MList, MDict)):
                return self.b(self.enc(a) == self.enc(b))
            return self.b(self.enc(a) == self.enc(b))
        if isinstance(a, SV) or isinstance(b, SV):
            ka, kb = self.kind(a), self.kind(b)
            if a is None or b is None or ka != kb:
                return False
            if ka == "bool":
                return self.b(self.lift(a) == self.lift(b))
            raise Unsupported("identity of scalars")
        if isinstance(a, (Stub,)) and isinstance(b, Stub):
            return self.b(self.enc(a) == self.enc(b))
        if isinstance(a, Cell) or isinstance(b, Cell):
            return a is b
        if isinstance(a, (str, int)) and type(a) is type(b):
            return a == b
        if isinstance(a, Func) and isinstance(b, Func):
            return a.node is b.node and a.env is b.env
        return a is b

    def contains(self, coll, x):
        coll = self.resolve(coll)
        if isinstance(coll, MDict) or (isinstance(coll, SObj) and isinstance(coll.base, MDict)):
            return self.dict_get(coll, x)[0]
        if isinstance(coll, KeysView):
            return self.dict_get(coll.d, x)[0]
        if isinstance(coll, Stub) and hasattr(coll.model, "contains"):
            return coll.model.contains(self, coll, x)
        k = self.kind(coll)
        if k == "str":
            x = self.resolve(x)
            if isinstance(coll, SObj):
                coll = coll.base
            if isinstance(coll, str) and isinstance(x, str):
                return x in coll
            if self.kind(x) != "str":
                self.py_raise(TypeError, "in <string> requires string")
            return self.b(z3.Contains(self.lift(coll), self.lift(x)))
        if isinstance(coll, SV) and coll.k == "obj":
            f = self.models.get("objin")
            if f:
                return f[1](self, coll, x)
        segs = self.segs_of(coll)
        if segs is None and isinstance(coll, RangeVal):
            x = self.resolve(x)
            return self.b(z3.And(I(x) >= I(coll.a), I(x) < I(coll.b)))
        if segs is None:
            raise Unsupported("membership in %r" % (coll,))
        return self.contains_segs(segs, x)

    def e_JoinedStr(self, n, env):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.resolve(self.eval(v.value, env))
                if v.format_spec is not None or v.conversion not in (-1,):
                    parts.append(self.app("fspec", [str(v.conversion), x], "str"))
                elif self.kind(x) == "str":
                    parts.append(x.base if isinstance(x, SObj) else x)
                elif isinstance(x, int) and not isinstance(x, bool):
                    parts.append(str(x))
                else:
                    parts.append(self.to_str(x))
        if all(isinstance(p, str) for p in parts):
            return "".join(parts)
        return self.lower(SV(z3.Concat(*[self.lift(p) for p in parts]) if len(parts) > 1 else self.lift(parts[0]), "str"))

    def to_str(self, x):
        x = self.resolve(x)
        if self.kind(x) == "str":
            return x.base if isinstance(x, SObj) else x
        if x is None or isinstance(x, (bool, int)):
            return str(x)
        if isinstance(x, SV) and x.k == "int":
            return self.app("str_int", [x], "str")
        if isinstance(x, SV) and x.k == "obj" and self.decide(U.is_ustr(x.t)):
            return SV(U.s(x.t), "str")
        try:
            return self.app("str_of", [x], "str")
        except Unsupported:
            return self.fresh("str", "str")

    def e_Subscript(self, n, env):
        o = self.eval(n.value, env)
        return self.getitem(o, self.eval_index(n.slice, env))

    def eval_index(self, s, env):
        if isinstance(s, ast.Slice):
            f = lambda x: None if x is None else self.eval(x, env)
            return slice(f(s.lower), f(s.upper), f(s.step))
        return self.eval(s, env)

    def getitem(self, o, k):
        o = self.resolve(o)
        if isinstance(o, MDict) or (isinstance(o, SObj) and isinstance(o.base, MDict)):
            ok, v = self.dict_get(o, k)
            if not ok:
                self.py_raise(KeyError, k)
            return v
        if isinstance(o, SObj) and not (self.seq_kind(o) or isinstance(o.base, (str, SV))):
            m = self.find_attr(o.cls, "__getitem__")
            if m and m[0] == "func":
                return self.call(Bound(m[1], o), [k], {})
        if isinstance(o, Stub):
            if hasattr(o.model, "getitem"):
                return o.model.getitem(self, o, k)
            raise Unsupported("subscript of %s" % o.model.__name__)
        segs = self.segs_of(o)
        if segs is not None:
            if isinstance(k, slice):
                r = self.slice(segs, k.start, k.stop, k.step)
                return MList(self, r) if isinstance(o, MList) else self.mk_tuple(r)
            k = self.resolve(k)
            if self.kind(k) not in ("int", "bool"):
                if isinstance(k, SV) and k.k == "obj":
                    if self.decide(U.is_uint(k.t)):
                        return self.nth(segs, SV(U.i(k.t), "int"))
                self.py_raise(TypeError, "indices must be integers")
            return self.nth(segs, k)
        if self.kind(o) == "str":
            if isinstance(o, SObj):
                o = o.base
            return self.str_index(o, k)
        if isinstance(o, SV) and o.k == "obj":
            f = self.models.get("objitem")
            if f:
                return f[1](self, o, k)
        if isinstance(o, (type, types.GenericAlias)):
            return o
        if o is None or isinstance(o, (int, bool)):
            self.py_raise(TypeError, "not subscriptable")
        raise Unsupported("subscript of %r" % (o,))

    def str_index(self, s, k):
        if isinstance(k, slice):
            lo, hi = self.resolve(k.start), self.resolve(k.stop)
            if self.resolve(k.step) not in (None, 1):
                raise Unsupported("string slice")
            if isinstance(s, str) and all(x is None or isinstance(x, int) for x in (lo, hi)):
                return s[lo:hi]
            h = self.models.get("strslice")
            if h:
                r = h[1](self, s, lo, hi)
                if r is not None:
                    return r
            t = self.lift(s)
            L = z3.Length(t)

            def pos(x, d):
                if x is None:
                    return d
                if isinstance(x, int) and x < 0:
                    return z3.If(L + x < 0, 0, L + x)
                return I(x)

            a, b = pos(lo, z3.IntVal(0)), pos(hi, L)
            return self.lower(SV(z3.SubString(t, a, z3.If(b - a < 0, 0, b - a)), "str"))
        k = self.resolve(k)
        if isinstance(s, str) and isinstance(k, int):
            try:
                return s[k]
            except IndexError:
                self.py_raise(IndexError, "string index out of range")
        t = self.lift(s)
        L = z3.Length(t)
        p = I(k)
        if self.decide(p < 0):
            p = simp(p + L)
        if not self.decide(z3.And(p >= 0, p < L)):
            self.py_raise(IndexError, "string index out of range")
        return self.lower(SV(z3.SubString(t, p, 1), "str"))

    def setitem(self, o, k, v):
        o = self.resolve(o)
        if isinstance(o, MDict) or (isinstance(o, SObj) and isinstance(o.base, MDict)):
            return self.dict_set(o, k, v)
        if isinstance(o, MList):
            if isinstance(k, slice):
                segs = o.d["c"]
                lo, hi = self.resolve(k.start), self.resolve(k.stop)
                if k.step is not None:
                    raise Unsupported("slice assignment")
                left = self.slice(segs, None, lo, None) if lo is not None else ()
                right = self.slice(segs, hi, None, None) if hi is not None else ()
                o.d["c"] = tuple(left) + tuple(self.iter_segs(v)) + tuple(right)
                return
            o.d["c"] = self.set_nth(o.d["c"], k, v)
            return
        if isinstance(o, Stub) and hasattr(o.model, "setitem"):
            return o.model.setitem(self, o, k, v)
        if isinstance(o, SObj):
            m = self.find_attr(o.cls, "__setitem__")
            if m and m[0] == "func":
                return self.call(Bound(m[1], o), [k, v], {})
        if isinstance(o, (tuple, PTuple, str)) or self.seq_kind(o) == "tuple":
            self.py_raise(TypeError, "does not support item assignment")
        raise Unsupported("item assignment on %r" % (o,))

    def delitem(self, o, k):
        if isinstance(o, MDict) or (isinstance(o, SObj) and isinstance(o.base, MDict)):
            if not self.dict_get(o, k)[0]:
                self.py_raise(KeyError, k)
            return self.dict_del(o, k)
        if isinstance(o, Stub) and hasattr(o.model, "delitem"):
            return o.model.delitem(self, o, k)
        if isinstance(o, MList):
            if isinstance(k, slice):
                return self.setitem(o, k, ())
            k = self.resolve(k)
            self.nth(o.d["c"], k)
            t = I(k)
            if self.decide(t < 0):
                t = simp(t + self.rope_len(o.d["c"]))
            l, r = self.split_at(o.d["c"], t)
            _, r = self.split_at(r, 1)
            o.d["c"] = tuple(l) + tuple(r)
            return
        raise Unsupported("del item")

    def e_Call(self, n, env):
        # super() needs the frame
        if isinstance(n.func, ast.Name) and n.func.id == "super" and env.lookup("super") is None:
            e = env
            while e.cls is None and e.parent is not None:
                e = e.parent
            if n.args:
                c = self.resolve(self.eval(n.args[0], env))
                o = self.eval(n.args[1], env)
                return SuperProxy(c, o)
            return SuperProxy(e.cls, e.selfv)
        if isinstance(n.func, ast.Name) and n.func.id in ("locals", "globals", "vars", "exec"):
            raise Unsupported(n.func.id)
        f = self.eval(n.func, env)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                segs = self.norm(self.iter_segs(self.eval(a.value, env)))
                if all(isinstance(s, Item) for s in segs):
                    args.extend(s.v for s in segs)
                else:
                    args.append(Splat(segs))
            else:
                args.append(self.eval(a, env))
        kwargs = {}
        for k in n.keywords:
            if k.arg is None:
                d = self.resolve(self.eval(k.value, env))
                if isinstance(d, SObj):
                    d = d.base
                base, ov = d.d["c"]
                if base is None:
                    for kk, vv in dict_items(self, ov):
                        kwargs[kk] = vv
                else:
                    kwargs["**"] = d
            else:
                kwargs[k.arg] = self.eval(k.value, env)
        return self.call(f, args, kwargs, n)

    def e_Yield(self, n, env):
        e = env
        while not hasattr(e, "yields"):
            e = e.parent
        v = self.eval(n.value, env) if n.value is not None else None
        e.yields.d["c"] = e.yields.d["c"] + (Item(v),)
        return None

    def e_YieldFrom(self, n, env):
        e = env
        while not hasattr(e, "yields"):
            e = e.parent
        e.yields.d["c"] = e.yields.d["c"] + tuple(self.iter_segs(self.eval(n.value, env)))
        return None

    # --- iteration ------------------------------------------------------------------
    def iter_segs(self, v):
        v = self.resolve(v)
        segs = self.segs_of(v)
        if segs is not None:
            return segs
        if isinstance(v, RangeVal):
            a, b = I(v.a), I(v.b)
            if v.step == 1:
                n = simp(z3.If(b - a < 0, 0, b - a)) if not self.ent(b - a >= 0) else simp(b - a)
                p = z3.Int("rg!%d" % next(_ctr))
                return self.norm((Map(n, Fn(p, SV(a + p, "int"))),))
            if v.step == -1:
                n = simp(z3.If(a - b < 0, 0, a - b)) if not self.ent(a - b >= 0) else simp(a - b)
                p = z3.Int("rg!%d" % next(_ctr))
                return self.norm((Map(n, Fn(p, SV(a - p, "int"))),))
            raise Unsupported("range step")
        if isinstance(v, KeysView):
            return v.segs(self)
        if isinstance(v, MDict):
            return KeysView(v, "keys").segs(self)
        if isinstance(v, SObj) and isinstance(v.base, MDict):
            return KeysView(v.base, "keys").segs(self)
        if isinstance(v, str):
            return tuple(Item(c) for c in v)
        if isinstance(v, SV) and v.k == "str":
            p = z3.Int("sc!%d" % next(_ctr))
            L = z3.Length(v.t)
            return (Map(L, Fn(p, SV(z3.SubString(v.t, p, 1), "str"))),)
        if isinstance(v, SObj):
            m = self.find_attr(v.cls, "__iter__")
            if m and m[0] == "func":
                return self.iter_segs(self.call(Bound(m[1], v), [], {}))
        if isinstance(v, Stub) and hasattr(v.model, "iter"):
            return self.iter_segs(v.model.iter(self, v))
        if isinstance(v, SV) and v.k == "obj":
            f = self.models.get("objiter")
            if f:
                return f[1](self, v)
        if v is None or isinstance(v, (int, bool)):
            self.py_raise(TypeError, "not iterable")
        raise Unsupported("iteration over %r" % (v,))


class Splat:
    """*sequence argument of symbolic length."""

    def __init__(self, segs):
        self.segs = segs


class KeysView:
    """keys(), values() or items() of a dict."""

    PICK = {
        "keys": lambda k, v: k,
        "values": lambda k, v: v,
        "items": lambda k, v: (k, v),
    }

    def __init__(self, d, what):
        self.d, self.what = d, what

    def segs(self, E):
        base, ov = self.d.d["c"]
        pick = self.PICK[self.what]
        if base is None:
            return tuple(Item(pick(k, v)) for k, v in dict_items(E, ov))
        if ov:
            raise Unsupported("iteration over a changed symbolic dict")
        if getattr(base, "fseg", None) is not None:
            # a dict built by a loop: iterate over its source
            return base.fseg(E, pick)
        if base.n is None:
            raise Unsupported("iteration over a dict of unknown order")
        # key(p) is present at position p: the facts are attached to the
        # element as a choice with a single alternative
        p = z3.Int("dk!%d" % next(_ctr))
        kt = base.key(p)
        kv = E.lower(SV(kt, base.kk))
        body = Choice([(z3.And(base.has(kt), base.pos(kt) == p), pick(kv, base.val(kt)))])
        return (Map(base.n, Fn(p, body)),)


class _Missing:
    def __repr__(self):
        return "MISSING"


MISSING = _Missing()


class RoundAbort(Exception):
    """A proposed invariant of a loop does not hold."""


class SegsVal(tuple):
    pass


def is_segs(v):
    return isinstance(v, tuple) and all(isinstance(s, (Item, Map, FMap)) for s in v)


def is_dictc(v):
    return (
        isinstance(v, tuple)
        and len(v) == 2
        and (v[0] is None or isinstance(v[0], SymDict))
        and isinstance(v[1], tuple)
    )


def same_val(a, b):
    if isinstance(a, SV) and isinstance(b, SV):
        return a.t.eq(b.t)
    if type(a) is type(b) and isinstance(a, (int, str, bool, type(None))):
        return a == b
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return all(x is y or same_val(x, y) for x, y in zip(a, b))
    return False


def assigned_names(stmts):
    out = set()
    todo = list(stmts)
    while todo:
        n = todo.pop()
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            out.add(n.name)
            continue
        if isinstance(n, (ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.SetComp)):
            continue
        if isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        todo.extend(ast.iter_child_nodes(n))
    return out


def loc_name(cells, loc):
    c = cells[loc[0]]
    if isinstance(c, Env):
        return str(loc[1])
    if isinstance(c, MList):
        for o in cells.values():
            for k, v in o.d.items():
                if v is c:
                    return "%s (list)" % (k,)
        return "list"
    return "%s.%s" % (type(c).__name__, loc[1])


def mk_choice(alts):
    if len(alts) == 1:
        return alts[0][1]
    return Choice(alts)


# --- templates of loop invariants ---------------------------------------------------


class Template:
    lazy = False


class TPoison(Template):
    """Nothing is known: fine as long as the value is not used."""

    lazy = True

    def __init__(self, key, hard=False):
        self.key = key
        self.hard = hard

    def at(self, E, t):
        return Poison(("hard", self.key) if self.hard else self.key)


class THavoc(Template):
    lazy = True

    def __init__(self, E, kind):
        self.kind = kind

    def at(self, E, t):
        E.havocked = True
        return E.fresh("havoc", self.kind)


class TAnyList(Template):
    """A list nothing is known about."""

    lazy = True

    def __init__(self, kind):
        self.kind = kind

    def at(self, E, t):
        n = E.fresh_t("any", INT)
        E.assume(n >= 0)
        f = z3.Function(E.name("any_elem"), INT, SORT[self.kind])
        q = z3.Int("e!%d" % next(_ctr))
        return (Map(n, Fn(q, SV(f(q), self.kind))),)


class TCounter(Template):
    def __init__(self, init, c):
        self.init, self.c = init, c

    def at(self, E, t):
        return E.lower(SV(simp(I(self.init) + self.c * t), "int"))


class TLast(Template):
    def __init__(self, init, fn):
        self.init, self.fn = init, fn

    def at(self, E, t):
        t = simp(t)
        if z3.is_int_value(t) and t.as_long() == 0:
            return self.init
        prev = self.fn(simp(t - 1))
        if E.ent(t > 0):
            return prev
        if self.init is MISSING:
            return Choice([(t > 0, prev), (t <= 0, Poison(("hard", "unset")))])
        return Choice([(t > 0, prev), (t <= 0, self.init)])


class TAppend(Template):
    def __init__(self, e0, i, items):
        self.e0 = e0
        lens = {len(x) for _, x in items}
        if lens == {1}:
            self.seg = lambda t: Map(t, Fn(i, mk_choice([(c, x[0]) for c, x in items])))
        else:
            self.seg = lambda t: FMap(t, Fn(i, mk_choice([(c, x) for c, x in items])))

    def at(self, E, t):
        s = self.seg(simp(t))
        return E.norm(tuple(self.e0) + (s,))


class TPoint(Template):
    def __init__(self, E, e0, i, vals):
        self.e0, self.i, self.vals = e0, i, vals

    def at(self, E, t):
        t = simp(t)
        l, r = E.split_at(self.e0, t)
        p = z3.Int("pt!%d" % next(_ctr))

        # value at p < t: what the body left there
        def val(c, v):
            if v is None:
                return c, E.nth_choice(self.e0, self.i)
            return c, v

        body = mk_choice([val(c, v) for c, v in self.vals])
        fn = Fn(self.i, body)
        return E.norm((Map(t, fn),) + tuple(r))


class TDict(Template):
    """A dict to which every iteration adds some entries."""

    def __init__(self, E, e0, i, puts):
        self.e0, self.i, self.puts = e0, i, puts

    def at(self, E, t):
        t = simp(t)
        if z3.is_int_value(t) and t.as_long() == 0:
            return self.e0
        return (built_dict(E, self.e0, self.i, self.puts, t), ())


def built_dict(E, e0, i, puts, t):
    """Dict e0 updated, for j = 0..t-1, with the (key, value) of puts at j.

    last(k) is the last j < t whose key is k (when there is one)."""
    if any(len(x) > 1 for _, x in puts):
        raise Unsupported("several dict entries per iteration")
    if e0 != (None, ()):
        raise Unsupported("dict built upon another one")
    fn = Fn(i, mk_choice([(c, x) for c, x in puts]))
    keys = [x[0][0] for _, x in puts if x]
    kinds = {E.kind(k) or "obj" for k in keys}
    kk = kinds.pop() if len(kinds) == 1 else "obj"

    def keyt(v):
        return E.lift(v) if kk in ("str", "int") else E.enc(v)

    k = z3.Const("bk!0", SORT[kk])
    iz = z3.Int("ek!0")
    hits = z3.Or(*[z3.And(c, keyt(x[0][0]) == k) for c, x in puts if x])
    hits_l = z3.Lambda([iz, k], z3.substitute(hits, (i, iz)))
    last_f = z3.Function("blast_" + kk, INT, hits_l.sort(), SORT[kk], INT)

    def hit(j, kt):
        return z3.substitute(hits, (i, j), (k, kt))

    def last(kt):
        return last_f(t, hits_l, kt)

    def facts(kt):
        L = last(kt)
        q = z3.Int("q!%d" % next(_ctr))
        E.assume(z3.And(L >= -1, L < t, z3.Implies(L >= 0, hit(L, kt))))
        E.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < t, hit(q, kt)), q <= L)))

    def has(kt):
        facts(kt)
        return last(kt) >= 0

    def val(kt):
        L = last(kt)
        alts = []
        for c, x in puts:
            if x:
                v = subst((SV(c, "bool"), x[0][1]), [(i, L)])
                alts.append((v[0].t, v[1]))
        return mk_choice(alts)

    d = SymDict(has, val, None, None, None, kk)

    def fseg(E, pick):
        # iteration in order of insertion; only for distinct keys
        def mk(x):
            return tuple(pick(a, b) for a, b in x)

        if all(len(x) == 1 for _, x in puts):
            body = mk_choice([(c, mk(x)[0]) for c, x in puts])
            seg = Map(t, Fn(i, body))
        else:
            seg = FMap(t, Fn(i, mk_choice([(c, mk(x)) for c, x in puts])))
        # keys must be distinct for the order to be this one
        a, b = z3.Int("d1!%d" % next(_ctr)), z3.Int("d2!%d" % next(_ctr))
        one = z3.Or(*[z3.And(c, kkt == k) for c, kkt in [(c, keyt(x[0][0])) for c, x in puts if x]])
        f = lambda j: z3.substitute(one, (i, j))
        goal = z3.ForAll([a, b, k], z3.Implies(z3.And(a >= 0, a < b, b < t, f(a)), z3.Not(f(b))))
        if not E.ent(goal):
            raise Unsupported("iteration over a dict with keys not known to be distinct")
        return (seg,)

    d.fseg = fseg
    return d


class TGhost(Template):
    """A value proposed by the contract as a function of the iteration."""

    def __init__(self, fn, e0, cell, k):
        self.fn, self.e0, self.cell, self.k = fn, e0, cell, k

    def at(self, E, t):
        return self.fn(E, simp(t), self.cell, self.k, self.e0)


def _nth_choice(self, segs, t):
    """Element at t without forking (a Choice over the segments)."""
    segs = self.norm(segs)
    off = z3.IntVal(0)
    alts = []
    for s in segs:
        n = self.seg_len(s)
        if isinstance(s, FMap):
            raise Unsupported("filtered sequence")
        v = s.v if isinstance(s, Item) else s.fn(simp(t - off))
        c = z3.And(t >= off, t < off + n)
        alts.append((simp(c), v))
        off = simp(off + n)
    if len(alts) == 1:
        return alts[0][1]
    return Choice(alts)


Interp.nth_choice = _nth_choice
