"""Symbolic values of the verification condition generator.

Concrete Python scalars (None, bool, int, str, classes, functions) stand for
themselves.  Everything symbolic is first order data over z3 terms, so that a
value computed for a generic loop index can be instantiated at any other index
by substitution.
"""
import itertools
import z3

O = z3.DeclareSort("Opq")
_U = z3.Datatype("U")
_U.declare("none")
_U.declare("ubool", ("b", z3.BoolSort()))
_U.declare("uint", ("i", z3.IntSort()))
_U.declare("ustr", ("s", z3.StringSort()))
_U.declare("real", ("rid", z3.IntSort()))
_U.declare("opq", ("o", O))
_U.declare("nil")
_U.declare("cons", ("hd", _U), ("tl", _U))
_U.declare("tagged", ("tag", z3.IntSort()), ("body", _U))
U = _U.create()

INT, BOOL, STR = z3.IntSort(), z3.BoolSort(), z3.StringSort()
SORT = {"int": INT, "bool": BOOL, "str": STR, "obj": U}


def kind_of_sort(s):
    for k, v in SORT.items():
        if v == s:
            return k
    raise TypeError(s)


class Unsupported(Exception):
    """The code left the subset the generator handles."""


class SV:
    """A symbolic scalar: a z3 term of kind int, bool, str or obj."""

    __slots__ = ("t", "k")

    def __init__(self, t, k=None):
        self.t = t
        self.k = k or kind_of_sort(t.sort())

    def __repr__(self):
        return "SV(%s)" % self.t


class Choice:
    """One of several values, depending on conditions one of which holds."""

    __slots__ = ("alts",)

    def __init__(self, alts):
        self.alts = alts

    def __repr__(self):
        return "Choice(%r)" % (self.alts,)


class Poison:
    """A value nothing is known about: using it is outside the subset."""

    def __init__(self, why):
        self.why = why

    def __repr__(self):
        return "Poison(%s)" % (self.why,)


class Fn:
    """A value as a function of an integer."""

    __slots__ = ("p", "body")

    def __init__(self, p, body):
        self.p = p
        self.body = body

    def __call__(self, t):
        if isinstance(t, int):
            t = z3.IntVal(t)
        return subst(self.body, [(self.p, t)])


# --- ropes: immutable sequences ------------------------------------------


class Item:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return "Item(%r)" % (self.v,)


class Map:
    """n elements, element i being fn(i)."""

    __slots__ = ("n", "fn")

    def __init__(self, n, fn):
        self.n = n
        self.fn = fn

    def __repr__(self):
        return "Map(%s,%s->%r)" % (self.n, self.fn.p, self.fn.body)


class FMap:
    """For i in 0..n-1 in turn, the elements of the tuple fn(i)."""

    __slots__ = ("n", "fn")

    def __init__(self, n, fn):
        self.n = n
        self.fn = fn

    def __repr__(self):
        return "FMap(%s,%s->%r)" % (self.n, self.fn.p, self.fn.body)


class PTuple:
    """An immutable sequence with symbolic parts."""

    __slots__ = ("segs",)

    def __init__(self, segs):
        self.segs = tuple(segs)

    def __repr__(self):
        return "PTuple(%r)" % (self.segs,)


# --- cells: everything that can change -------------------------------------


class Cell:
    """An object with identity; its whole mutable state is the dict d."""

    cls = None

    def __init__(self, E):
        self.d = {}
        self.E = E
        self.serial = E.register(self)


class MList(Cell):
    """A list; d["c"] is its tuple of segments."""

    def __init__(self, E, segs=()):
        super().__init__(E)
        self.d["c"] = tuple(segs)

    def __repr__(self):
        return "MList(%r)" % (self.d["c"],)


class SymDict:
    """Immutable symbolic content of a dict.

    has(k) is a Bool term and val(k) a value, for k of the given kind.  When
    the dict can be iterated, n is its size, key(i) the i-th key and pos(k)
    the position of a key.
    """

    def __init__(self, has, val, n=None, key=None, pos=None, kk="str", parts=()):
        self.has = has
        self.val = val
        self.n = n
        self.key = key
        self.pos = pos
        self.kk = kk


class MDict(Cell):
    """A dict: d["c"] is (base, overlay); base is None or a SymDict and
    overlay a tuple of (key, value) or (key, DELETED), the last one first."""

    def __init__(self, E, base=None, overlay=()):
        super().__init__(E)
        self.d["c"] = (base, tuple(overlay))

    def __repr__(self):
        return "MDict(%r)" % (self.d["c"],)


class _Deleted:
    def __repr__(self):
        return "DELETED"


DELETED = _Deleted()


class SObj(Cell):
    """An instance of a class of the code; base holds the content of
    instances of subclasses of tuple, str or dict."""

    def __init__(self, E, cls, attrs=None, base=None):
        super().__init__(E)
        self.cls = cls
        self.base = base
        if attrs:
            self.d.update(attrs)

    def __repr__(self):
        return "SObj(%s,%r,%r)" % (
            getattr(self.cls, "__name__", self.cls),
            self.base,
            {k: v for k, v in self.d.items() if k != "lib"},
        )


class Stub(Cell):
    """An object of a library, described by a model class (Python code of the
    contracts); data are values the model works on."""

    def __init__(self, E, model, *data, **attrs):
        super().__init__(E)
        self.model = model
        self.data = data
        self.d.update(attrs)

    def __repr__(self):
        return "Stub(%s,%r)" % (self.model, self.data)


class Func:
    """A function of the code (interpreted), with its defining environment."""

    def __init__(self, node, module, env, name, defaults=(), kwdefaults=None, cls=None, real=None):
        self.node, self.module, self.env, self.name = node, module, env, name
        self.defaults, self.kwdefaults, self.cls, self.real = (
            defaults,
            kwdefaults or {},
            cls,
            real,
        )


class Bound:
    """A bound method."""

    def __init__(self, func, self_):
        self.func, self.self_ = func, self_


class BuiltinMethod:
    def __init__(self, obj, name):
        self.obj, self.name = obj, name


class DynClass(Cell):
    """A class created by the code at run time."""

    def __init__(self, E, name, bases):
        super().__init__(E)
        self.name, self.bases = name, bases


class SuperProxy:
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class ExcVal:
    """An exception instance."""

    def __init__(self, cls, args=()):
        self.cls, self.args = cls, tuple(args)

    def __repr__(self):
        return "%s%r" % (getattr(self.cls, "__name__", self.cls), self.args)


class SetVal:
    """A concrete-shape set (immutable here), elements pairwise compared on use."""

    def __init__(self, segs):
        self.segs = tuple(segs)


class GenVal:
    """Result of a generator function or expression: its elements."""

    def __init__(self, segs):
        self.segs = tuple(segs)


class RangeVal:
    def __init__(self, a, b, step=1):
        self.a, self.b, self.step = a, b, step


# --- substitution -------------------------------------------------------------


def subst(v, pairs, memo=None):
    if memo is None:
        memo = {}
    return _subst(v, pairs, memo)


def sub_t(t, pairs):
    return z3.substitute(t, *pairs)


def _subst(v, pairs, memo):
    if isinstance(v, SV):
        t = z3.substitute(v.t, *pairs)
        return v if t.eq(v.t) else SV(t, v.k)
    if isinstance(v, z3.ExprRef):
        return z3.substitute(v, *pairs)
    if isinstance(v, tuple):
        r = tuple(_subst(x, pairs, memo) for x in v)
        return v if all(a is b for a, b in zip(r, v)) else r
    if isinstance(v, Choice):
        return Choice([(z3.substitute(c, *pairs), _subst(x, pairs, memo)) for c, x in v.alts])
    if isinstance(v, Item):
        w = _subst(v.v, pairs, memo)
        return v if w is v.v else Item(w)
    if isinstance(v, (Map, FMap)):
        n = z3.substitute(v.n, *pairs) if isinstance(v.n, z3.ExprRef) else v.n
        return type(v)(n, _subst(v.fn, pairs, memo))
    if isinstance(v, Fn):
        # the parameter is bound, but it may itself depend on outer indices
        inner = [(a, b) for a, b in pairs if not a.eq(v.p)]
        if not inner:
            return v
        if v.p.num_args() == 0:
            return Fn(v.p, _subst(v.body, inner, memo if len(inner) == len(pairs) else {}))
        p2 = z3.Int("fp!%d" % next(_ctr))
        body = _subst(v.body, [(v.p, p2)], {})
        return Fn(p2, _subst(body, inner, {}))
    if isinstance(v, PTuple):
        segs = tuple(_subst(s, pairs, memo) for s in v.segs)
        return v if all(a is b for a, b in zip(segs, v.segs)) else PTuple(segs)
    if isinstance(v, GenVal):
        return GenVal(tuple(_subst(s, pairs, memo) for s in v.segs))
    if isinstance(v, SetVal):
        return SetVal(tuple(_subst(s, pairs, memo) for s in v.segs))
    if isinstance(v, ExcVal):
        return ExcVal(v.cls, _subst(v.args, pairs, memo))
    if isinstance(v, SymDict):
        return subst_symdict(v, pairs)
    if isinstance(v, Bound):
        s2 = _subst(v.self_, pairs, memo)
        return v if s2 is v.self_ else Bound(v.func, s2)
    if isinstance(v, BuiltinMethod):
        s2 = _subst(v.obj, pairs, memo)
        return v if s2 is v.obj else BuiltinMethod(s2, v.name)
    if isinstance(v, Cell):
        if id(v) in memo:
            return memo[id(v)]
        if all(v.serial < IX_SERIAL.get(a.get_id(), 0) for a, _ in pairs):
            # it existed before the loop: a reference to it stays one
            return v
        memo[id(v)] = v
        new_d = {k: _subst(x, pairs, memo) for k, x in v.d.items()}
        base = getattr(v, "base", None)
        new_base = _subst(base, pairs, memo) if base is not None else None
        data = getattr(v, "data", None)
        new_data = _subst(data, pairs, memo) if data is not None else None
        if (
            all(new_d[k] is v.d[k] for k in new_d)
            and new_base is base
            and new_data is data
        ):
            return v
        w = object.__new__(type(v))
        w.__dict__.update(v.__dict__)
        w.d = new_d
        if base is not None:
            w.base = new_base
        if data is not None:
            w.data = new_data
        w.serial = v.E.register(w)
        memo[id(v)] = w
        return w
    if type(v) is dict:
        r = {k: _subst(x, pairs, memo) for k, x in v.items()}
        return v if all(r[k] is v[k] for k in v) else r
    if type(v) in (list, set):
        raise TypeError("a value must not hold a Python %s" % type(v).__name__)
    return v


def subst_symdict(v, pairs):
    def wrap(f):
        if f is None:
            return None
        return lambda k, f=f: subst(f(k), pairs)

    n = z3.substitute(v.n, *pairs) if isinstance(v.n, z3.ExprRef) else v.n
    # keys given to the functions must not be affected: indices occurring in
    # the key are protected by going through a fresh variable
    def protect(f, sort):
        if f is None:
            return None

        def g(k):
            x = z3.Const("sk!%d" % next(_ctr), k.sort() if isinstance(k, z3.ExprRef) else sort)
            r = subst(f(x), pairs)
            return subst(r, [(x, k)])

        return g

    return SymDict(
        protect(v.has, SORT[v.kk]),
        protect(v.val, SORT[v.kk]),
        n,
        protect(v.key, INT),
        protect(v.pos, SORT[v.kk]),
        v.kk,
    )


class _Counter:
    """Numbers for bound variables; reset on replay like fresh names."""

    def __init__(self):
        self.n = 0

    def __next__(self):
        self.n += 1
        return self.n


_ctr = _Counter()

#: number of the first cell created after a loop index (by term id)
IX_SERIAL = {}
IX_KEEP = []

REAL_IDS = {}
REAL_OBJS = []


def real_id(obj):
    """Stable number for a concrete Python object."""
    k = id(obj)
    if k not in REAL_IDS:
        REAL_IDS[k] = len(REAL_OBJS)
        REAL_OBJS.append(obj)
    return REAL_IDS[k]


def forall_lt(q, n, body):
    """body holds for all q, 0 <= q < n"""
    body = z3.simplify(body)
    if z3.is_true(body):
        return body
    if z3.is_false(body):
        return n <= 0
    return z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < n), body))
