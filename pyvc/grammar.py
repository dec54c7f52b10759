"""pyparsing elements as the terms they were built from: what a grammar
matches is not interpreted, how it is put together is."""
import pyparsing

from .values import *


SNAKE = dict(transformString="transform_string", parseString="parse_string", scanString="scan_string", searchString="search_string")


def actions(E, o):
    """The parse actions of an element."""
    # not part of the state: an element gets its action when it is built
    return getattr(E, "parse_actions", {}).get(id(o), (o, ()))[1]


class Grammar:
    @staticmethod
    def attr(E, o, name):
        return BuiltinMethod(o, name)

    @staticmethod
    def method(E, o, name, a, k):
        if name in ("setParseAction", "set_parse_action", "addParseAction"):
            if not hasattr(E, "parse_actions"):
                E.parse_actions = {}
            E.parse_actions[id(o)] = (o, tuple(a))
            return o
        h = E.models.get("grammar." + SNAKE.get(name, name))
        if h:
            return h[1](E, o, a, k)
        return g(E, "." + name, o, *a, **k)

    @staticmethod
    def call(E, o, a, k):
        return g(E, "named", o, *a, **k)

    @staticmethod
    def binop(E, op, a, b):
        if op.__name__ == "LShift":
            E.world.d["forwards"] = E.world.d.get("forwards", ()) + ((a, b),)
            return a
        return g(E, op.__name__, a, b)

    @staticmethod
    def unop(E, op, a):
        return g(E, op.__name__, a)

    @staticmethod
    def truth(E, o):
        return True


def g(E, op, *args, **kw):
    return Stub(E, Grammar, op, tuple(args), tuple(sorted(kw.items())))


def install(E):
    seen = {}

    def wrap(E, o):
        if isinstance(o, pyparsing.ParserElement):
            if id(o) not in seen:
                seen[id(o)] = (o, g(E, "element", str(o)))
            return seen[id(o)][1]

    def call(E, f, a, k):
        if (getattr(f, "__module__", None) or "").startswith("pyparsing"):
            return g(E, f.__name__, *a, **k)
        return NotImplemented

    E.lib_wrappers.append(wrap)
    E.lib_callers.append(call)


def parts(E, o, seen=None):
    """All elements a grammar is made of, through forwards."""
    seen = {} if seen is None else seen
    o = E.resolve(o)
    if not isinstance(o, Stub) or o.model is not Grammar or id(o) in seen:
        return seen
    seen[id(o)] = o
    for x in o.data[1]:
        parts(E, x, seen)
    for a, b in E.world.d.get("forwards", ()):
        if a is o:
            parts(E, b, seen)
    return seen
