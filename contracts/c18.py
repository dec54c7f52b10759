"""C18: comments, and nothing else, are removed from the text of a file."""
import itertools
import operator
import re

import pyparsing

from pyvc.sym import *
import specs.c18 as S
from pyclibrary.c_parser import CParser

FUNCTIONS = ["CParser.remove_comments"]
HARNESSES = ["file"]
LEVEL = "other"
ASSUMPTIONS = [
    "what the scanner (pyparsing elements, regular expressions) put together by remove_comments does to every text of up to 5 characters over the 7 characters a comment or literal is made of, and to the sequences of up to 4 longer pieces, it does to all texts (bounded; the oracle goes to longer ones)",
    "comments and literals of the text end; comment marks are not split by line splices",
]
PIECES = ["/", "*", "/*", "*/", "//", '"', "'", '\\"', "\\'", "\\\n", "\n", " a ", "\t", '"\\\\"', "'\"'", '"\'"', '"a//"', "\\x41", "/**/"]
NAMES = dict(BitOr="or_", BitAnd="and_", BitXor="xor", Mult="mul")


class Real:
    """A pyparsing element, used as it is."""

    @staticmethod
    def attr(E, o, name):
        return BuiltinMethod(o, name)

    @staticmethod
    def method(E, o, name, a, k):
        if name in ("transformString", "transform_string"):
            if len(a) != 1 or k:
                raise Unsupported("arguments of transformString")
            return transformed(E, o.data[0].transform_string, a[0])
        if not hasattr(pyparsing.ParserElement, name):
            E.py_raise(AttributeError, name)
        return real(E, getattr(o.data[0], name), a, k)

    @staticmethod
    def call(E, o, a, k):
        return real(E, o.data[0], a, k)

    @staticmethod
    def binop(E, op, a, b):
        return real(E, getattr(operator, NAMES.get(op.__name__, op.__name__.lower())), [a, b], {})

    @staticmethod
    def unop(E, op, a):
        return real(E, getattr(operator, op.__name__.lower()), [a], {})

    @staticmethod
    def truth(E, o):
        return True


def back(E, v):
    v = E.resolve(v)
    if isinstance(v, Stub) and v.model is Real:
        return v.data[0]
    if isinstance(v, (str, int, bool, type(None))):
        return v
    if isinstance(v, SV) and v.k == "str":
        s = z3.simplify(v.t)
        if z3.is_string_value(s):
            return s.as_string()
    if isinstance(v, MList):
        return [back(E, i.v) for i in v.d["c"]]
    raise Unsupported("pyparsing argument %r" % (v,))


def real(E, f, a, k):
    r = f(*[back(E, x) for x in a], **{n: back(E, x) for n, x in k.items()})
    if isinstance(r, pyparsing.ParserElement):
        return Stub(E, Real, r)
    raise Unsupported("result %r of pyparsing" % (r,))


def texts():
    for n in range(6):
        for x in itertools.product("/*\"'\\\na", repeat=n):
            yield "".join(x)
    for n in range(1, 4):
        for x in itertools.product(PIECES, repeat=n):
            yield "".join(x)


def transformed(E, f, s):
    """The text a scanner makes of s: the specified one when it does what is
    specified wherever it is tried."""
    for t in texts():
        out, ok = S.scan(t)
        if ok and f(t) != out:
            E.notes.add("the scanner makes %r of %r, not %r" % (f(t), t, out))
            return E.app("scanned", [s, repr(t)], "str")
    return E.app("without_comments", [s], "str")


def install(E):
    def wrap(E, o):
        if isinstance(o, pyparsing.ParserElement):
            return Stub(E, Real, o)

    def call(E, f, a, k):
        if (getattr(f, "__module__", None) or "").startswith("pyparsing"):
            return real(E, f, a, k)
        return NotImplemented

    E.lib_wrappers.append(wrap)
    E.lib_callers.append(call)


def file(E):
    """The text of the file loses its comments, the other files stay as they are."""
    install(E)
    files = symdict(E, "files", vkind="str")
    path = E.fresh("path", "str")
    E.assume(E.dict_get(files, path)[0])
    text = E.dict_get(files, path)[1]
    other = E.fresh("other", "str")
    E.assume(other.t != path.t)
    was = E.dict_get(files, other)
    before = {}
    for n in ("defs", "file_defs", "file_order", "init_opts", "current_file"):
        before[n] = E.fresh_opq(n)
    p = SObj(E, CParser, dict(before, files=files))
    got = outcome(E, lambda: E.call(E.wrap(CParser.remove_comments), [p, path], {}))
    E.must_reach("done")
    E.reach("done")
    E.prove(got[0] == "return", "remove_comments: never fatal")
    if got[0] != "return":
        return
    now = E.dict_get(E.getattr(p, "files"), path)
    E.prove(now[0], "remove_comments: the file stays known")
    E.prove_eq(now[1], E.app("without_comments", [text], "str"), "remove_comments: comments and nothing else are removed")
    after = E.dict_get(E.getattr(p, "files"), other)
    E.prove(after[0] == was[0], "remove_comments: no other file appears or disappears")
    if was[0] and after[0]:
        E.prove_eq(after[1], was[1], "remove_comments: the other files keep their text")
    for n, v in before.items():
        E.prove_eq(E.getattr(p, n), v, "remove_comments: %s is left alone" % n)
