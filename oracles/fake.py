"""A library object whose functions are Python recorders, so that what the
wrappers hand over to the C function can be seen."""
import ctypes
import itertools
import os

_n = itertools.count()


class FakeFunc:
    def __init__(self, name):
        self.name = name
        self.calls = []
        self.argtypes = None
        self.restype = None
        self.behave = None

    def __call__(self, *args, **kw):
        self.calls.append((args, kw))
        if self.behave is not None:
            return self.behave(*args)
        return 0


class FakeDLL(ctypes.CDLL):
    """Looks like a loaded library; nothing is linked."""

    def __init__(self, path, missing=()):
        self.__dict__["_name"] = path
        self.__dict__["_handle"] = 0
        self.__dict__["funcs"] = {}
        self.__dict__["missing"] = set(missing)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        if name in self.missing:
            raise AttributeError(name)
        if name not in self.funcs:
            self.funcs[name] = FakeFunc(name)
        return self.funcs[name]

    def __getitem__(self, name):
        return getattr(self, name)


def header(o, text):
    """A header file with the given text."""
    d = o.dir("hdr")
    p = os.path.join(d, "h%d.h" % next(_n))
    with open(p, "w") as f:
        f.write(text)
    return p


def parser(o, text, **kw):
    """Parser of a header with the given text (no cache)."""
    from pyclibrary import CParser

    return CParser([header(o, text)], **kw)


def library(o, text, **kw):
    """(CLibrary, FakeDLL) for a header text."""
    from pyclibrary import CLibrary

    pk = kw.pop("parser_kw", {})
    missing = kw.pop("missing", ())
    hp = text if not isinstance(text, str) else parser(o, text, **pk)
    p = os.path.join(o.dir("so"), "lib%d.so" % next(_n))
    open(p, "w").close()
    dll = FakeDLL(p, missing)
    return CLibrary(dll, hp, **kw), dll
