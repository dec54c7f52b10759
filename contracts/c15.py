"""C15: a cache is used only when valid, and restores what was parsed."""
import os
import pickle
import re

from pyvc.sym import *
from pyvc.values import _ctr
import specs.c15 as S
from pyclibrary import c_parser
from pyclibrary.c_parser import CParser
from contracts.c14 import CATS

FUNCTIONS = ["CParser.process_all", "CParser.load_cache", "CParser.write_cache", "CParser.load_file", "CParser.__init__"]
HARNESSES = ["load_cache", "round_trip", "process_all", "load_file", "options"]
ASSUMPTIONS = [
    "os.stat gives the modification time of a file; nobody changes the files while they are read",
    "a file that pickle can load is a dict written by write_cache, of this version or of another, with any value for each key or without it; pickle.load restores an object equal to the one dumped (also when it was dumped inside of definitions)",
    "parsing a file (remove_comments, preprocess, parse_defs: C09 to C13) leaves the other files alone",
    "re.sub and the decoding of files are uninterpreted",
]


class File:
    """An open file."""

    @staticmethod
    def enter(E, o):
        return o

    @staticmethod
    def exit(E, o, *a):
        return False

    @staticmethod
    def attr(E, o, name):
        return BuiltinMethod(o, name)

    @staticmethod
    def m_read(E, o, a, k):
        return E.app("content", [o.data[0]["path"], o.data[0]["encoding"]], "str")

    @staticmethod
    def m_close(E, o, a, k):
        return None


class Stat:
    @staticmethod
    def attr(E, o, name):
        if name == "st_mtime":
            return E.app("mtime", [o.data[0]], "int")
        raise Unsupported("os.stat().%s" % name)


def disk(E):
    E.model(os.path.isfile, lambda E, a, k: E.app("isfile", [E.resolve(a[0])], "bool"))
    E.model(os.stat, lambda E, a, k: Stub(E, Stat, E.resolve(a[0])))
    E.model(os.path.getmtime, lambda E, a, k: E.app("mtime", [E.resolve(a[0])], "int"))

    def open_(E, a, k):
        mode = E.resolve(a[1]) if len(a) > 1 else k.get("mode", "r")
        return Stub(E, File, dict(path=E.resolve(a[0]), mode=mode, encoding=E.resolve(k.get("encoding"))))

    E.model(open, open_)


def parser(E, **more):
    E.set_class_attr(CParser, "cache_version", E.fresh("cache_version", "int"))
    d = dict(
        defs=E.fresh_opq("defs"),
        file_defs=E.fresh_opq("file_defs"),
        init_opts=E.fresh_opq("init_opts"),
        current_file=E.fresh_opq("current_file"),
        file_order=mlist(E, "file_order", fn_elem(E, "header", "str")),
        data_list=MList(E, [Item(k) for k in CATS]),
    )
    d.update(more)
    return SObj(E, CParser, d)


def load_cache(E):
    disk(E)
    p = parser(E)
    name = E.fresh("cache", "str")
    check = (True, False, None)[E.choose(3)]
    readable = E.fresh("readable", "bool")
    cached = symdict(E, "cached")
    imported = MList(E)

    def load(E, a, k):
        f = E.resolve(a[0])
        E.prove_eq(f.data[0]["path"], where, "load_cache: file read")
        E.prove(f.data[0]["mode"] == "rb", "load_cache: read in binary")
        if not E.decide(readable.t):
            E.py_raise((pickle.UnpicklingError, EOFError)[E.choose(2)], "truncated")
        return cached

    broken = E.fresh("broken", "bool")

    def imp(E, a, k):
        imported.d["c"] = imported.d["c"] + (Item(a[1]),)
        if E.decide(broken.t):
            E.py_raise(KeyError, "types")

    E.model(pickle.load, load)
    E.contract(CParser.import_dict, imp)
    before = {k: p.d[k] for k in ("defs", "file_defs", "init_opts", "current_file")}
    order = content(p.d["file_order"])
    where = name
    if not E.decide(E.app("isfile", [name], "bool").t):
        where = E.call(os.path.join, [os.path.dirname(c_parser.__file__), "headers", name], {})
        where = E.resolve(where)
    args = [p, name] if check is None else [p, name, check]
    got = outcome(E, lambda: E.call(E.wrap(CParser.load_cache), args, {}))
    E.must_reach("used", "refused", "outdated", "options", "version")
    E.prove(got[0] == "return", "load_cache: never fatal")
    if got[0] != "return":
        return
    ok = True
    opts, vers, defs, fds = [E.dict_get(cached, k) for k in ("opts", "version", "defs", "file_defs")]
    if not E.decide(E.app("isfile", [where], "bool").t):
        ok = False
    elif check and E.truth(E.call(E.wrap(S.outdated), [p.d["file_order"], where], {})):
        E.reach("outdated")
        ok = False
    elif not E.decide(readable.t):
        ok = False
    elif check and not (opts[0] and E.truth(E.py_eq(opts[1], before["init_opts"]))):
        E.reach("options")
        ok = False
    elif check and not (vers[0] and E.truth(E.py_eq(vers[1], E.getattr(p, "cache_version")))):
        E.reach("version")
        ok = False
    elif not fds[0] or check and not defs[0]:
        ok = False
    elif not check and E.decide(broken.t):
        ok = False
    E.reach("used" if ok else "refused")
    E.prove_eq(E.truth(got[1]), ok, "load_cache: used exactly when valid")
    for k in ("init_opts",):
        E.prove_eq(p.d[k], before[k], "load_cache: options of the parser unchanged")
    unchanged(E, p.d["file_order"], order, "load_cache: files unchanged")
    if ok and check:
        E.prove_eq(p.d["defs"], defs[1], "load_cache: definitions restored")
        E.prove_eq(p.d["file_defs"], fds[1], "load_cache: definitions of the files restored")
        return
    for k in ("defs", "file_defs", "current_file"):
        E.prove_eq(p.d[k], before[k], "load_cache: %s not replaced" % k)
    if ok:
        E.prove_segs_eq(imported.d["c"], (Item(fds[1]),), "load_cache: definitions imported")
    elif not (not check and E.decide(broken.t)):
        E.prove_segs_eq(imported.d["c"], (), "load_cache: nothing imported")


def round_trip(E):
    """What write_cache wrote is valid for a parser with the same options, and
    restores the same definitions; for a parser with other options it is not."""
    disk(E)
    p = parser(E)
    name = E.fresh("cache", "str")
    dumped = MList(E)

    def dump(E, a, k):
        f = E.resolve(a[1])
        E.prove_eq(f.data[0]["path"], name, "write_cache: file written")
        E.prove(f.data[0]["mode"] == "wb", "write_cache: mode")
        dumped.d["c"] = dumped.d["c"] + (Item(a[0]),)

    E.model(pickle.dump, dump)
    E.model(pickle.load, lambda E, a, k: E.resolve(dumped.d["c"][0].v))
    E.model(os.path.isfile, lambda E, a, k: E.truth(E.py_eq(a[0], name)))
    before = {k: p.d[k] for k in ("defs", "file_defs", "init_opts")}
    got = outcome(E, lambda: E.call(E.wrap(CParser.write_cache), [p, name], {}))
    E.prove(got[0] == "return", "write_cache: no exception")
    E.prove(len(dumped.d["c"]) == 1, "write_cache: written once")
    for k in before:
        E.prove_eq(p.d[k], before[k], "write_cache: parser unchanged")
    if got[0] != "return" or len(dumped.d["c"]) != 1:
        return
    q = parser(E, file_order=p.d["file_order"])
    # version of the program that reads the cache
    same_version = E.choose(2)
    v0 = E.fresh("written_by", "int")
    if same_version:
        E.set_class_attr(CParser, "cache_version", v0)
        w = E.resolve(dumped.d["c"][0].v)
        E.dict_set(w, "version", v0)
    E.assume(q.d["init_opts"].t == p.d["init_opts"].t)
    got = outcome(E, lambda: E.call(E.wrap(CParser.load_cache), [q, name, True], {}))
    if same_version:
        E.must_reach("restored")
        E.reach("restored")
        same(E, got, ("return", True), "round trip: valid")
        E.prove_eq(q.d["defs"], p.d["defs"], "round trip: definitions")
        E.prove_eq(q.d["file_defs"], p.d["file_defs"], "round trip: definitions of the files")


def process_all(E):
    p = parser(E)
    n = p.d["file_order"]
    files = symdict(E, "files")
    p.d["files"] = files
    elem = n.d["c"]
    cache = None if E.choose(2) else E.fresh("cache", "str")
    valid = E.choose(2)
    check, unparsed = E.fresh("check", "bool"), E.fresh("unparsed", "bool")
    logs = {k: MList(E) for k in ("load", "write", "remove", "preprocess", "parse")}

    def add(k, *v):
        logs[k].d["c"] = logs[k].d["c"] + (Item(v[0] if len(v) == 1 else tuple(v)),)

    def load(E, a, k):
        E.prove_segs_eq(logs["parse"].d["c"], (), "process_all: the cache is tried first")
        add("load", E.resolve(a[1]), E.resolve(k["check_validity"] if "check_validity" in k else a[2] if len(a) > 2 else False))
        return bool(valid)

    def step(me, prev):
        def f(E, a, k):
            if prev:
                E.prove_eq(E.len_val(logs[prev].d["c"]), E.lower(SV(simp(E.rope_len(logs[me].d["c"]) + 1), "int")), "process_all: %s comes after %s" % (me, prev))
            add(me, E.resolve(a[1]))
            if me == "parse":
                u = E.resolve(k["return_unparsed"] if "return_unparsed" in k else a[2] if len(a) > 2 else False)
                E.prove_eq(u, unparsed, "process_all: parse_defs is told what to return")
                return E.app("parsed", [E.resolve(a[1])])

        return f

    def write(E, a, k):
        add("write", E.resolve(a[1]))

    E.contract(CParser.load_cache, load)
    E.contract(CParser.remove_comments, step("remove", None))
    E.contract(CParser.preprocess, step("preprocess", "remove"))
    E.contract(CParser.parse_defs, step("parse", "preprocess"))
    E.contract(CParser.write_cache, write)
    # every header has an entry, None when it is missing
    pp = E.fresh("pos", "int")
    for s in elem:
        if isinstance(s, Item):
            E.assume(files.d["c"][0].has(E.lift(s.v)))
    missing = outcome(E, lambda: E.call(E.wrap(S.first_missing), [n, files], {}))
    got = outcome(E, lambda: E.call(E.wrap(CParser.process_all), [p], dict(cache=cache, return_unparsed=unparsed, check_cache_validity=check)))
    E.must_reach("cached", "missing", "parsed", "written")
    if cache is None:
        E.prove_segs_eq(logs["load"].d["c"], (), "process_all: no cache to load")
    else:
        E.prove_segs_eq(logs["load"].d["c"], (Item((cache, check)),), "process_all: the cache is tried once")
    if cache is not None and valid:
        E.reach("cached")
        E.prove(got[0] == "return", "process_all: a missing header does not matter with a valid cache")
        for k in ("write", "remove", "preprocess", "parse"):
            E.prove_segs_eq(logs[k].d["c"], (), "process_all: nothing is parsed")
        return
    if missing[0] == "raise":
        return
    if missing[1] is not None and not (isinstance(missing[1], SV) and E.truth(E.py_eq(missing[1], None))):
        E.reach("missing")
        E.prove(got[0] == "raise" and issubclass(got[1].cls, OSError), "process_all: a missing header is fatal without a cache")
        E.prove_segs_eq(logs["write"].d["c"], (), "process_all: no cache is written")
        return
    E.reach("parsed")
    E.prove(got[0] == "return", "process_all: no exception")
    for k in ("remove", "preprocess", "parse"):
        E.prove_segs_eq(logs[k].d["c"], elem, "process_all: every file, in order (%s)" % k)
    if cache is None:
        E.prove_segs_eq(logs["write"].d["c"], (), "process_all: no cache is written")
    else:
        E.reach("written")
        E.prove_segs_eq(logs["write"].d["c"], (Item(cache),), "process_all: the cache is written")


def load_file(E):
    disk(E)
    names, repl = mlist(E, "names", fn_elem(E, "n", "str")), symdict(E, "replacements")
    order = mlist(E, "file_order", fn_elem(E, "header", "str"))
    b = [content(x) for x in (names, repl, order)]
    opts = MDict(E)
    E.dict_set(opts, "files", names)
    E.dict_set(opts, "replace", repl)
    E.dict_set(opts, "encoding", "x")
    files = symdict(E, "files")
    fb = content(files)
    p = SObj(E, CParser, dict(init_opts=opts, files=files, file_order=order, default_encoding=E.fresh("default", "str")))
    path, other = E.fresh("path", "str"), E.fresh("other", "str")
    E.assume(other.t != path.t)
    nrep = E.choose(3)
    rep = None
    if nrep:
        rep = MDict(E)
        keys = [E.fresh("pattern", "str") for _ in range(nrep - 1)]
        for k in keys:
            E.dict_set(rep, k, E.fresh("by", "str"))
    E.model(re.sub, lambda E, a, k: E.app("sub", [E.resolve(x) for x in a], "str"))
    enc = None if E.choose(2) else E.fresh("encoding", "str")
    got = outcome(E, lambda: E.call(E.wrap(CParser.load_file), [p, path], dict(replace=rep, encoding=enc)))
    exists = E.decide(E.app("isfile", [path], "bool").t)
    E.must_reach("missing", "read")
    same(E, got, ("return", bool(exists)), "load_file: was the file there")
    E.prove_segs_eq(order.d["c"], b[2] + (Item(path),), "load_file: order of the files")
    bn = E.resolve(E.call(os.path.basename, [path], {}))
    E.prove_segs_eq(names.d["c"], b[0] + (Item(bn),), "load_file: the name is an option")
    r = E.dict_get(repl, bn)
    E.prove(r[0], "load_file: the replacements are an option")
    if r[0]:
        E.prove_eq(r[1], rep, "load_file: the replacements are an option")
    text = E.dict_get(files, path)
    E.prove(text[0], "load_file: the file has an entry")
    if not exists:
        E.reach("missing")
        want = None
    else:
        E.reach("read")
        want = E.app("content", [path, p.d["default_encoding"] if enc is None else enc], "str")
        if rep is not None:
            for k in keys:
                want = E.app("sub", [k, E.dict_get(rep, k)[1], want], "str")
    if text[0]:
        E.prove_eq(text[1], want, "load_file: text of the file")
    old = MDict(E)
    old.d["c"] = fb
    x, y = E.dict_get(old, other), E.dict_get(files, other)
    E.prove(x[0] == y[0], "load_file: other files are left alone")
    if x[0] and y[0]:
        E.prove_eq(x[1], y[1], "load_file: other files are left alone")


def options(E):
    """The constructor records all options before anything is parsed."""
    E.set_class_attr(CParser, "_init", True)
    loaded, added, processed = MList(E), MList(E), MList(E)
    o = SObj(E, CParser)

    def load(E, a, k):
        x = [E.resolve(v) for v in a[1:]]
        for i, nm in enumerate(("path", "replace", "encoding")):
            if nm in k:
                x.append(E.resolve(k[nm]))
        loaded.d["c"] = loaded.d["c"] + (Item(tuple(x)),)

    def add(E, a, k):
        added.d["c"] = added.d["c"] + (Item(tuple(E.resolve(v) for v in a[1:])),)

    def process(E, a, k):
        opts = E.getattr(a[0], "init_opts")
        processed.d["c"] = processed.d["c"] + (Item((E.resolve(k.get("cache", a[1] if len(a) > 1 else None)), E.resolve(k.get("check_cache_validity", True)))),)
        E.prove_eq(E.getitem(opts, "encoding"), enc, "options: encoding")
        for c in tabs:
            E.prove_eq(E.getitem(opts, c), tabs[c], "options: initial definitions")
        E.prove_eq(E.truth(E.contains(opts, "copy_from")), src is not None, "options: copied parsers")
        if src is not None:
            E.prove_segs_eq(E.iter_segs(E.getitem(opts, "copy_from")), tuple(Item(q.d["init_opts"]) for q in src), "options: copied parsers")
        E.prove_segs_eq(loaded.d["c"], tuple(want), "options: the files are read")
        E.prove(len(added.d["c"]) == 2 * len(tabs), "options: the initial definitions are added")
        for s in added.d["c"]:
            c, n, v = s.v
            E.prove(c in tabs, "options: the initial definitions are added")
            ok, w = E.dict_get(tabs[c], n)
            E.prove(ok, "options: the initial definitions are added")
            if ok:
                E.prove_eq(v, w, "options: the initial definitions are added")

    E.contract(CParser.load_file, load)
    E.contract(CParser.add_def, add)
    E.contract(CParser.import_dict, lambda E, a, k: None)
    E.contract(CParser.process_all, process)
    E.contract(CParser.find_headers, lambda E, a, k: mlist_of(E, [E.app("found", [s.v], "str") for s in E.iter_segs(a[1])]))
    src = (None, [], ["a"], ["a", "b"])[E.choose(4)]
    if src is not None:
        src = [SObj(E, CParser, dict(init_opts=E.fresh_opq("opts"), file_defs=E.fresh_opq("file_defs"))) for _ in src]
    enc = E.fresh("encoding", "str")
    tabs = {}
    for c in ([], ["values"], ["types", "macros"])[E.choose(3)]:
        d = MDict(E)
        x, y = E.fresh("name", "str"), E.fresh("name", "str")
        E.assume(x.t != y.t)
        E.dict_set(d, x, E.fresh("value"))
        E.dict_set(d, y, E.fresh("value"))
        tabs[c] = d
    rep = E.fresh_opq("replace")
    kind = E.choose(3)
    f1, f2 = E.fresh("file", "str"), E.fresh("file", "str")
    files = (None, f1, mlist_of(E, [f1, f2]))[kind]
    want = [Item((E.app("found", [f], "str"), rep, enc)) for f in ([], [f1], [f1, f2])[kind]]
    cache, check = E.fresh_opq("cache"), E.fresh("check", "bool")
    kw = dict(replace=rep, cache=cache, check_cache_validity=check, encoding=enc)
    if src is not None:
        kw["copy_from"] = src[0] if len(src) == 1 else mlist_of(E, src)
    kw.update(tabs)
    got = outcome(E, lambda: E.call(E.wrap(CParser.__init__), [o, files], kw))
    E.prove(got[0] == "return", "options: no exception")
    E.prove_segs_eq(processed.d["c"], (Item((cache, check)),), "options: the cache is used as asked")


def mlist_of(E, xs):
    return MList(E, [Item(x) for x in xs])
