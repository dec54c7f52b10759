"""C14: definition tables stay coherent, and mentions never erase definitions."""
import re

from pyvc.sym import *
from pyvc.values import _ctr
from pyclibrary import c_parser
from pyclibrary.c_parser import CParser, Struct, Union

FUNCTIONS = ["CParser.add_def", "CParser.rem_def", "CParser.import_dict", "CParser.process_struct", "CParser.parse_defs", "CParser.__init__"]
HARNESSES = ["add_def", "add_def_elsewhere", "rem_def", "rem_def_elsewhere", "import_dict", "mention", "naming", "kept", "parse_defs"]
SECS = 250
CATS = ["types", "variables", "fnmacros", "macros", "structs", "unions", "enums", "functions", "values"]
ASSUMPTIONS = [
    "the tables of different files and categories are different dict objects (established by add_def, which creates them)",
    "os.path.basename is an uninterpreted function",
]


def key3(E, f, c, n):
    return E.enc((f, c, n))


class Table:
    """file_defs[file][category]: a view of one table of all files."""

    @staticmethod
    def contains(E, o, k):
        w, f, c = o.data
        return E.dict_get(E.store, (f, c, k))[0]

    @staticmethod
    def getitem(E, o, k):
        w, f, c = o.data
        ok, v = E.dict_get(E.store, (f, c, E.resolve(k)))
        if not ok:
            E.py_raise(KeyError, k)
        return v

    @staticmethod
    def setitem(E, o, k, v):
        w, f, c = o.data
        E.dict_set(E.store, (f, c, E.resolve(k)), v)

    @staticmethod
    def delitem(E, o, k):
        Table.getitem(E, o, k)
        w, f, c = o.data
        E.dict_del(E.store, (f, c, E.resolve(k)))

    @staticmethod
    def m_pop(E, o, a, k):
        w, f, c = o.data
        ok, v = E.dict_get(E.store, (f, c, E.resolve(a[0])))
        # dict.pop leaves the dict alone when the key is missing
        E.dict_del(E.store, (f, c, E.resolve(a[0])))
        if not ok and len(a) < 2:
            E.py_raise(KeyError, a[0])
        return v if ok else a[1]

    @staticmethod
    def m_get(E, o, a, k):
        w, f, c = o.data
        ok, v = E.dict_get(E.store, (f, c, E.resolve(a[0])))
        return v if ok else (a[1] if len(a) > 1 else None)


class Tables:
    """file_defs[file]"""

    @staticmethod
    def getitem(E, o, k):
        w, f = o.data
        k = E.resolve(k)
        if isinstance(k, str):
            if k not in CATS:
                E.py_raise(KeyError, k)
            return Stub(E, Table, w, f, k)
        raise Unsupported("category %r" % (k,))

    @staticmethod
    def contains(E, o, k):
        return E.resolve(k) in CATS

    @staticmethod
    def iter(E, o):
        return tuple(CATS)

    @staticmethod
    def m_keys(E, o, a, k):
        return tuple(CATS)

    @staticmethod
    def m_values(E, o, a, k):
        return tuple(Tables.getitem(E, o, c) for c in CATS)

    @staticmethod
    def m_items(E, o, a, k):
        return tuple((c, Tables.getitem(E, o, c)) for c in CATS)


def world(E, iterable=False):
    """A parser with any tables."""
    defs = {k: symdict(E, k) for k in CATS}
    d = MDict(E, None, tuple((k, defs[k]) for k in reversed(CATS)))
    hf = z3.Function(E.name("file_known"), U, BOOL)
    n = key = pos = None
    if iterable:
        nn = z3.Int(E.name("files"))
        E.assume(nn >= 0)
        kf = z3.Function(E.name("file_at"), INT, U)
        pf = z3.Function(E.name("file_pos"), U, INT)
        n, key, pos = nn, (lambda p: kf(p)), (lambda k: pf(k))
        E.filepos, E.fileat, E.nfiles = pf, kf, nn
    E.filehas = hf
    hs = z3.Function(E.name("has_file_def"), U, BOOL)
    vs = z3.Function(E.name("file_def"), U, U)

    def isentry(k):
        # entries of known files only
        return z3.And(U.is_cons(k), hf(U.hd(k)), hs(k))

    store = MDict(E, SymDict(isentry, lambda k: SV(vs(k), "obj"), None, None, None, "obj"))
    E.store = store
    fd = MDict(E, SymDict(lambda k: hf(k), lambda k: Stub(E, Tables, 0, E.lower(SV(k, "obj"))), n, key, pos, "obj"))
    cur = None if E.choose(2) else E.fresh("current_file", "str")
    p = SObj(E, CParser, dict(defs=d, file_defs=fd, current_file=cur, data_list=MList(E, [Item(k) for k in CATS])))
    return p, defs, fd, cur


def known_file(E, f):
    """A known file has a position in the dict of files."""
    p = E.filepos(f)
    E.assume(z3.Implies(E.filehas(f), z3.And(p >= 0, p < E.nfiles, E.fileat(p) == f)))


def lookup(E, fd, f, c, n):
    """(present?, value) of file_defs[f][c][n], for any f"""
    ok, t = E.dict_get(fd, f)
    if not ok:
        return False, None
    t = E.getitem(t, c)
    if not E.truth(E.contains(t, n)):
        return False, None
    return True, E.getitem(t, n)


def any_file(E):
    if E.choose(2):
        return None
    return E.fresh("f", "str")


def same_entry(E, got, want, label):
    E.prove(got[0] == want[0], label + " (present or not)")
    if got[0] and want[0]:
        E.prove_eq(got[1], want[1], label)


def base_of(E, cur):
    return None if cur is None else E.app("basename", [cur], "str")


def add_def(E):
    _add_def(E, True)


def add_def_elsewhere(E):
    _add_def(E, False)


def _add_def(E, this):
    p, defs, fd, cur = world(E)
    i = E.choose(len(CATS))
    typ = CATS[i]
    name = E.fresh("name", "str")
    val = E.fresh_opq("val")
    # any entry of any table
    f, n = any_file(E), E.fresh("n", "str")
    c = typ if this else CATS[(i + 1 + E.choose(len(CATS) - 1)) % len(CATS)]
    before = E.dict_get(defs[c], n)
    fbefore = lookup(E, fd, f, c, n)
    got = outcome(E, lambda: E.call(E.wrap(CParser.add_def), [p, typ, name, val], {}))
    E.prove(got[0] == "return", "add_def: no exception")
    new = E.getattr(p, "defs")
    table = E.getitem(new, c)
    hit = c == typ and E.truth(E.py_eq(n, name))
    same_entry(E, E.dict_get(table, n), (True, val) if hit else before, "add_def: entry of the table of a category")
    b = base_of(E, cur)
    mine = E.truth(E.py_eq(f, b))
    same_entry(E, lookup(E, E.getattr(p, "file_defs"), f, c, n), (True, val) if hit and mine else fbefore, "add_def: entry of the table of a file")


def rem_def(E):
    _rem_def(E, True)


def rem_def_elsewhere(E):
    _rem_def(E, False)


def _rem_def(E, this):
    p, defs, fd, cur = world(E, True)
    i = E.choose(len(CATS))
    typ = CATS[i]
    name = E.fresh("name", "str")
    f, n = any_file(E), E.fresh("n", "str")
    c = typ if this else CATS[(i + 1 + E.choose(len(CATS) - 1)) % len(CATS)]
    before = E.dict_get(defs[c], n)
    fbefore = lookup(E, fd, f, c, n)
    known = E.dict_get(defs[typ], name)[0]
    h0, v0 = E.store.d["c"][0].has, E.store.d["c"][0].val
    hf, pf = E.filehas, E.filepos

    def cand(E, t, cell, k, e0):
        if cell is not E.store:
            return None
        T, N = z3.StringVal(typ), name.t

        def has(x):
            rest = U.tl(x)
            known_file(E, U.hd(x))
            gone = z3.And(
                U.is_cons(x), U.is_cons(rest), U.hd(rest) == U.ustr(T), U.tl(rest) == U.cons(U.ustr(N), U.nil),
                hf(U.hd(x)), pf(U.hd(x)) >= 0, pf(U.hd(x)) < t)
            return z3.And(h0(x), z3.Not(gone))

        return (SymDict(has, v0, None, None, None, "obj"), ())

    E.cands.append(cand)
    got = outcome(E, lambda: E.call(E.wrap(CParser.rem_def), [p, typ, name], {}))
    if not known:
        return
    E.prove(got[0] == "return", "rem_def: no exception")
    hit = c == typ and E.truth(E.py_eq(n, name))
    table = E.getitem(E.getattr(p, "defs"), c)
    same_entry(E, E.dict_get(table, n), (False, None) if hit else before, "rem_def: entry of the table of a category")
    same_entry(E, lookup(E, E.getattr(p, "file_defs"), f, c, n), (False, None) if hit else fbefore, "rem_def: entry of the table of a file")


# --- copying definitions -------------------------------------------------------


class Source:
    """data[file][category] of the dict given to import_dict."""

    @staticmethod
    def _d(E, o):
        f, c = o.data
        d = E.src_dict(f, c)
        E.world.d["last_cat"] = c
        return d

    @staticmethod
    def contains(E, o, k):
        return E.contains(Source._d(E, o), k)

    @staticmethod
    def getitem(E, o, k):
        return E.getitem(Source._d(E, o), k)

    @staticmethod
    def iter(E, o):
        return Source._d(E, o)

    @staticmethod
    def m_keys(E, o, a, k):
        from pyvc.interp import KeysView

        return KeysView(Source._d(E, o), "keys")

    @staticmethod
    def m_items(E, o, a, k):
        from pyvc.interp import KeysView

        return KeysView(Source._d(E, o), "items")


class SourceTables:
    @staticmethod
    def getitem(E, o, k):
        k = E.resolve(k)
        if k not in CATS:
            E.py_raise(KeyError, k)
        return Stub(E, Source, o.data[0], k)

    @staticmethod
    def iter(E, o):
        return tuple(CATS)

    @staticmethod
    def m_keys(E, o, a, k):
        return tuple(CATS)

    @staticmethod
    def m_items(E, o, a, k):
        return tuple((c, SourceTables.getitem(E, o, c)) for c in CATS)


def import_dict(E):
    """The definitions of every file of data, in the order of data, are added
    to the tables, the last one added for a name winning."""
    defs = {k: symdict(E, k) for k in CATS}
    d = MDict(E, None, tuple((k, defs[k]) for k in reversed(CATS)))
    added = MDict(E, SymDict(lambda k: z3.BoolVal(False), lambda k: SV(k, "obj"), None, None, None, "obj"))
    p = SObj(E, CParser, dict(defs=d, current_file=None, data_list=MList(E, [Item(k) for k in CATS]), __added=added))

    def contract(E, a, k):
        """add_def, as proved by the harnesses above; what is recorded for
        the files is kept in one table."""
        typ, name, val = [E.resolve(x) for x in a[1:]]
        E.dict_set(E.getitem(E.getattr(a[0], "defs"), typ), name, val)
        cur = E.resolve(E.getattr(a[0], "current_file"))
        E.dict_set(added, (cur, typ, name), val)

    E.contract(CParser.add_def, contract)
    # the source: files f = fkey(0), fkey(1), ...; tables of any size
    nf = z3.Int(E.name("n_files"))
    E.assume(nf >= 0)
    kf, pf = z3.Function(E.name("src_file"), INT, U), z3.Function(E.name("src_pos"), U, INT)
    hf = z3.Function(E.name("src_known"), U, BOOL)
    H = {c: z3.Function(E.name("src_has_" + c), U, STR, BOOL) for c in CATS}
    V = {c: z3.Function(E.name("src_val_" + c), U, STR, U) for c in CATS}
    NK = {c: z3.Function(E.name("src_n_" + c), U, INT) for c in CATS}
    KY = {c: z3.Function(E.name("src_key_" + c), U, INT, STR) for c in CATS}
    PS = {c: z3.Function(E.name("src_keypos_" + c), U, STR, INT) for c in CATS}

    def src_dict(f, c):
        ft = E.enc(f)
        E.assume(NK[c](ft) >= 0)
        return MDict(E, SymDict(lambda k: H[c](ft, k), lambda k: E.lower(SV(V[c](ft, k), "obj")), NK[c](ft), lambda i: KY[c](ft, i), lambda k: PS[c](ft, k), "str"))

    E.src_dict = src_dict
    E.world.d["last_cat"] = CATS[-1]
    data = MDict(E, SymDict(lambda k: hf(k), lambda k: Stub(E, SourceTables, E.lower(SV(k, "obj"))), nf, lambda i: kf(i), lambda k: pf(k), "obj"))
    h0 = {c: defs[c].d["c"][0].has for c in CATS}
    v0 = {c: defs[c].d["c"][0].val for c in CATS}
    # the last file before number t that has a name
    L = {c: z3.Function(E.name("last_file_" + c), INT, STR, INT) for c in CATS}

    def last(c, t, n):
        """value of the recursive definition, unfolded once"""
        t = simp(t)
        r = L[c](t, n)
        E.assume(z3.And(r >= -1, z3.Implies(t >= 0, r < z3.If(t > 0, t, 0)), z3.Implies(r >= 0, H[c](kf(r), n))))
        E.assume(z3.Implies(t <= 0, r == -1))
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ADD:
            p_ = simp(t - 1)
            E.assume(z3.Implies(p_ >= 0, r == z3.If(H[c](kf(p_), n), p_, L[c](p_, n))))
        return r

    def factory(E, cell, k, e0):
        which = [c for c in CATS if cell is defs[c]]
        if not which and cell is not added:
            return None
        if len(E.loop_stack) == 0:
            if which:
                return lambda E, t: files_defs(E, t, which[0])
            return lambda E, t: files_added(E, t)
        # the names of one table
        f, c = kf(E.loop_stack[0][1]), E.world.d["last_cat"]
        if which and which[0] != c:
            return None
        return lambda E, t: (names_defs if which else names_added)(E, t, f, c, e0)

    def files_defs(E, t, c):
        def has(n):
            return z3.Or(h0[c](n), last(c, t, n) >= 0)

        def val(n):
            l = last(c, t, n)
            return Choice([(l >= 0, E.lower(SV(V[c](kf(l), n), "obj"))), (l < 0, v0[c](n))])

        return (SymDict(has, val, None, None, None, "str"), ())

    def files_added(E, t):
        def has(x):
            f, c_, n = parts(x)
            E.assume(z3.Implies(hf(f), z3.And(pf(f) >= 0, pf(f) < nf, kf(pf(f)) == f)))
            return z3.And(shape(x), hf(f), pf(f) < t, z3.Or(*[z3.And(c_ == c, H[c](f, n)) for c in CATS]))

        return (SymDict(has, sval, None, None, None, "obj"), ())

    def names_defs(E, t, f, c, e0):
        def has(n):
            posfact(f, c, n)
            return z3.Or(present(E, e0, n), z3.And(H[c](f, n), PS[c](f, n) < t))

        def val(n):
            posfact(f, c, n)
            new = z3.And(H[c](f, n), PS[c](f, n) < t)
            return Choice([(new, E.lower(SV(V[c](f, n), "obj")))] + [(z3.And(z3.Not(new), a), v) for a, v in values(E, e0, n)])

        return (SymDict(has, val, None, None, None, "str"), ())

    def names_added(E, t, f, c, e0):
        def has(x):
            f_, c_, n = parts(x)
            posfact(f, c, n)
            return z3.Or(present(E, e0, x), z3.And(shape(x), f_ == f, c_ == c, H[c](f, n), PS[c](f, n) < t))

        return (SymDict(has, sval, None, None, None, "obj"), ())

    def posfact(f, c, n):
        E.assume(z3.Implies(H[c](f, n), z3.And(PS[c](f, n) >= 0, PS[c](f, n) < NK[c](f), KY[c](f, PS[c](f, n)) == n)))

    def shape(x):
        return z3.And(U.is_cons(x), U.is_cons(U.tl(x)), U.is_cons(U.tl(U.tl(x))), U.is_nil(U.tl(U.tl(U.tl(x)))), U.is_ustr(U.hd(U.tl(x))), U.is_ustr(U.hd(U.tl(U.tl(x)))))

    def parts(x):
        return U.hd(x), U.s(U.hd(U.tl(x))), U.s(U.hd(U.tl(U.tl(x))))

    def sval(x):
        f, c_, n = parts(x)
        return Choice([(c_ == c, E.lower(SV(V[c](f, n), "obj"))) for c in CATS])

    def cand():
        pass

    cand.factory = factory
    E.cands.append(cand)
    got = outcome(E, lambda: E.call(E.wrap(CParser.import_dict), [p, data], {}))
    E.prove(got[0] == "return", "import_dict: no exception")
    c = CATS[E.choose(len(CATS))]
    n = E.fresh("n", "str")
    # pointwise: what the tables hold for a name
    q = z3.Int("q!some")
    some = z3.Exists([q], z3.And(q >= 0, q < nf, H[c](kf(q), n.t)))
    ok, v = E.dict_get(E.getitem(E.getattr(p, "defs"), c), n)
    l = last(c, nf, n.t)
    lastfacts(E, L[c], H[c], kf, nf, n.t)
    if E.decide(l >= 0):
        E.prove(ok, "import_dict: every name copied is known")
        if ok:
            E.prove_eq(v, SV(V[c](kf(l), n.t), "obj"), "import_dict: the definition copied is the one of the last file having the name")
        E.prove(z3.ForAll([q], z3.Implies(z3.And(q > l, q < nf), z3.Not(H[c](kf(q), n.t)))), "import_dict: later files do not have the name")
    else:
        E.prove(z3.Not(some), "import_dict: a name is copied when a file has it")
        E.prove(z3.BoolVal(ok) == h0[c](n.t), "import_dict: nothing else is added or removed")
        if ok:
            E.prove_eq(v, v0[c](n.t), "import_dict: other definitions are unchanged")
    f = E.lower(SV(E.fresh_t("f", U), "obj"))
    r = E.dict_get(added, (f, c, n))
    ft = E.enc(f)
    E.assume(z3.Implies(hf(ft), z3.And(pf(ft) >= 0, pf(ft) < nf, kf(pf(ft)) == ft)))
    E.prove(z3.BoolVal(r[0]) == z3.And(hf(ft), H[c](ft, n.t)), "import_dict: definitions are recorded under the file they came from")
    if r[0]:
        E.prove_eq(r[1], SV(V[c](ft, n.t), "obj"), "import_dict: definitions are recorded as they were")


def lastfacts(E, L, H, kf, nf, n):
    """By induction on the recursive definition of the last file: files after
    it do not have the name."""
    q = z3.Int("q!lf")
    P = lambda t: z3.ForAll([q], z3.Implies(z3.And(q > L(t, n), q >= 0, q < t), z3.Not(H(kf(q), n))))

    def step():
        t = E.fresh_t("t", INT)
        E.assume(z3.And(t >= 0, P(t), L(t + 1, n) == z3.If(H(kf(t), n), t, L(t, n))))
        E.prove(P(t + 1), "lemma: no later file has the name (induction step)")

    E.prove(P(z3.IntVal(0)), "lemma: no later file has the name (base)")
    E.sub(step)
    E.assume(z3.ForAll([q], z3.Implies(z3.And(q > L(nf, n), q >= 0, q < nf), z3.Not(H(kf(q), n)))))


def present(E, c, k):
    base, ov = c
    r = base.has(k) if base is not None else z3.BoolVal(False)
    for kk, v in reversed(ov):
        e = E.eq_t(SV(k), kk)
        e = z3.BoolVal(bool(e)) if isinstance(e, (bool, type(None))) else e
        r = z3.If(e, z3.BoolVal(v is not DELETED), r)
    return r


def values(E, c, k):
    base, ov = c
    out, rest = [], z3.BoolVal(True)
    for kk, v in ov:
        e = E.eq_t(SV(k), kk)
        e = z3.BoolVal(bool(e)) if isinstance(e, (bool, type(None))) else e
        out.append((z3.And(rest, e), v))
        rest = z3.And(rest, z3.Not(e))
    if base is not None:
        out.append((rest, base.val(k)))
    return out


# --- structures ------------------------------------------------------------------


class Tokens:
    """ParseResults: names that were not matched are empty strings."""

    @staticmethod
    def attr(E, o, name):
        d = o.data[0]
        if name in d:
            return d[name]
        if name in ("get", "keys", "asList"):
            return BuiltinMethod(o, name)
        return ""

    @staticmethod
    def getitem(E, o, k):
        k = E.resolve(k)
        if isinstance(k, str):
            if k not in o.data[0]:
                E.py_raise(KeyError, k)
            return o.data[0][k]
        return E.getitem(o.data[1], k)

    @staticmethod
    def contains(E, o, k):
        k = E.resolve(k)
        if isinstance(k, str):
            return k in o.data[0]
        raise Unsupported("in tokens")

    @staticmethod
    def len(E, o):
        return len(o.data[1])

    @staticmethod
    def m_get(E, o, a, k):
        return o.data[0].get(E.resolve(a[0]), a[1] if len(a) > 1 else None)

    @staticmethod
    def m_keys(E, o, a, k):
        return tuple(o.data[0])

    @staticmethod
    def truth(E, o):
        return True

    @staticmethod
    def iter(E, o):
        return o.data[1]


def tokens(E, seq=(), **d):
    return Stub(E, Tokens, d, tuple(seq))


def struct_world(E):
    kind = ("struct", "union")[E.choose(2)]
    tables = {k: symdict(E, k) for k in CATS}
    d = MDict(E, None, tuple((k, tables[k]) for k in reversed(CATS)))
    p = SObj(E, CParser, dict(defs=d, current_file=E.fresh("file", "str"), pack_list=MDict(E), file_defs=MDict(E)))
    calls = MList(E)
    p.d["__calls"] = calls

    def rec(E, a, k):
        x = [E.resolve(v) for v in a[1:]]
        calls.d["c"] = calls.d["c"] + (Item(tuple(x)),)
        E.dict_set(tables[x[0]], x[1], x[2])

    E.contract(CParser.add_def, rec)
    E.contract(CParser.packing_at, lambda E, a, k: E.app("packing", [a[1]]))
    E.contract(CParser.eval_expr, lambda E, a, k: E.fresh("init"))
    E.contract(CParser.process_type, lambda E, a, k: (E.fresh("member"), E.fresh("mtype")))
    E.model(c_parser.lineno, lambda E, a, k: E.fresh("line", "int"))
    return p, kind, tables, calls


def mention(E):
    """struct NAME, without members."""
    p, kind, tables, calls = struct_world(E)
    name = E.fresh("name", "str")
    E.assume(name.t != "")
    d = dict(struct_type=kind, name=name if E.choose(2) else tokens(E, [name]))
    t = tokens(E, [], **d)
    tab = tables[kind + "s"]
    known, v = E.dict_get(tab, name)
    if known:
        # a definition is a Compound: it has the keys members and pack
        E.assume(v.t != E.enc(MDict(E)))
    got = outcome(E, lambda: E.call(E.wrap(CParser.process_struct), [p, E.fresh("s", "str"), E.fresh("loc", "int"), t], {}))
    E.must_reach("known", "new")
    E.reach("known" if known else "new")
    E.prove(got[0] == "return", "mention: no exception")
    if got[0] == "return":
        E.prove_eq(got[1], SV(z3.Concat(z3.StringVal(kind + " "), name.t), "str"), "mention: denotes the struct")
    cs = [E.resolve(s.v) for s in calls.d["c"]]
    if known:
        E.prove(not cs, "mention: a definition is left as it is")
        return
    for typ, n, val in cs:
        if typ == kind + "s":
            E.prove_eq(n, name, "mention: only the struct mentioned is declared")
            val = E.resolve(val)
            E.prove(isinstance(val, SObj) and val.cls is (Struct if kind == "struct" else Union), "mention: kind of the declaration")
            E.prove_eq(E.len_val(E.iter_segs(E.getitem(val, "members"))), 0, "mention: without members")
        else:
            E.prove(typ == "types", "mention: other tables are left alone")
            E.prove_eq(n, SV(z3.Concat(z3.StringVal(kind + " "), name.t), "str"), "mention: name of the type")


def naming(E):
    """struct { ... } and struct NAME { ... }"""
    p, kind, tables, calls = struct_world(E)
    anon = E.choose(2)
    name = E.fresh("name", "str")
    E.assume(name.t != "")
    d = dict(struct_type=kind, members=MList(E, [Item(tokens(E, [tokens(E, [], type=tokens(E, [E.fresh("mt", "str")]))]))]))
    if not anon:
        d["name"] = name if E.choose(2) else tokens(E, [name])
    t = tokens(E, [], **d)
    before = {k: content(v) for k, v in tables.items()}
    got = outcome(E, lambda: E.call(E.wrap(CParser.process_struct), [p, E.fresh("s", "str"), E.fresh("loc", "int"), t], {}))
    E.must_reach("anonymous", "named")
    E.reach("anonymous" if anon else "named")
    E.prove(got[0] == "return", "struct: no exception")
    cs = [E.resolve(s.v) for s in calls.d["c"]]
    defs_ = [c for c in cs if c[0] == kind + "s"]
    E.prove(len(defs_) == 1, "struct: one definition is recorded")
    E.prove(len(cs) == 2 and {c[0] for c in cs} == {kind + "s", "types"}, "struct: the struct and its type are recorded")
    if len(defs_) != 1:
        return
    n = defs_[0][1]
    old = MDict(E)
    old.d["c"] = before[kind + "s"]
    if anon:
        E.prove(not E.dict_get(old, n)[0], "struct: the generated name is new")
    else:
        E.prove_eq(n, name, "struct: name")
    if got[0] == "return":
        E.prove_eq(got[1], SV(z3.Concat(z3.StringVal(kind + " "), E.lift(E.resolve(n))), "str"), "struct: denotes the definition")


def kept(E):
    """Parsers to copy from are imported one after the other, and nothing else."""
    E.set_class_attr(CParser, "_init", True)
    calls = MList(E)

    def imp(E, a, k):
        calls.d["c"] = calls.d["c"] + (Item(E.resolve(a[1])),)

    E.contract(CParser.import_dict, imp)
    fdf = z3.Function(E.name("file_defs_of"), INT, O)
    iof = z3.Function(E.name("init_opts_of"), INT, O)
    p = z3.Int("e!%d" % next(_ctr))

    def parser(q):
        return SObj(E, CParser, dict(file_defs=SV(U.opq(fdf(q)), "obj"), init_opts=SV(U.opq(iof(q)), "obj")))

    form = E.choose(3)
    if form == 0:
        arg, segs = None, ()
    elif form == 1:
        arg = parser(z3.IntVal(0))
        segs = (Item(SV(U.opq(fdf(0)), "obj")),)
    else:
        n = z3.Int(E.name("n_parsers"))
        E.assume(n >= 0)
        E.mark_index(p)
        arg = MList(E, E.norm((Map(n, Fn(p, parser(p))),)))
        segs = (Map(n, Fn(p, SV(U.opq(fdf(p)), "obj"))),)
    o = SObj(E, CParser)
    got = outcome(E, lambda: E.call(E.wrap(CParser.__init__), [o], dict(copy_from=arg, process_all=False)))
    E.prove(got[0] == "return", "copy_from: no exception")
    E.prove_segs_eq(calls.d["c"], segs, "copy_from: the definitions of each parser are imported in turn")
    for c in CATS:
        E.prove(E.truth(E.contains(E.getattr(o, "defs"), c)), "copy_from: every category has a table")


class Parser_(object):
    """The grammar of declarations: what it finds in a text, in order."""

    @staticmethod
    def attr(E, o, name):
        return BuiltinMethod(o, name)

    @staticmethod
    def look(E, o, text):
        p, path, at = o.data
        E.prove_eq(E.resolve(E.getattr(p, "current_file")), path, "parse_defs: what is found is recorded as of its file")
        E.prove_eq(text, SV(at, "str"), "parse_defs: the text of the file is parsed")

    @staticmethod
    def m_scanString(E, o, a, k):
        Parser_.look(E, o, E.resolve(a[0]))
        n = z3.Int("n_found")
        E.assume(n >= 0)
        q = z3.Int("e!%d" % next(_ctr))
        return MList(E, E.norm((Map(n, Fn(q, (E.app("found", [SV(q, "int")]), E.app("from", [SV(q, "int")], "int"), E.app("to", [SV(q, "int")], "int")))),)))

    m_scan_string = m_scanString

    @staticmethod
    def m_suppress(E, o, a, k):
        return Stub(E, Suppressed, *o.data)


class Suppressed(Parser_):
    @staticmethod
    def m_transformString(E, o, a, k):
        t = E.resolve(a[0])
        Parser_.look(E, o, t)
        return E.app("without_declarations", [t], "str")

    m_transform_string = m_transformString


def parse_defs(E):
    """Every declaration of the text of the file is looked at once, and what is
    found is recorded for that file."""
    path = E.fresh("path", "str")
    files = symdict(E, "files", vkind="str")
    base, ov = content(files)
    h = E.contains(files, path)
    E.assume(E.truth(h) if not isinstance(h, SV) else h.t)
    text = E.resolve(E.getitem(files, path))
    p = SObj(E, CParser, dict(files=files, current_file=E.fresh("other", "str")))
    E.contract(CParser.build_parser, lambda E, a, k: Stub(E, Parser_, p, path, E.lift(text)))
    E.model(re.sub, lambda E, a, k: E.app("substituted", [a[0], a[1], a[2]], "str"))
    unparsed = bool(E.choose(2))
    E.must_reach("done")
    got = outcome(E, lambda: E.call(E.wrap(CParser.parse_defs), [p, path], dict(return_unparsed=unparsed)))
    E.prove(got[0] == "return", "parse_defs: no exception")
    if got[0] != "return":
        return
    E.reach("done")
    if not unparsed:
        q = z3.Int("e!%d" % next(_ctr))
        want = (Map(z3.Int("n_found"), Fn(q, E.app("found", [SV(q, "int")]))),)
        E.prove_segs_eq(E.iter_segs(got[1]), want, "parse_defs: what is found in the file, in order")
