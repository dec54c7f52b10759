"""The line by line loop of CParser.preprocess, for any text.

The loop is related to a ghost machine G that reads the lines one after the
other.  Its state before line t is

  D(t)             number of open conditional groups
  A(t, j), H(t, j) group j: is its current branch selected (and all the groups
                   around it), has one of its branches been selected
  MO(t), MF(t)     the tables of object and of function macros

and it is defined by the axioms of `step` below, which are the semantics of
the directives.  c09 shows that A is what the property says."""
import re

import pyparsing

from pyvc.sym import *
from pyvc.values import _ctr
from pyvc import grammar
from pyclibrary import c_parser
from pyclibrary.c_parser import CParser

IFS = ("if", "ifdef", "ifndef")


class Text:
    """The text of the file, continued lines joined or not."""

    @staticmethod
    def attr(E, o, name):
        return BuiltinMethod(o, name)

    @staticmethod
    def m_split(E, o, a, k):
        w, joined = o.data
        if list(a) != ["\n"]:
            raise Unsupported("split%r" % (a,))
        E.prove(joined, "preprocess: continued lines are joined first")
        return MList(E, E.norm((Map(w.n, Fn(w.p, E.lower(SV(w.line(w.p), "str")))),)))

    @staticmethod
    def m_replace(E, o, a, k):
        w, joined = o.data
        if list(a) == ["\\\n", ""]:
            return Stub(E, Text, w, True)
        raise Unsupported("replace%r" % (a,))


class Holder:
    def __init__(self, segs):
        self.segs = segs

    def __deepcopy__(self, memo):
        return self


class Joined:
    """The lines put together again."""

    @staticmethod
    def attr(E, o, name):
        return BuiltinMethod(o, name)


class Regex:
    """A compiled regular expression; what it is for is found by trying it."""

    @staticmethod
    def attr(E, o, name):
        if name == "pattern":
            return o.data[0]
        return BuiltinMethod(o, name)

    @staticmethod
    def m_match(E, o, a, k):
        return re_match(E, o.data[0], E.resolve(a[0]))


class Match:
    @staticmethod
    def attr(E, o, name):
        return BuiltinMethod(o, name)

    @staticmethod
    def truth(E, o):
        return True

    @staticmethod
    def m_groups(E, o, a, k):
        return tuple(o.data[0])

    @staticmethod
    def m_group(E, o, a, k):
        gs = o.data[0]
        r = tuple(None if x == 0 else gs[x - 1] for x in (a or [0]))
        if None in r:
            raise Unsupported("group(0)")
        return r[0] if len(r) == 1 else r


SAMPLES = {
    "directive": [
        (" # if X", ("if", " X")), ("#define A(b) b", ("define", " A(b) b")), ("#endif", ("endif", "")), ("int a; # b", None),
        ("", None), ("#", ("", "")), ("# 12 \"x\"", ("", "12 \"x\"")), ("\t#\tpragma pack()", ("pragma", " pack()")), ("a", None),
    ],
    "name": [(" ABC 3", ("ABC", " 3")), ("_a1(b) c", ("_a1", "(b) c")), (" X", ("X", "")), ("  3", None), ("", None)],
    "pack": [
        (" pack(1)", ("1",)), ("  pack (push, a , 2) x", ("push, a , 2",)), (" pack()", ("",)), (" pac(1)", None), (" once", None),
        (" pack", None), (" xpack(1)", None), (" pack(", None),
    ],
}


def role(pattern):
    for r, cases in SAMPLES.items():
        ok = True
        for s, want in cases:
            m = re.match(pattern, s)
            got = m and m.groups()
            if r == "directive" and want and want[0] == "" and m:
                # what follows # without a name does not matter
                got = ("", want[1]) if got[0] == "" else got
            if got != want:
                ok = False
        if ok:
            return r
    raise Unsupported("regular expression %r" % pattern)


def re_match(E, pattern, s):
    r = role(pattern)
    if r == "directive":
        if not E.decide(E.app("is_directive", [s], "bool").t):
            return None
        return Stub(E, Match, (E.app("dname", [s], "str"), E.app("drest", [s], "str")))
    if r == "name":
        # the name of a macro that is (un)defined; there is one in valid text
        name = E.app("mname", [s], "str")
        # there are no blanks in a name
        E.assume(E.app("s_strip", [name], "str").t == name.t)
        return Stub(E, Match, (name, E.app("mrest", [s], "str")))
    if r == "pack":
        if not E.world_of_preproc.pack:
            # pragmas about packing: C10
            return None
        if not E.decide(E.app("is_pack", [s], "bool").t):
            return None
        return Stub(E, Match, (Stub(E, Opts, s),))


class Opts:
    """The text between the parentheses of pack()."""

    @staticmethod
    def attr(E, o, name):
        return BuiltinMethod(o, name)

    @staticmethod
    def m_split(E, o, a, k):
        if list(a) != [","]:
            raise Unsupported("split%r" % (a,))
        s = o.data[0]
        n, opts = options(E, s)
        c = 1 + E.choose(3)
        E.assume(n == c)
        if not E.feasible(z3.BoolVal(True)):
            raise PathEnd()
        return MList(E, [Item(Stub(E, Opt, x)) for x in opts[:c]])


def options(E, s):
    """The number of options of pack() and the first three of them.

    Assumed to be pack(), pack(n), pack(push[, id][, n]), pack(pop[, id][, n])
    or one word that means something else."""
    n = E.app("pack_options", [s], "int").t
    opts = [E.app("pack_option", [s, E.lower(SV(z3.IntVal(j), "int"))], "str") for j in range(3)]
    o0, o1, o2 = opts
    S = z3.StringVal
    digits = [E.app("s_isdigit", [x], "bool").t for x in opts]
    word = lambda j: z3.And(z3.Not(digits[j]), *[opts[j].t != S(x) for x in ("", "push", "pop")])
    E.assume(z3.And(n >= 1, n <= 3))
    for x, d in zip(opts, digits):
        E.assume(z3.Implies(z3.Or(x.t == S(""), x.t == S("push"), x.t == S("pop")), z3.Not(d)))
    for x, d in zip(opts, digits):
        E.assume(z3.Implies(d, E.app("intok", [x], "bool").t))
    E.assume(z3.Implies(n > 1, z3.Or(o0.t == S("push"), o0.t == S("pop"))))
    E.assume(z3.Implies(n == 2, z3.Or(digits[1], word(1))))
    E.assume(z3.Implies(n == 3, z3.And(word(1), digits[2])))
    return n, opts


def pack_facts(E, w, t):
    """Terms about line t: (changes the packing?, push, pop, label, value)"""
    isdir, d, rest, val = facts(E, w, t)
    ispragma = kinds(isdir, d)[-1]
    r = expanded(E, w, SV(rest, "str"), obj(w.MO(t)), obj(w.MF(t)))
    n, opts = options(E, r)
    S = z3.StringVal
    push, pop = opts[0].t == S("push"), opts[0].t == S("pop")
    digits = [E.app("s_isdigit", [x], "bool").t for x in opts]
    known = z3.Or(push, pop, digits[0], opts[0].t == S(""))
    changes = z3.And(ispragma, act(w, t), E.app("is_pack", [r], "bool").t, known)
    none = E.enc(None)
    label = z3.If(z3.Or(n == 3, z3.And(n == 2, z3.Not(digits[1]))), E.enc(opts[1]), none)
    num = lambda x: E.enc(E.app("int_of", [x], "int"))
    value = none
    for j in (0, 1, 2):
        value = z3.If(z3.And(n == j + 1, digits[j]), num(opts[j]), value)
    return changes, push, pop, label, value


def pack_step(E, w, t):
    """What line t does to the packing: records PV, PI (value and label) 0 to
    PN - 1, packing CUR."""
    changes, push, pop, label, value = pack_facts(E, w, t)
    none = E.enc(None)
    n = t + 1
    N, V, I, C = w.PN, w.PV, w.PI, w.CUR
    E.assume(N(t) >= 0)
    j = z3.Int("j!%d" % next(_ctr))
    E.assume(N(n) == z3.If(z3.Not(changes), N(t), z3.If(push, N(t) + 1, z3.If(
        z3.Not(pop), N(t), z3.If(label == none, z3.If(N(t) > 0, N(t) - 1, 0), w.FIRST(t))))))
    # the first record with that label, or the number of records
    f = w.FIRST(t)
    E.assume(z3.And(f >= 0, f <= N(t)))
    E.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < f), I(t, j) != label), patterns=[I(t, j)]))
    E.assume(z3.Implies(f < N(t), I(t, f) == label))
    pushed = z3.And(changes, push)
    for F, x in ((V, value), (I, label)):
        E.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < N(n), j < N(t)), F(n, j) == F(t, j)), patterns=[F(n, j)]))
        E.assume(z3.Implies(pushed, F(n, N(t)) == x))
    top = z3.If(N(n) == 0, none, V(n, N(n) - 1))
    E.assume(C(n) == z3.If(z3.Not(changes), C(t), z3.If(z3.And(pop, value == none), top, value)))


class Opt:
    """One option with the blanks around it."""

    @staticmethod
    def attr(E, o, name):
        return BuiltinMethod(o, name)

    @staticmethod
    def m_strip(E, o, a, k):
        return o.data[0]


class Table:
    """defs["macros"] and defs["fnmacros"]"""

    @staticmethod
    def contains(E, o, k):
        w, key = o.data
        return is_macro(E, w, key, E.resolve(k))


def is_macro(E, w, key, name):
    return bool(E.decide(E.app("is_macro", [w.p_.d[key], name], "bool").t))


class W:
    def __deepcopy__(self, memo):
        return self


def world(E, pack=False):
    """A parser about to preprocess a file."""
    w = E.world_of_preproc = W()
    grammar.install(E)
    w.p = z3.Int("e!%d" % next(_ctr))
    w.n = z3.Int(E.name("lines"))
    E.assume(w.n >= 1)
    if E.bound is not None:
        k = 1 + E.choose(max(E.bound, 1))
        E.assume(w.n == k)
        w.n = z3.IntVal(k)
    w.line = z3.Function(E.name("line"), INT, STR)
    for nm, args, res in (
        ("D", [INT], INT), ("A", [INT, INT], BOOL), ("H", [INT, INT], BOOL), ("MO", [INT], U), ("MF", [INT], U),
    ):
        setattr(w, nm, z3.Function(E.name("ghost_" + nm), *args, res))
    w.pack = pack
    w.path = E.fresh("path", "str")
    files = MDict(E)
    text = Stub(E, Text, w, False)
    E.dict_set(files, w.path, text)
    w.files = files
    w.p_ = SObj(E, CParser, dict(
        files=files,
        current_file=E.fresh("current_file", "str"),
        pack_list=MDict(E),
        MO=SV(w.MO(0), "obj"),
        MF=SV(w.MF(0), "obj"),
    ))
    E.assume(w.D(0) == 0)
    if pack:
        w.PN, w.FIRST = [z3.Function(E.name("ghost_" + x), INT, INT) for x in ("PN", "FIRST")]
        w.PV, w.PI = [z3.Function(E.name("ghost_" + x), INT, INT, U) for x in ("PV", "PI")]
        w.CUR = z3.Function(E.name("ghost_CUR"), INT, U)
        E.assume(w.PN(0) == 0)
        E.assume(w.CUR(0) == E.enc(None))
    d = MDict(E)
    E.dict_set(d, "macros", Stub(E, Table, w, "MO"))
    E.dict_set(d, "fnmacros", Stub(E, Table, w, "MF"))
    w.p_.d["defs"] = d

    def expand(E, a, k):
        return expanded(E, w, E.resolve(a[1]), w.p_.d["MO"], w.p_.d["MF"])

    def define(E, o, a, k):
        E.prove_eq(w.p_.d["current_file"], w.path, "preprocess: the macros of a file are recorded as its own")
        arg = E.resolve(a[0])
        fn = any(x.data[0] in ("delimitedList", "delimited_list", "DelimitedList") for x in grammar.parts(E, o).values())
        mo, mf = w.p_.d["MO"], w.p_.d["MF"]
        if E.decide(E.app("bad_define", [mo, mf, arg, fn], "bool").t):
            E.py_raise(pyparsing.ParseException, "bad definition")
        w.p_.d["MO"] = E.app("define_obj", [mo, mf, arg, fn])
        w.p_.d["MF"] = E.app("define_fn", [mo, mf, arg, fn])
        return Stub(E, grammar.Grammar, "results", (), ())

    def transform(E, o, a, k):
        x = E.resolve(a[0])
        if isinstance(x, Stub) and x.model is Text:
            lits = [p for p in grammar.parts(E, o).values() if p.data[0] == "Literal"]
            if [list(p.data[1]) for p in lits] != [["\\\n"]] or o.data[0] != ".suppress":
                raise Unsupported("transformation of the text by %r" % (o,))
            return Stub(E, Text, w, True)
        fs = grammar.actions(E, o)
        if len(fs) != 1:
            raise Unsupported("transformation of a line by %r" % (o,))
        defined_action(E, w, fs[0])
        return E.app("defined_replaced", [w.p_.d["MO"], w.p_.d["MF"], x], "str")

    def rem(E, a, k):
        typ, name = E.resolve(a[1]), E.resolve(a[2])
        key = {"macros": "MO", "fnmacros": "MF"}.get(typ)
        if key is None:
            raise Unsupported("rem_def(%r)" % (typ,))
        old = w.p_.d[key]
        new = E.app("undef", [old, name])
        if not E.decide(E.app("is_macro", [old, name], "bool").t):
            E.assume(new.t == E.enc(old))
            E.py_raise(KeyError, name)
        w.p_.d[key] = new

    E.contract(CParser.expand_macros, expand)
    E.contract(CParser.build_parser, lambda E, a, k: None)
    E.contract(CParser.rem_def, rem)
    E.contract(CParser.eval_preprocessor_expr, lambda E, a, k: E.app("condition", [E.resolve(a[1])], "bool"))
    E.models["grammar.transform_string"] = (None, transform)
    E.models["grammar.parse_string"] = (None, define)
    E.models["strjoin"] = (None, lambda E, o, segs: Stub(E, Joined, o, Holder(segs)) if o == "\n" else None)
    E.model(re.compile, lambda E, a, k: Stub(E, Regex, a[0]))
    E.model(re.match, lambda E, a, k: re_match(E, a[0], E.resolve(a[1])))
    cands(E, w)
    return w


class Toks:
    """Results of parsing: the name after defined."""

    @staticmethod
    def getitem(E, o, k):
        k = E.resolve(k)
        if k == "name":
            return o.data[0]
        raise Unsupported("token %r" % (k,))

    @staticmethod
    def attr(E, o, name):
        if name == "name":
            return o.data[0]
        raise Unsupported("token %r" % (name,))


def defined_action(E, w, f):
    """The replacement of `defined NAME`."""
    name = E.fresh("name", "str")
    got = outcome(E, lambda: E.call(f, [Stub(E, Toks, name)], {}))
    want = is_macro(E, w, "MO", name) or is_macro(E, w, "MF", name)
    E.reach("defined" if want else "not defined")
    same(E, got, ("return", "1" if want else "0"), "defined: true exactly for macros")


def expanded(E, w, text, mo, mf):
    return E.app("expand", [mo, mf, text], "str")


def obj(t):
    return SV(t, "obj")


def act(w, t):
    return z3.Or(w.D(t) == 0, w.A(t, w.D(t) - 1))


def facts(E, w, t):
    """Terms about line t: (directive?, its name, value of its condition)"""
    l = SV(w.line(t), "str")
    mo, mf = obj(w.MO(t)), obj(w.MF(t))
    isdir = E.app("is_directive", [l], "bool").t
    d = E.app("dname", [l], "str").t
    rest = E.app("drest", [l], "str").t
    S = z3.StringVal
    c = z3.If(d == S("ifdef"), z3.Concat(S("defined "), rest), z3.If(d == S("ifndef"), z3.Concat(S("!defined "), rest), rest))

    def value(c):
        rep = E.app("defined_replaced", [mo, mf, SV(c, "str")], "str")
        return E.app("condition", [expanded(E, w, rep, mo, mf)], "bool").t

    val = z3.If(d == S("ifdef"), value(z3.Concat(S("defined "), rest)), z3.If(d == S("ifndef"), value(z3.Concat(S("!defined "), rest)), value(rest)))
    return isdir, d, rest, val


def kinds(isdir, d):
    S = z3.StringVal
    isif = z3.And(isdir, z3.Or(*[d == S(x) for x in IFS]))
    return isif, *[z3.And(isdir, d == S(x)) for x in ("elif", "else", "endif", "define", "undef", "pragma")]


def step(E, w, t):
    """The ghost machine reads line t."""
    mark = z3.Bool("read!%s" % t.sexpr())
    if any(z3.eq(x, mark) for x in E.pc):
        return
    E.assume(mark)
    isdir, d, rest, val = facts(E, w, t)
    isif, iselif, iselse, isend, isdef, isundef, ispragma = kinds(isdir, d)
    D, A, H, n = w.D(t), w.A, w.H, t + 1
    # the directives are balanced
    E.assume(D >= 0)
    E.assume(z3.Implies(z3.Or(iselif, iselse, isend), D >= 1))
    active = act(w, t)
    outer = z3.Or(D <= 1, A(t, D - 2))
    E.assume(w.D(n) == z3.If(isif, D + 1, z3.If(isend, D - 1, D)))
    top = z3.If(isif, D, D - 1)
    changed = z3.Or(isif, iselif, iselse)
    j = z3.Int("j!%d" % next(_ctr))
    E.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < w.D(n), z3.Not(z3.And(changed, j == top))), z3.And(A(n, j) == A(t, j), H(n, j) == H(t, j))), patterns=[A(n, j)]))
    E.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < w.D(n), z3.Not(z3.And(changed, j == top))), z3.And(A(n, j) == A(t, j), H(n, j) == H(t, j))), patterns=[H(n, j)]))
    E.assume(z3.Implies(isif, z3.And(A(n, top) == z3.And(active, val), H(n, top) == z3.And(active, val))))
    E.assume(z3.Implies(iselif, z3.And(A(n, top) == z3.And(outer, z3.Not(H(t, top)), val), H(n, top) == z3.Or(H(t, top), A(n, top)))))
    E.assume(z3.Implies(iselse, z3.And(A(n, top) == z3.And(outer, z3.Not(H(t, top))), H(n, top))))
    # macros
    mo, mf = obj(w.MO(t)), obj(w.MF(t))
    r = SV(rest, "str")
    name = E.app("mname", [r], "str")
    body = expanded(E, w, E.app("mrest", [r], "str"), mo, mf)
    fn = z3.PrefixOf(z3.StringVal("("), body.t)
    arg = SV(z3.Concat(name.t, z3.StringVal(" "), body.t), "str")

    def new(what):
        x = [mo, mf, arg]
        old = w.MO(t) if what == "obj" else w.MF(t)
        one = lambda b: z3.If(E.app("bad_define", x + [b], "bool").t, old, E.app("define_" + what, x + [b]).t)
        return z3.If(fn, one(True), one(False))

    for what, M, m in (("obj", w.MO, mo), ("fn", w.MF, mf)):
        u = E.app("undef", [m, name]).t
        # removing what is not there changes nothing
        E.assume(z3.Implies(z3.Not(E.app("is_macro", [m, name], "bool").t), u == M(t)))
        E.assume(M(n) == z3.If(z3.And(isdef, active), new(what), z3.If(z3.And(isundef, active), u, M(t))))
    prefix_closed(E, w, t)
    if w.pack:
        pack_step(E, w, t)


def prefix_closed(E, w, t):
    """Lemma (contract c09, harness nesting): a group is selected only when the
    ones around it are."""
    a, b = z3.Int("a!%d" % next(_ctr)), z3.Int("b!%d" % next(_ctr))
    E.assume(z3.ForAll([a, b], z3.Implies(z3.And(a >= 0, a <= b, b < w.D(t), w.A(t, b)), w.A(t, a)), patterns=[z3.MultiPattern(w.A(t, a), w.A(t, b))]))


def kept(E, w, t):
    """What becomes of line t."""
    isdir, d, rest, val = facts(E, w, t)
    l = SV(w.line(t), "str")
    return z3.If(z3.And(z3.Not(isdir), act(w, t)), expanded(E, w, l, obj(w.MO(t)), obj(w.MF(t))).t, z3.StringVal(""))


def recorded(E, w, t):
    """The changes of the packing before line t, with their line."""
    q = z3.Int("e!%d" % next(_ctr))
    c = pack_facts(E, w, q)[0]
    return FMap(t, Fn(q, Choice([(c, ((SV(q, "int"), obj(w.CUR(q + 1))),)), (z3.Not(c), ())])))


def cands(E, w):
    def at_head(E, t):
        st = E.loop_stack
        if st and z3.eq(simp(st[-1][1]), simp(t)):
            step(E, w, t)

    def lst(f, first=()):
        def at(E, t):
            at_head(E, t)
            q = z3.Int("e!%d" % next(_ctr))
            return E.norm(tuple(first) + (Map(w.D(t), Fn(q, SV(f(t, q), "bool"))),))

        return at

    def out(E, t):
        at_head(E, t)
        q = z3.Int("e!%d" % next(_ctr))
        return E.norm((Map(t, Fn(q, SV(kept(E, w, q), "str"))),))

    def mk(fn, eager=False):
        def cand():
            pass

        cand.eager = eager

        cand.factory = fn
        E.cands.append(cand)

    def stack(E, cell, k, e0):
        if isinstance(cell, MList) and k == "c" and len(e0) == 1 and isinstance(e0[0], Item) and e0[0].v is True:
            return lst(w.A, e0)

    def empty(which):
        def f(E, cell, k, e0):
            if isinstance(cell, MList) and e0 == ():
                return which

        return f

    def macros(E, cell, k, e0):
        if cell is w.p_ and k in ("MO", "MF"):
            F = w.MO if k == "MO" else w.MF

            def at(E, t):
                at_head(E, t)
                return obj(F(t))

            return at

    def records(E, t):
        at_head(E, t)
        q = z3.Int("e!%d" % next(_ctr))
        return E.norm((Item((None, None)), Map(w.PN(t), Fn(q, (obj(w.PV(t, q)), obj(w.PI(t, q)))))))

    def pack_stack(E, cell, k, e0):
        if w.pack and isinstance(e0, MList) and len(e0.d["c"]) == 1 and isinstance(e0.d["c"][0], Item) and e0.d["c"][0].v == (None, None):
            return lambda E, t: MList(E, records(E, t))

    def changes(E, cell, k, e0):
        if w.pack and isinstance(cell, MList) and k == "c" and len(e0) == 1 and isinstance(e0[0], Item) and e0[0].v == (0, None):

            def at(E, t):
                at_head(E, t)
                return E.norm((e0[0], recorded(E, w, t)))

            return at

    def current(E, cell, k, e0):
        if w.pack and e0 is None:

            def at(E, t):
                at_head(E, t)
                return obj(w.CUR(t))

            return at

    mk(stack, True)
    mk(pack_stack, True)
    mk(changes, True)
    mk(current)
    mk(macros, True)
    def any_list(E, cell, k, e0):
        # the lines kept do not matter
        if w.pack and isinstance(cell, MList) and e0 == ():
            return TAnyList("obj")

    mk(empty(lst(w.H)))
    mk(any_list)
    mk(empty(out))
    mk(empty(lst(w.H)))
