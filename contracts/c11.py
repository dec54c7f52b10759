"""C11: macros expand to their text, and nothing else in the line changes.

A line is a text T in which only positions matter: SUB(a, b) is the part
between two positions, SUF(a) the rest.  The regular expression that looks for
names and literals is recognised by what it does (compared with a scanner on
all texts up to 5 characters), and is then described by functions of the
position p from which it is searched: FOUND(p), and the next literal or word
from TS(p) to TE(p), WORD(p) telling which.

Ghost: P(t) is the position in the line after t steps, PIECE(t) what step t
adds to the result, ACC(t) all that was added so far."""
import itertools
import re

from contracts import c09
from contracts.c14 import tokens
from contracts.preproc import Holder, obj
from pyvc.sym import *
from pyvc.interp import Splat
from pyvc.values import _ctr
from pyclibrary import c_parser
from pyclibrary.c_parser import CParser, DefinitionError

FUNCTIONS = ["CParser.expand_macros", "CParser.expand_fn_macro", "CParser.compile_fn_macro", "CParser.process_macro_defn", "CParser.preprocess"]
HARNESSES = ["line", "call", "compiled", "registered", "directives"]
SECS = 600
ASSUMPTIONS = [
    "the regular expressions find what they find in the texts of up to 5 characters on which they are tried",
    "expanding a macro call: str.format replaces the fields {} by its arguments in order and {{, }} by braces",
    "str.split, strip, replace and join are functions of their arguments; the parts between positions of a text put together are the text between them",
    "pyparsing finds the name, the parameters and the text in a #define (exercised by the oracle)",
    "the directives of the text are balanced, #define and #undef name a macro",
]


# --- regular expressions --------------------------------------------------------


def token_at(text, i):
    c = text[i]
    if c in "\"'":
        j = i + 1
        while j < len(text) and text[j] != c:
            j += 2 if text[j] == "\\" else 1
        if j < len(text):
            return "literal", j + 1
        return "other", i + 1
    if c.isalnum() or c == "_":
        j = i
        while j < len(text) and (text[j].isalnum() or text[j] == "_"):
            j += 1
        return "word", j
    return "other", i + 1


def scan(text, accept):
    """The literals and the accepted words, with their positions."""
    i = 0
    while i < len(text):
        kind, j = token_at(text, i)
        if kind == "literal" or kind == "word" and accept(text[i:j]):
            yield kind, i, j
        i = j


def small_texts():
    for n in range(6):
        for cs in itertools.product("a_\"'\\ +" if n > 4 else "ab_\"'\\ +1", repeat=n):
            yield "".join(cs)
    yield from ("a \"a\\\"a\" 'a' aa a.a", "xa ax a-b-ab 1a a1 \"b\" b'\\''b", "F(a, b) L\"a\" {a} %a", "\\a \\\"a\\\" '\"' a")


_roles = {}


def groups_of(pattern, accept, key):
    """Which groups hold the literal, which ones the word: {group: kind}."""
    if (pattern, key) in _roles:
        return _roles[pattern, key]
    try:
        r = re.compile(pattern)
    except re.error:
        raise Unsupported("regular expression %r" % pattern)
    kinds = {g: {"literal", "word"} for g in range(1, r.groups + 1)}
    for text in small_texts():
        want = list(scan(text, accept))
        got = list(r.finditer(text))
        if [(a, b) for _, a, b in want] != [m.span() for m in got]:
            raise Unsupported("regular expression %r: %r in %r" % (pattern, [m.group() for m in got], text))
        for (kind, a, b), m in zip(want, got):
            for g in kinds:
                span = m.span(g)
                kinds[g] = {k for k in kinds[g] if span == ((a, b) if k == kind else (-1, -1))}
    res = {g: next(iter(k)) for g, k in kinds.items() if len(k) == 1}
    res[0] = "all"
    res["n"] = r.groups
    _roles[pattern, key] = res
    return res


class Regex:
    @staticmethod
    def attr(E, o, name):
        return BuiltinMethod(o, name)

    @staticmethod
    def truth(E, o):
        return True

    @staticmethod
    def m_search(E, o, a, k):
        w, groups, params = o.data
        if params:
            raise Unsupported("search for parameters")
        base = position(E, w, a[0])
        p = base if len(a) < 2 else simp(base + I(E.resolve(a[1])))
        if not E.decide(w.FOUND(p)):
            return None
        return Stub(E, Match, w, groups, base, w.TS(p), w.TE(p), w.WORD(p))

    @staticmethod
    def m_finditer(E, o, a, k):
        w, groups, params = o.data
        if not params:
            raise Unsupported("finditer")
        base = position(E, w, a[0])
        E.prove(base == 0, "the whole text is searched for parameters")
        q = z3.Int("e!%d" % next(_ctr))
        return GenVal((Map(w.M, Fn(q, Stub(E, Match, w, groups, base, w.MS(q), w.ME(q), w.ISARG(q)))),))


class Match:
    """data: w, kinds of the groups, the position from which positions count,
    start, end, is it a word?"""

    @staticmethod
    def attr(E, o, name):
        return BuiltinMethod(o, name)

    @staticmethod
    def truth(E, o):
        return True

    @staticmethod
    def _set(E, o, g):
        w, groups, base, a, b, word = o.data
        g = E.resolve(g)
        if g not in groups or g == "n":
            raise Unsupported("group %r" % (g,))
        if groups[g] == "all":
            return True
        return bool(E.decide(word)) == (groups[g] == "word")

    @staticmethod
    def m_start(E, o, a, k):
        if not Match._set(E, o, a[0] if a else 0):
            return -1
        return SV(simp(o.data[3] - o.data[2]), "int")

    @staticmethod
    def m_end(E, o, a, k):
        if not Match._set(E, o, a[0] if a else 0):
            return -1
        return SV(simp(o.data[4] - o.data[2]), "int")

    @staticmethod
    def m_span(E, o, a, k):
        return (Match.m_start(E, o, a, k), Match.m_end(E, o, a, k))

    @staticmethod
    def _get(E, o, g):
        w, groups, base, a, b, word = o.data
        if not Match._set(E, o, g):
            return None
        return SV(w.SUB(a, b), "str")

    @staticmethod
    def m_group(E, o, a, k):
        r = tuple(Match._get(E, o, g) for g in (a or [0]))
        return r[0] if len(r) == 1 else r

    @staticmethod
    def m_groups(E, o, a, k):
        groups = o.data[1]
        return tuple(Match._get(E, o, g) if g in groups else E.fresh("group") for g in range(1, groups["n"] + 1))

    @staticmethod
    def getitem(E, o, g):
        return Match._get(E, o, g)


# --- texts and positions ---------------------------------------------------------


class W:
    def __deepcopy__(self, memo):
        return self


def texts(E):
    if E.bound is not None:
        # the ghost is made for lines of any length
        raise Unsupported("lines of bounded length")
    w = W()
    w.SUB = z3.Function("SUB", INT, INT, STR)
    w.SUF = z3.Function("SUF", INT, STR)
    E.models["strslice"] = (None, lambda E, s, lo, hi: cut(E, w, s, lo, hi))
    return w


def position(E, w, s):
    """p of SUF(p)"""
    s = E.resolve(s)
    if isinstance(s, SV) and z3.is_app(s.t) and s.t.decl().eq(w.SUF):
        return s.t.arg(0)
    raise Unsupported("the text %r" % (s,))


def cut(E, w, s, lo, hi):
    if not (isinstance(s, SV) and z3.is_app(s.t) and s.t.decl().eq(w.SUF)):
        return None
    p = s.t.arg(0)
    for x in (lo, hi):
        if isinstance(x, int) and x < 0:
            raise Unsupported("position from the end")
        if isinstance(x, SV):
            E.prove(x.t >= 0, "positions in a text count from its start")
    a = simp(p + (0 if lo is None else I(lo)))
    if hi is None:
        return SV(w.SUF(a), "str")
    return SV(w.SUB(a, simp(p + I(hi))), "str")


def str_of(E, v):
    """The z3 string of a value that is a string."""
    v = E.resolve(v)
    if E.kind(v) != "str":
        E.fail("the parts of the text are strings", repr(v))
        raise PathEnd()
    return E.lift(v)


def joined(E, v):
    """What "".join of these makes (as one term)"""
    ts = [str_of(E, x) for x in v]
    return z3.Concat(z3.StringVal(""), *ts) if ts else z3.StringVal("")


# --- expand_macros ---------------------------------------------------------------


def tables(E, w):
    d = MDict(E)
    w.mac = symdict(E, "macros", vkind="str")
    w.fn = symdict(E, "fnmacros")
    w.isobj, w.text = w.mac.d["c"][0].has, lambda k: w.mac.d["c"][0].val(k).t
    w.isfn = w.fn.d["c"][0].has
    for k, v in (("values", symdict(E, "values")), ("fnmacros", w.fn), ("macros", w.mac)):
        E.dict_set(d, k, v)
    w.p = SObj(E, CParser, dict(defs=d, current_file=E.fresh("file", "str")))


def compile_model(E, w, params=None):
    def f(E, a, k):
        pat = E.resolve(a[0])
        if len(a) > 1 or k:
            raise Unsupported("flags of a regular expression")
        if isinstance(pat, str):
            return Stub(E, Regex, w, groups_of(pat, lambda x: True, None), False)
        if params:
            return params(E, pat)
        raise Unsupported("regular expression")

    E.model(re.compile, f)


def line(E):
    w = texts(E)
    tables(E, w)
    compile_model(E, w)
    w.FOUND, w.WORD = [z3.Function(x, INT, BOOL) for x in ("FOUND", "WORD")]
    w.TS, w.TE, w.P = [z3.Function(x, INT, INT) for x in ("TS", "TE", "P")]
    w.PIECE, w.ACC = [z3.Function(x, INT, STR) for x in ("PIECE", "ACC")]
    OK = z3.Function("CALL_OK", STR, INT, BOOL)
    OUT = z3.Function("CALL_TEXT", STR, INT, STR)
    END = z3.Function("CALL_END", STR, INT, INT)
    E.assume(z3.And(w.P(0) == 0, w.ACC(0) == z3.StringVal("")))

    def step(t):
        """The ghost makes step t."""
        mark = z3.Bool("read!%s" % t.sexpr())
        if any(z3.eq(x, mark) for x in E.pc):
            return
        E.assume(mark)
        p = w.P(t)
        a, b = w.TS(p), w.TE(p)
        E.assume(z3.And(p >= 0, p <= a, a < b))
        name = w.SUB(a, b)
        # parts put together
        E.assume(z3.Concat(w.SUB(p, a), name) == w.SUB(p, b))
        # established by process_macro_defn (harness registered)
        E.assume(z3.Not(z3.And(w.isobj(name), w.isfn(name))))
        E.assume(END(name, b) >= b)
        isobj = z3.And(w.WORD(p), w.isobj(name))
        iscall = z3.And(w.WORD(p), w.isfn(name), OK(name, b))
        E.assume(w.PIECE(t) == z3.If(isobj, z3.Concat(w.SUB(p, a), w.text(name)), z3.If(iscall, z3.Concat(w.SUB(p, a), OUT(name, b)), w.SUB(p, b))))
        E.assume(w.P(t + 1) == z3.If(iscall, END(name, b), b))
        E.assume(w.ACC(t + 1) == z3.Concat(w.ACC(t), w.PIECE(t)))

    def expand_call(E, a, k):
        name, text = E.resolve(a[1]), E.resolve(a[2])
        p = position(E, w, text)
        E.prove(w.isfn(E.lift(name)), "expand_fn_macro is used for function macros")
        n = E.lift(name)
        if not E.decide(OK(n, p)):
            if E.decide(E.app("few_args", [name, SV(p, "int")], "bool").t):
                E.py_raise(IndexError, "list index out of range")
            E.py_raise(DefinitionError, "no arguments")
        return (SV(OUT(n, p), "str"), SV(w.SUF(END(n, p)), "str"))

    E.contract(CParser.expand_fn_macro, expand_call)

    def factory(E, cell, k, e0):
        f = None
        if isinstance(e0, SV) and e0.k == "str" and z3.eq(e0.t, w.SUF(z3.IntVal(0))):
            f = lambda t: SV(w.SUF(w.P(t)), "str")
        elif E.kind(e0) == "int" and not isinstance(e0, SV) and e0 == 0:
            f = lambda t: SV(w.P(t), "int")
        elif isinstance(e0, str) and e0 == "":
            f = lambda t: SV(w.ACC(t), "str")
        if f is None:
            return None

        def at(E, t):
            st = E.loop_stack
            if st and z3.eq(simp(st[-1][1]), simp(t)):
                step(t)
            return f(t) if not z3.eq(simp(t), z3.IntVal(0)) else e0

        return at

    def cand():
        pass

    cand.factory = factory
    cand.eager = True
    E.cands[:] = [cand]

    def join(E, o, segs):
        if o != "":
            return None
        if not segs or isinstance(segs[0], Item):
            return None
        sg, rest = segs[0], segs[1:]
        if not all(isinstance(x, Item) for x in rest):
            raise Unsupported("parts of a line")
        if E.choose(2):
            q = z3.Int(E.name("q"))
            E.mark_index(q)
            E.assume(z3.And(q >= 0, q < I(sg.n)))
            step(q)
            v = E.resolve(sg.fn(q))
            v = list(v) if isinstance(sg, FMap) else [v]
            E.prove(joined(E, v) == w.PIECE(q), "expand_macros: what a step adds to the line")
            raise PathEnd()
        return SV(simp(z3.Concat(w.ACC(I(sg.n)), joined(E, [x.v for x in rest]))), "str")

    E.models["strjoin"] = (None, join)
    E.must_reach("done")
    got = outcome(E, lambda: E.call(E.wrap(CParser.expand_macros), [w.p, SV(w.SUF(z3.IntVal(0)), "str")], {}))
    E.prove(got[0] == "return", "expand_macros: no exception")
    if got[0] != "return":
        return
    E.reach("done")
    t = str_of(E, got[1])
    ends = [z3.And(t == z3.Concat(w.ACC(n), w.SUF(w.P(n))), z3.Not(w.FOUND(w.P(n)))) for n in arguments(t, w.ACC) + [z3.IntVal(0)]]
    E.prove(z3.Or(*ends), "expand_macros: the steps and the rest of the line make the result")


def arguments(t, f):
    out, todo, seen = [], [t], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.decl().eq(f):
                out.append(x.arg(0))
            todo.extend(x.children())
    return out


# --- expand_fn_macro --------------------------------------------------------------


def call(E):
    """The text after the name of a function macro."""
    w = W()
    name, text = E.fresh("name", "str"), E.fresh("text", "str")
    order = z3.Function("ORDER", INT, INT)
    n = z3.Int(E.name("uses"))
    E.assume(n >= 0)
    if E.bound is not None:
        c = E.choose(E.bound + 1)
        E.assume(n == c)
        n = z3.IntVal(c)
    q = z3.Int("e!%d" % next(_ctr))
    E.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < n), order(q) >= 0), patterns=[order(q)]))
    template = E.fresh("template", "str")
    q = z3.Int("e!%d" % next(_ctr))
    fn = MDict(E)
    E.dict_set(fn, name, (template, MList(E, E.norm((Map(n, Fn(q, SV(order(q), "int"))),)))))
    d = MDict(E)
    E.dict_set(d, "fnmacros", fn)
    p = SObj(E, CParser, dict(defs=d))
    E.contract(CParser.expand_macros, lambda E, a, k: E.app("expanded", [E.resolve(a[1])], "str"))
    # the specification
    has = lambda s, c: E.app("has_sep", [s, c], "bool").t
    inside, after = E.app("before_sep", [text, ")"], "str"), E.app("after_sep", [text, ")"], "str")
    before, args = E.app("before_sep", [inside, "("], "str"), E.app("after_sep", [inside, "("], "str")
    nargs = E.app("split1_n", [args, ","], "int").t
    arg = lambda j: SV(z3.Function("split1_e", STR, STR, INT, STR)(args.t, z3.StringVal(","), j), "str")
    E.assume(nargs >= 1)
    use = lambda j: E.app("expanded", [E.app("s_strip", [arg(order(j))], "str")], "str")
    isopen = z3.And(has(text, ")"), has(inside, "("), E.app("s_strip", [before], "str").t == z3.StringVal(""))
    q = z3.Int("e!%d" % next(_ctr))
    enough = z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < n), order(q) < nargs), patterns=[order(q)])
    result = E.fresh("filled", "str")

    def fmt(E, o, a, k):
        o = E.resolve(o)
        if isinstance(o, str):
            return None
        segs = []
        for x in a:
            segs.extend(x.segs if isinstance(x, Splat) else [Item(x)])
        E.prove_eq(o, template, "expand_fn_macro: the template of the macro is filled in")
        q = z3.Int("e!%d" % next(_ctr))
        E.prove_segs_eq(E.norm(tuple(segs)), (Map(n, Fn(q, use(q))),), "expand_fn_macro: every parameter is replaced by its argument, expanded")
        E.assume(result.t == result.t)
        return result

    E.models["strformat"] = (None, fmt)
    E.must_reach("done", "left alone")
    got = outcome(E, lambda: E.call(E.wrap(CParser.expand_fn_macro), [p, name, text], {}))
    if got[0] == "raise":
        E.reach("left alone")
        E.prove(z3.Not(z3.And(isopen, enough)), "expand_fn_macro: only calls without (enough) arguments are refused")
        return
    E.reach("done")
    E.prove(z3.And(isopen, enough), "expand_fn_macro: calls without (enough) arguments are refused")
    E.prove_eq(got[1], (result, after), "expand_fn_macro: the text that replaces the call, and what follows")


# --- compile_fn_macro -------------------------------------------------------------


PARAMS = [("a",), ("ab",), ("a", "b"), ("ab", "a"), ("a", "ab"), ("_", "a1"), ()]


def compiled(E):
    w = texts(E)
    args = mlist(E, "params", fn_elem(E, "param", "str"))
    segs = content(args)
    nargs = E.seg_len(segs[0]) if E.bound is None else z3.IntVal(len(segs))
    alternatives = E.fresh("alternatives", "str")
    E.assume((alternatives.t == z3.StringVal("")) == (nargs == 0))
    w.M = z3.Int(E.name("occurrences"))
    E.assume(w.M >= 0)
    if E.bound is not None:
        c = E.choose(E.bound + 1)
        E.assume(w.M == c)
        w.M = z3.IntVal(c)
    w.MS, w.ME, w.ST, w.WHICH = [z3.Function(x, INT, INT) for x in ("MS", "ME", "ST", "WHICH")]
    w.ISARG = z3.Function("ISARG", INT, BOOL)
    none = bool(E.decide(nargs == 0))
    if none:
        w.ISARG, w.ST = lambda t: z3.BoolVal(False), lambda t: z3.IntVal(0)
    E.assume(w.ST(0) == 0)
    which = lambda t: simp(w.WHICH(t))
    elem = lambda j: E.lift(E.resolve(E.nth_choice(segs, j)))

    def step(t):
        mark = z3.Bool("read!%s" % t.sexpr())
        if any(z3.eq(x, mark) for x in E.pc):
            return
        E.assume(mark)
        E.assume(w.ST(t + 1) == z3.If(w.ISARG(t), w.ME(t), w.ST(t)))
        E.assume(z3.And(w.ST(t) >= 0, w.ST(t) <= w.MS(t), w.MS(t) < w.ME(t)))
        # an occurrence is one of the parameters: the first that has that name
        E.assume(z3.Implies(w.ISARG(t), z3.And(w.WHICH(t) >= 0, w.WHICH(t) < nargs)))
        if E.bound is None:
            E.assume(z3.Implies(w.ISARG(t), w.SUB(w.MS(t), w.ME(t)) == elem(which(t))))
        else:
            E.assume(z3.Implies(w.ISARG(t), z3.Or(*[z3.And(w.WHICH(t) == j, w.SUB(w.MS(t), w.ME(t)) == E.lift(s.v)) for j, s in enumerate(segs)])))

    # the names of the parameters are different
    if E.bound is None:
        a, b = z3.Int("a!%d" % next(_ctr)), z3.Int("b!%d" % next(_ctr))
        ea, eb = elem(a), elem(b)
        E.assume(z3.ForAll([a, b], z3.Implies(z3.And(a >= 0, b >= 0, a < nargs, b < nargs, ea == eb), a == b), patterns=[z3.MultiPattern(ea, eb)]))
    elif len(segs) > 1:
        E.assume(z3.Distinct(*[E.lift(s.v) for s in segs]))

    def regex(E, pat):
        """The text of the expression around the alternatives"""
        parts = [pat.t] if pat.t.decl().kind() != z3.Z3_OP_SEQ_CONCAT else list(flat(pat.t))
        alt = [j for j, x in enumerate(parts) if not z3.is_string_value(x)]
        if len(alt) != 1 or not z3.eq(parts[alt[0]], alternatives.t):
            raise Unsupported("regular expression %s" % pat.t)
        pre, post = ["".join(x.as_string() for x in ps) for ps in (parts[: alt[0]], parts[alt[0] + 1 :])]
        res = None
        for ps in PARAMS:
            if bool(ps) == none:
                continue
            res = groups_of(pre + "|".join(ps) + post, lambda x: x in ps, ps)
        return Stub(E, Regex, w, res, True)

    def flat(t):
        if t.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
            for c in t.children():
                yield from flat(c)
        else:
            yield t

    def join(E, o, got):
        if o == "|":
            E.prove_segs_eq(got, segs, "compile_fn_macro: it looks for the parameters")
            return alternatives
        if o == "":
            return Stub(E, JoinedParts, Holder(got))

    def model(E, a, k):
        pat = E.resolve(a[0])
        if isinstance(pat, str):
            # no parameters: only literals are found
            E.prove(nargs == 0, "compile_fn_macro: it looks for the parameters")
            return Stub(E, Regex, w, groups_of(pat, lambda x: False, ()), True)
        return regex(E, pat)

    E.model(re.compile, model)
    E.models["strjoin"] = (None, join)

    def factory(E, cell, k, e0):
        if E.kind(e0) != "int" or isinstance(e0, SV) or e0 != 0:
            return None

        def at(E, t):
            st = E.loop_stack
            if st and z3.eq(simp(st[-1][1]), simp(t)):
                step(t)
            return SV(w.ST(t), "int") if not z3.eq(simp(t), z3.IntVal(0)) else 0

        return at

    def cand():
        pass

    cand.factory = factory
    cand.eager = True
    E.cands[:] = [cand]
    p = SObj(E, CParser, {})
    E.must_reach("done")
    got = outcome(E, lambda: E.call(E.wrap(CParser.compile_fn_macro), [p, SV(w.SUF(z3.IntVal(0)), "str"), args], {}))
    E.prove(got[0] == "return", "compile_fn_macro: no exception")
    if got[0] != "return":
        return
    E.reach("done")
    r = E.resolve(got[1])
    pair = E.iter_segs(r) if isinstance(r, (tuple, PTuple)) else ()
    E.prove(len(pair) == 2, "compile_fn_macro: a template and the order of the arguments")
    if len(pair) != 2:
        return
    template, order = [E.resolve(x.v) for x in pair]
    esc = lambda s: E.app("s_replace", [E.app("s_replace", [s, "{", "{{"], "str"), "}", "}}"], "str")
    q = z3.Int("e!%d" % next(_ctr))
    gap = z3.Concat(esc(SV(w.SUB(w.ST(q), w.MS(q)), "str")).t, z3.StringVal("{}"))
    found = lambda v: () if none else (FMap(w.M, Fn(q, Choice([(w.ISARG(q), (v,)), (z3.Not(w.ISARG(q)), ())]))),)
    good = isinstance(template, Stub) and template.model is JoinedParts
    E.prove(good, "compile_fn_macro: the template is made of parts")
    if not good:
        return
    want = E.norm(found(SV(gap, "str")) + (Item(esc(SV(w.SUF(w.ST(w.M)), "str"))),))
    E.prove_segs_eq(template.data[0].segs, want, "compile_fn_macro: the text with {} in the place of every parameter, nothing else changed")
    E.prove_segs_eq(E.iter_segs(order), E.norm(found(SV(w.WHICH(q), "int"))), "compile_fn_macro: which parameter is in which place")


class JoinedParts:
    @staticmethod
    def attr(E, o, name):
        return BuiltinMethod(o, name)

    @staticmethod
    def truth(E, o):
        raise Unsupported("truth of a template")


# --- process_macro_defn -----------------------------------------------------------


def registered(E):
    w = W()
    tables(E, w)
    p, d = w.p, w.p.d["defs"]
    names = ("macros", "fnmacros", "values")
    tabs = {k: E.dict_get(d, k)[1] for k in names}

    def add(E, a, k):
        typ, name, val = [E.resolve(x) for x in a[1:]]
        if typ not in tabs:
            raise Unsupported("add_def(%r)" % (typ,))
        E.dict_set(tabs[typ], name, val)

    def rem(E, a, k):
        typ, name = [E.resolve(x) for x in a[1:]]
        if typ not in tabs:
            raise Unsupported("rem_def(%r)" % (typ,))
        if not E.dict_get(tabs[typ], name)[0]:
            E.py_raise(KeyError, name)
        E.dict_del(tabs[typ], name)

    E.contract(CParser.add_def, add)
    E.contract(CParser.rem_def, rem)
    E.contract(CParser.eval_expr, lambda E, a, k: E.app("evaluated", [E.resolve(a[1])]))
    comp = lambda text, args: E.app("compiled", [text, E.mk_tuple(E.iter_segs(args))])
    E.contract(CParser.compile_fn_macro, lambda E, a, k: comp(E.resolve(a[1]), E.resolve(a[2])))
    name, value, other = E.fresh("name", "str"), E.fresh("value", "str"), E.fresh("other", "str")
    body = E.app("s_strip", [value], "str")
    # a name is not in both tables
    for x in (name, body, other):
        E.assume(z3.Not(z3.And(w.isobj(x.t), w.isfn(x.t))))
    params = seq(E, "params", fn_elem(E, "param", "str"))
    has_args = bool(E.choose(2))
    t = dict(macro=name, value=value)
    if has_args:
        t["args"] = MList(E, params)
    snap = {k: tabs[k].d["c"] for k in names}
    old = lambda k, key: _get(E, snap[k], key)
    before = {k: old(k, other) for k in names}
    copied = None
    if not has_args:
        alias = bool(E.decide(w.isfn(body.t)))
        if alias:
            copied = old("fnmacros", body)[1]
    E.must_reach("done")
    got = outcome(E, lambda: E.call(E.wrap(CParser.process_macro_defn), [p, tokens(E, [], **t)], {}))
    E.prove(got[0] == "return", "process_macro_defn: no exception")
    if got[0] != "return":
        return
    E.reach("done")
    now = lambda k, key: E.dict_get(tabs[k], key)
    if has_args:
        want = {"fnmacros": comp(body, MList(E, params))}
    elif alias:
        want = {"fnmacros": copied}
    else:
        want = {"macros": body, "values": E.app("evaluated", [body])}
    for k in ("macros", "fnmacros"):
        ok, v = now(k, name)
        E.prove(ok == (k in want), "process_macro_defn: the name is now in the table of its kind only")
        if ok and k in want:
            E.prove_eq(v, want[k], "process_macro_defn: the macro has the text of this definition")
    if "values" in want:
        ok, v = now("values", name)
        E.prove(ok, "process_macro_defn: the value of an object macro is recorded")
        if ok:
            E.prove_eq(v, want["values"], "process_macro_defn: the value of an object macro is recorded")
    if E.truth(E.py_eq(other, name)):
        return
    for k in names:
        ok, v = now(k, other)
        E.prove(ok == before[k][0], "process_macro_defn: other names are not touched")
        if ok and before[k][0]:
            E.prove_eq(v, before[k][1], "process_macro_defn: other names are not touched")


def _get(E, cont, key):
    d = MDict(E)
    d.d["c"] = cont
    return E.dict_get(d, key)


def directives(E):
    """#define and #undef reach the tables, in order, from selected lines only,
    and the lines are expanded with the tables at that point."""
    c09.lines(E)
