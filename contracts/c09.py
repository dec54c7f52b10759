"""C09: conditional compilation keeps exactly the selected lines."""
from contracts.preproc import *
from contracts.preproc import _ctr

FUNCTIONS = ["CParser.preprocess"]
HARNESSES = ["lines", "nesting"]
SECS = 300
ASSUMPTIONS = [
    "the directives of the text are balanced, #define and #undef name a macro",
    "the regular expressions for directives and names of macros do what they do on the samples of contracts/preproc.py; pyparsing finds the occurrences of `defined`",
    "the value of a condition is an uninterpreted function of its text (C19), the expansion of macros one of the text and the tables of macros (C11)",
]


def lines(E):
    if E.bound is not None:
        raise Unsupported("preprocess: the contract is proved without bound or not at all")
    w = world(E)
    E.must_reach("done")
    got = outcome(E, lambda: E.call(E.wrap(CParser.preprocess), [w.p_, w.path], {}))
    E.prove(got[0] == "return", "preprocess: no exception")
    if got[0] != "return":
        return
    E.reach("done")
    ok, text = E.dict_get(w.files, w.path)
    text = E.resolve(text) if ok else None
    good = isinstance(text, Stub) and text.model is Joined
    E.prove(good, "preprocess: the lines are put together again")
    if not good:
        return
    q = z3.Int("e!%d" % next(_ctr))
    E.prove_segs_eq(text.data[1].segs, (Map(w.n, Fn(q, SV(kept(E, w, q), "str"))),), "preprocess: exactly the selected lines are kept, expanded")
    E.prove_eq(w.p_.d["MO"], obj(w.MO(w.n)), "preprocess: only selected directives change the object macros")
    E.prove_eq(w.p_.d["MF"], obj(w.MF(w.n)), "preprocess: only selected directives change the function macros")


def nesting(E):
    """The ghost machine is the one of the property: SEL(t, j) says that the
    current branch of group j is the first of its branches whose condition
    holds, or the #else when none does; TAKEN(t, j) that one of its branches
    so far has been so.  A line is kept when all groups around it have SEL."""
    w = world(E)
    SEL = z3.Function("SEL", INT, INT, BOOL)
    TAKEN = z3.Function("TAKEN", INT, INT, BOOL)
    t = E.fresh("t", "int").t
    E.assume(t >= 0)
    n = t + 1
    j, i = z3.Int("j!%d" % next(_ctr)), z3.Int("i!%d" % next(_ctr))

    def R(t):
        all_sel = lambda j: z3.ForAll([i], z3.Implies(z3.And(i >= 0, i <= j), SEL(t, i)))
        return (
            z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < w.D(t)), w.A(t, j) == all_sel(j))),
            z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < w.D(t), z3.Or(j == 0, w.A(t, j - 1))), w.H(t, j) == TAKEN(t, j))),
        )

    def P(t):
        a, b = z3.Int("a!%d" % next(_ctr)), z3.Int("b!%d" % next(_ctr))
        return z3.ForAll([a, b], z3.Implies(z3.And(a >= 0, a <= b, b < w.D(t), w.A(t, b)), w.A(t, a)))

    case = E.choose(2)
    if case == 0:
        for x in R(0) + (P(0),):
            E.prove(x, "nesting: before the first line")
        return
    # step() assumes P(t), shown here to be preserved
    for x in R(t):
        E.assume(x)
    step(E, w, t)
    isdir, d, rest, val = facts(E, w, t)
    isif, iselif, iselse, isend, *_ = kinds(isdir, d)
    D = w.D(t)
    k = E.choose(5)
    E.assume((isif, iselif, iselse, isend, z3.Not(z3.Or(isif, iselif, iselse, isend)))[k])
    top = D if k == 0 else D - 1
    old = z3.And(j >= 0, j < w.D(n), *([j != top] if k < 3 else []))
    E.assume(z3.ForAll([j], z3.Implies(old, z3.And(SEL(n, j) == SEL(t, j), TAKEN(n, j) == TAKEN(t, j)))))
    if k == 0:
        E.assume(z3.And(SEL(n, top) == val, TAKEN(n, top) == val))
    elif k == 1:
        E.assume(z3.And(SEL(n, top) == z3.And(z3.Not(TAKEN(t, top)), val), TAKEN(n, top) == z3.Or(TAKEN(t, top), val)))
    elif k == 2:
        E.assume(z3.And(SEL(n, top) == z3.Not(TAKEN(t, top)), TAKEN(n, top)))
    E.prove(P(n), "nesting: a group is selected only when those around it are")
    a, b = R(n)
    E.prove(a, "nesting: selected means first branch whose condition holds, at all levels")
    E.prove(b, "nesting: a branch has been selected")
    alls = z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < w.D(n)), SEL(n, i)))
    E.prove(act(w, n) == alls, "nesting: a line is kept when each enclosing group is in its selected branch")
