"""C10: each struct gets the packing in force at its line."""
from contracts import c14
from contracts.preproc import *
from contracts.preproc import _ctr

FUNCTIONS = ["CParser.preprocess", "CParser.packing_at", "CParser.process_struct"]
HARNESSES = ["pragmas", "packing_at", "recorded_with"]
SECS = 600
ASSUMPTIONS = [
    "the directives of the text are balanced, #define and #undef name a macro",
    "the text of pack() is one of the documented forms, or one other word",
    "the regular expressions do what they do on the samples of contracts/preproc.py",
]


def pragmas(E):
    if E.bound is not None:
        raise Unsupported("preprocess: the contract is proved without bound or not at all")
    w = world(E, pack=True)
    E.must_reach("done")
    got = outcome(E, lambda: E.call(E.wrap(CParser.preprocess), [w.p_, w.path], {}))
    E.prove(got[0] == "return", "preprocess: no exception")
    if got[0] != "return":
        return
    E.reach("done")
    ok, lst = E.dict_get(w.p_.d["pack_list"], w.path)
    E.prove(ok, "preprocess: the changes of the packing are recorded")
    if not ok:
        return
    E.prove_segs_eq(E.iter_segs(E.resolve(lst)), (Item((0, None)), recorded(E, w, w.n)), "preprocess: the recorded changes of the packing")


def packing_at(E):
    w = world(E, pack=True)
    line = E.fresh("line", "int")
    E.assume(z3.And(line.t >= 1, line.t <= w.n))
    E.dict_set(w.p_.d["pack_list"], w.p_.d["current_file"], MList(E, E.norm((Item((0, None)), recorded(E, w, w.n)))))

    def found(E, cell, k, e0):
        if e0 is None:

            def at(E, t):
                st = E.loop_stack
                if st and z3.eq(simp(st[-1][1]), simp(t)):
                    step(E, w, t)
                return obj(w.CUR(z3.If(t < line.t, t, line.t)))

            return at

    def cand():
        pass

    cand.factory = found
    E.cands[:] = [cand]
    E.must_reach("done")
    got = outcome(E, lambda: E.call(E.wrap(CParser.packing_at), [w.p_, line], {}))
    E.prove(got[0] == "return", "packing_at: no exception")
    if got[0] != "return":
        return
    E.reach("done")
    E.prove_eq(got[1], obj(w.CUR(line.t)), "packing_at: what the last change before the line has set")


def recorded_with(E):
    """A struct is recorded with the packing at its line."""
    p, kind, tables, calls = c14.struct_world(E)
    E.model(c_parser.lineno, lambda E, a, k: E.app("line_number", [E.resolve(x) for x in a], "int"))
    name, src, loc = E.fresh("name", "str"), E.fresh("s", "str"), E.fresh("loc", "int")
    E.assume(name.t != "")
    member = lambda: Item(c14.tokens(E, [c14.tokens(E, [], type=c14.tokens(E, [E.fresh("mt", "str")]))]))
    d = dict(struct_type=kind, members=MList(E, [member() for _ in range(1 + E.choose(2))]))
    if E.choose(2):
        d["name"] = name
    E.must_reach("done")
    got = outcome(E, lambda: E.call(E.wrap(CParser.process_struct), [p, src, loc, c14.tokens(E, [], **d)], {}))
    E.prove(got[0] == "return", "struct: no exception")
    cs = [E.resolve(x.v) for x in calls.d["c"]]
    defs_ = [c for c in cs if c[0] == kind + "s"]
    E.prove(len(defs_) == 1, "struct: one definition is recorded")
    for c in defs_:
        E.reach("done")
        want = E.app("packing", [E.app("line_number", [loc, src], "int")])
        E.prove_eq(E.getitem(E.resolve(c[2]), "pack"), want, "struct: recorded with the packing at its line")
