"""Path exploration, solver interface and obligations."""
import itertools
import time
import z3

from .values import *
from . import values as V
from .values import _ctr

import os

SLOW = float(os.environ.get("PYVC_SLOW", "0"))
z3.set_param("memory_max_size", 12000)


class PyRaise(Exception):
    """A Python exception of the code under verification."""

    def __init__(self, exc):
        self.exc = exc


class PathEnd(Exception):
    """The current path needs no further exploration."""


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


class ReturnEx(Exception):
    def __init__(self, v):
        self.v = v


class NeedTemplate(Unsupported):
    pass


class Enough(Exception):
    """Enough obligations failed."""


class Budget(Unsupported):
    pass


class Ctx:
    """Decisions of one exploration."""

    def __init__(self, prefix):
        self.prefix = prefix
        self.taken = []
        self.alts = []


class Obligation:
    __slots__ = ("label", "status", "detail", "secs", "solver")

    def __init__(self, label, status, detail="", secs=0.0, solver="z3"):
        self.label, self.status, self.detail, self.secs, self.solver = (
            label,
            status,
            detail,
            secs,
            solver,
        )


class Core:
    feas_ms = 400
    prove_ms = 8000
    max_paths = 4000
    max_failures = 2

    def __init__(self, bound=None, deadline=None):
        self.bound = bound
        self.deadline = deadline
        self.cells = []
        self.nreg = 0
        self.pc = []
        self.solver = z3.Solver()
        self.solver.set("timeout", self.feas_ms)
        self.solver.set("mbqi", False)
        self.ctx = Ctx([])
        self.ixctx = []
        self.fresh_c = {}
        self.obls = []
        self.quiet = 0
        self.stats = dict(queries=0, qsecs=0.0, feas=0, fsecs=0.0, paths=0)
        self.assumptions = set()
        self.functions = {}
        self.covered = {}
        self.frames = []
        self.notes = set()
        self.qcache = {}

    # --- cells -------------------------------------------------------------
    def register(self, cell):
        self.nreg += 1
        self.cells.append(cell)
        return self.nreg

    def save(self):
        return len(self.cells), [dict(c.d) for c in self.cells]

    def restore(self, snap):
        n, ds = snap
        del self.cells[n:]
        for c, d in zip(self.cells, ds):
            c.d = dict(d)

    # --- symbols -------------------------------------------------------------
    def name(self, hint):
        # numbered per hint, so that what one part of the code needs does not
        # rename the symbols of another
        n = self.fresh_c.get(hint, 0) + 1
        self.fresh_c[hint] = n
        return "%s!%d" % (hint, n)

    def fresh_t(self, hint, sort):
        nm = self.name(hint)
        if not self.ixctx:
            return z3.Const(nm, sort)
        f = z3.Function(nm, *([INT] * len(self.ixctx)), sort)
        return f(*self.ixctx)

    def fresh(self, hint, kind="obj"):
        return SV(self.fresh_t(hint, SORT[kind]), kind)

    def fresh_opq(self, hint):
        """An object known to be neither None nor a scalar."""
        return SV(U.opq(self.fresh_t(hint, O)), "obj")

    # --- conditions ------------------------------------------------------------
    def assume(self, c):
        if isinstance(c, SV):
            c = c.t
        if isinstance(c, bool):
            if c:
                return
            c = z3.BoolVal(False)
        self.pc.append(c)
        self.solver.add(c)

    def feasible(self, c):
        if self.deadline and time.time() > self.deadline:
            raise Budget("time budget exhausted")
        t0 = time.time()
        key = ("f", c.get_id(), tuple(x.get_id() for x in self.pc))
        hit = self.qcache.get(key)
        if hit is not None:
            return hit[0]
        self.solver.push()
        self.solver.add(c)
        r = self.solver.check()
        self.solver.pop()
        self.qcache[key] = (r != z3.unsat, c, list(self.pc))
        self.stats["feas"] += 1
        dt = time.time() - t0
        self.stats["fsecs"] += dt
        if SLOW and dt > SLOW:
            print("SLOW feas %.2f %s %s" % (dt, r, str(c)[:200].replace("\n", " ")), flush=True)
        return r != z3.unsat

    def decide(self, c):
        """Fork on a condition; returns a Python bool."""
        if isinstance(c, SV):
            c = c.t
        if isinstance(c, bool):
            return c
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        ctx = self.ctx
        k = len(ctx.taken)
        if k < len(ctx.prefix):
            v = ctx.prefix[k]
            ctx.taken.append(v)
            if v == 2:
                self.assume(c)
                return True
            if v == 3:
                self.assume(z3.Not(c))
                return False
            self.assume(c if v else z3.Not(c))
            return bool(v)
        if not self.feasible(c):
            ctx.taken.append(3)
            self.assume(z3.Not(c))
            return False
        if not self.feasible(z3.Not(c)):
            ctx.taken.append(2)
            self.assume(c)
            return True
        ctx.alts.append(ctx.taken + [0])
        ctx.taken.append(1)
        self.assume(c)
        return True

    def choose(self, n):
        """Nondeterministic choice among n continuations."""
        ctx = self.ctx
        k = len(ctx.taken)
        if k < len(ctx.prefix):
            v = ctx.prefix[k]
            ctx.taken.append(v)
            return v - 10
        for j in range(n - 1, 0, -1):
            ctx.alts.append(ctx.taken + [10 + j])
        ctx.taken.append(10)
        return 0

    def explore(self, thunk):
        """Run thunk once per path; returns [(conditions, outcome, state)]."""
        outs = []
        snap = self.save()
        outer_ctx, outer_n, outer_ix = self.ctx, len(self.pc), list(self.ixctx)
        frames = list(self.frames)
        fresh0 = dict(self.fresh_c)
        fresh_max = dict(fresh0)
        ctr0 = ctr_max = _ctr.n
        cands0 = len(self.cands)
        stack = [[]]
        count = 0
        try:
            while stack:
                if self.deadline and time.time() > self.deadline:
                    raise Budget("time budget exhausted")
                prefix = stack.pop()
                count += 1
                if count > self.max_paths:
                    raise Budget("too many paths")
                self.restore(snap)
                self.ctx = Ctx(prefix)
                self.solver.push()
                self.fresh_c = dict(fresh0)
                _ctr.n = ctr0
                del self.cands[cands0:]
                self.ixctx = list(outer_ix)
                self.frames = list(frames)
                try:
                    try:
                        out = ("normal", thunk())
                    except BreakEx:
                        out = ("break", None)
                    except ContinueEx:
                        out = ("normal", None)
                    except ReturnEx as r:
                        out = ("return", r.v)
                    except PyRaise as e:
                        out = ("raise", e.exc)
                    except PathEnd:
                        out = None
                    self.stats["paths"] += 1
                    stack.extend(self.ctx.alts)
                    if out is not None:
                        outs.append((self.pc[outer_n:], out, self.save_dicts()))
                finally:
                    for k_, v_ in self.fresh_c.items():
                        if v_ > fresh_max.get(k_, 0):
                            fresh_max[k_] = v_
                    ctr_max = max(ctr_max, _ctr.n)
                    del self.pc[outer_n:]
                    self.solver.pop()
        finally:
            self.ctx = outer_ctx
            self.ixctx = outer_ix
            self.frames = frames
            self.fresh_c = fresh_max
            _ctr.n = ctr_max
            self.restore(snap)
        return outs

    def save_dicts(self):
        return [(c, dict(c.d)) for c in self.cells]

    # --- obligations --------------------------------------------------------------
    def valid(self, goal, ms=None):
        """Is goal a consequence of the path condition?"""
        if isinstance(goal, SV):
            goal = goal.t
        if isinstance(goal, bool):
            if goal:
                return "ok", "", "syntactic"
            goal = z3.BoolVal(False)
        g = z3.simplify(goal)
        if z3.is_true(g):
            return "ok", "", "syntactic"
        t0 = time.time()
        total = ms or self.prove_ms
        who = "z3"
        key = ("v", bool(self.trial), total, g.get_id(), tuple(x.get_id() for x in self.pc))
        hit = self.qcache.get(key)
        if hit is not None:
            return hit[0]
        res = self.valid_(g, total, t0)
        self.qcache[key] = (res, g, list(self.pc))
        return res

    def entails(self, goal):
        """Quick attempt at a proof; when it succeeds the answer is kept."""
        g = z3.simplify(goal)
        if z3.is_true(g):
            return True
        ids = tuple(x.get_id() for x in self.pc)
        key = ("e", g.get_id(), ids)
        hit = self.qcache.get(key)
        if hit is not None:
            return hit[0]
        t0 = time.time()
        s = z3.Solver()
        s.set("timeout", 1000)
        s.set("mbqi", False)
        for c in self.pc:
            s.add(c)
        s.add(z3.Not(g))
        ok = s.check() == z3.unsat
        keep = list(self.pc)
        self.qcache[key] = (ok, g, keep)
        if ok:
            for tr in (True, False):
                self.qcache[("v", tr, self.prove_ms, g.get_id(), ids)] = (("ok", "", "z3"), g, keep)
        self.stats["qsecs"] += time.time() - t0
        self.stats["queries"] += 1
        return ok

    def valid_(self, g, total, t0):
        who = "z3"

        def ask(mbqi, ms, seed=0):
            s = z3.Solver()
            s.set("timeout", int(ms))
            s.set("mbqi", mbqi)
            if seed:
                s.set("random_seed", seed)
            for c in self.pc:
                s.add(c)
            s.add(z3.Not(g))
            return s, s.check()

        # E-matching alone proves; model-based instantiation also refutes
        s, r = ask(False, total / 2)
        if r == z3.unknown and not self.trial:
            if cvc5_check(self.pc + [z3.Not(g)], 2000, "--enum-inst") == "unsat":
                r = z3.unsat
                who = "cvc5"
        if r == z3.unknown:
            s, r = ask(True, 1000 if self.trial else total / 2)
        if r == z3.unknown and not self.trial:
            s, r = ask(True, total / 2, 7)
        if r == z3.unknown and not self.trial:
            r2 = cvc5_check(self.pc + [z3.Not(g)], total)
            if r2 == "unsat":
                r = z3.unsat
                who = "cvc5"
        self.stats["queries"] += 1
        self.stats["qsecs"] += time.time() - t0
        if SLOW and time.time() - t0 > SLOW:
            print("SLOW prove %.2f %s %s" % (time.time() - t0, r, str(g)[:300].replace("\n", " ")), flush=True)
        if r == z3.unsat:
            return "ok", "", who
        if r == z3.sat:
            return "refuted", str(s.model())[:4000], who
        return "unknown", "solver gave up: " + s.reason_unknown(), who

    def prove(self, goal, label):
        """Discharge one obligation on the current path."""
        if self.quiet:
            return True
        t0 = time.time()
        st, detail, who = self.valid(goal)
        if st != "ok":
            detail = "goal: %s\npath: %s\nmodel/reason: %s" % (
                z3.simplify(goal.t if isinstance(goal, SV) else goal)
                if not isinstance(goal, bool)
                else goal,
                "; ".join(str(c).replace("\n", " ")[:300] for c in self.pc[-25:]),
                detail,
            )
        self.record(Obligation(label, st, detail, time.time() - t0, who))
        return st == "ok"

    def record(self, o):
        self.obls.append(o)
        if o.status != "ok" and not self.trial and not self.loop_stack:
            if len([x for x in self.obls if x.status != "ok"]) >= self.max_failures:
                raise Enough()

    def fail(self, label, why):
        """An obligation that fails unless the path is infeasible."""
        if self.quiet:
            return
        st, detail, who = self.valid(z3.BoolVal(False))
        self.record(
            Obligation(
                label,
                st if st == "ok" else "refuted" if st == "refuted" else "unknown",
                why + "\n" + detail,
                solver=who,
            )
        )

    def sub(self, thunk):
        """Explore thunk (which proves things) without affecting this path."""
        self.explore(thunk)

    def holds(self, thunk):
        """Do all obligations of thunk hold? (none is recorded unless so)"""
        keep, self.obls = self.obls, []
        q, self.quiet = self.quiet, 0
        self.trial += 1
        try:
            try:
                self.explore(thunk)
            except PyRaise as e:
                self.obls.append(Obligation("raise", "unknown", repr(e.exc)))
            res = self.obls
        finally:
            self.obls, self.quiet = keep, q
            self.trial -= 1
        bad = [o for o in res if o.status != "ok"]
        if bad:
            return False, bad
        return True, res


def cvc5_check(assertions, ms, *opts):
    """Ask cvc5 for a second opinion on a query z3 could not decide."""
    import subprocess, tempfile, os

    s = z3.Solver()
    for a in assertions:
        s.add(a)
    txt = "(set-logic ALL)\n" + s.to_smt2()
    fd, p = tempfile.mkstemp(suffix=".smt2")
    try:
        with os.fdopen(fd, "w") as f:
            f.write(txt)
        r = subprocess.run(
            ["cvc5", "--strings-exp", "--tlimit=%d" % ms, *opts, p],
            capture_output=True,
            text=True,
            timeout=ms / 1000 + 5,
        )
        return r.stdout.strip().split("\n")[0] if r.stdout else "unknown"
    except Exception:
        return "unknown"
    finally:
        os.unlink(p)
