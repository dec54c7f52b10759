"""Tests of the engine on generated functions.

selftest.py [SEED [N]]   for each of N random functions f over a list of any
length and two integers, and a variant g of it (a rewriting that keeps the
meaning, or one with one thing changed):
 - concretely: what the engine computes is what CPython computes;
 - symbolically: if the engine accepts f = g for all arguments, no arguments of
   many tried in CPython tell them apart (soundness); if it gives a
   counterexample, it says so only when some do (reported apart, as the
   arguments tried may be too few).
It exits with 1 if the engine accepted something wrong or computed something
else than CPython."""
import importlib.util
import itertools
import os
import random
import sys
import tempfile

if __name__ == "__main__":
    from pyvc import driver

    driver.setup_path()


class Gen:
    def __init__(self, rng):
        self.rng = rng

    def num(self, vs):
        r = self.rng
        k = r.randrange(7)
        if k < 3:
            return r.choice(vs)
        if k == 3:
            return str(r.choice([0, 1, 2, -1]))
        if k == 4:
            return "(%s %s %s)" % (r.choice(vs), r.choice(["+", "-"]), r.choice(vs + ["1"]))
        if k == 5:
            return "(%s if %s else %s)" % (r.choice(vs), self.cond(vs), r.choice(vs))
        return "len(xs)"

    def cond(self, vs):
        r = self.rng
        k = r.randrange(6)
        if k < 3:
            return "%s %s %s" % (r.choice(vs), r.choice(["<", "<=", "==", "!=", ">"]), r.choice(vs + ["0", "1"]))
        if k == 3:
            return "not %s" % r.choice(vs)
        if k == 4:
            return "%s == %s or %s > 0" % (r.choice(vs), r.choice(vs), r.choice(vs))
        return "%s in (0, %s)" % (r.choice(vs), r.choice(vs))

    def effect(self, vs, ind, loop):
        """A statement, as lines."""
        r = self.rng
        k = r.randrange(12 if loop else 8)
        p = "    " * ind
        if k == 0:
            return [p + "n += 1"]
        if k == 1:
            return [p + "s = %s" % self.num(vs)]
        if k == 2:
            return [p + "out.append(%s)" % self.num(vs)]
        if k == 3:
            return [p + "d[%s] = %s" % (r.choice(vs), self.num(vs))]
        if k in (4, 5):
            ls = [p + "if %s:" % self.cond(vs)] + self.effect(vs, ind + 1, loop)
            if r.random() < 0.4:
                ls += [p + "else:"] + self.effect(vs, ind + 1, loop)
            return ls
        if k == 6:
            return [p + "try:", p + "    s = d[%s]" % r.choice(vs), p + "except KeyError:"] + self.effect(vs, ind + 1, loop)
        if k == 7:
            return [p + "s = d.get(%s, s)" % r.choice(vs)]
        if k == 8:
            return [p + "last = x"]
        if k == 9:
            return [p + "if %s:" % self.cond(vs), p + "    " + r.choice(["break", "continue", "continue"])]
        if k == 10:
            return [p + "out.append(x)"]
        return [p + "out.append((x, %s))" % r.choice(vs)]

    def function(self):
        r = self.rng
        vs = ["a", "b", "s", "n", "last"]
        ls = ["    s, n, last, out, d = 0, 0, a, [], {}"]
        for _ in range(r.randrange(2)):
            ls += self.effect(vs, 1, False)
        k = r.randrange(5)
        if k == 0:
            ls += ["    out = [%s for x in xs%s]" % (self.num(["x", "a", "b"]), r.choice(["", " if " + self.cond(["x", "a", "b"])]))]
        elif k == 1:
            ls += ["    d = {x: %s for x in xs}" % self.num(["x", "a", "b"])]
        else:
            ls += ["    for x in xs:" if k < 4 else "    for i, x in enumerate(xs):"]
            for _ in range(r.choice([1, 1, 2])):
                ls += self.effect(vs + ["x"] + (["i"] if k == 4 else []), 2, True)
            if r.random() < 0.2:
                ls += ["    else:", "        n = n + 100"]
        for _ in range(r.randrange(2)):
            ls += self.effect(vs, 1, False)
        if r.random() < 0.15:
            ls += ["    if %s:" % self.cond(vs), "        raise ValueError(s)"]
        return ls

    def variant(self, ls):
        """One token changed, or nothing but the form."""
        r = self.rng
        for _ in range(20):
            i = r.randrange(1, len(ls))
            old, new = r.choice([
                ("<=", "<"), ("<", "<="), ("==", "!="), ("+= 1", "+= 2"), ("break", "continue"), ("continue", "break"), (" a", " b"),
                ("0", "1"), (">", ">="), ("append(x)", "append(a)"), ("last = x", "pass"), ("- ", "+ "), ("in (0", "not in (0"), ("d.get(", "d.pop("),
                ("n += 1", "n = n + 1"), ("out.append(x)", "out += [x]"), ("s = d[", "s = 0 + d["), ("if not ", "if 0 == "), ("!= 0", "> 0"), ("len(xs)", "len(out)"),
            ])
            if old in ls[i]:
                vs = ls[:i] + [ls[i].replace(old, new, 1)] + ls[i + 1:]
                try:
                    compile("def g(xs, a, b):\n" + "\n".join(vs), "g", "exec")
                except SyntaxError:
                    continue
                return vs
        return list(ls)


def outcome(f, xs, a, b):
    try:
        return "return", f(list(xs), a, b)
    except Exception as e:
        return "raise", type(e).__name__, str(e.args)


def module(text, tmp, name):
    path = os.path.join(tmp, name + ".py")
    with open(path, "w") as f:
        f.write(text)
    spec = importlib.util.spec_from_file_location("specs." + name, path)
    m = importlib.util.module_from_spec(spec)
    sys.modules["specs." + name] = m
    spec.loader.exec_module(m)
    return m


def concrete(E, v):
    """Python value of an engine value without unknowns."""
    from pyvc.values import MList, MDict, Item

    v = E.resolve(v)
    if isinstance(v, MList) or type(v).__name__ == "PTuple":
        segs = E.iter_segs(v)
        assert all(isinstance(s, Item) for s in segs), segs
        r = [concrete(E, s.v) for s in segs]
        return r if isinstance(v, MList) else tuple(r)
    if isinstance(v, tuple):
        return tuple(concrete(E, x) for x in v)
    if isinstance(v, MDict):
        return {concrete(E, k): concrete(E, E.getitem(v, k)) for k in [s.v for s in E.iter_segs(v)]}
    if type(v).__name__ == "SV":
        import z3

        t = z3.simplify(v.t)
        if v.k == "bool":
            return z3.is_true(t)
        assert z3.is_int_value(t), t
        return t.as_long()
    return v


def main(seed=1, n=60):
    from pyvc import sym
    from pyvc.sym import mlist, fn_elem
    from pyvc.values import MList, Item
    from pyvc.driver import run_one

    rng = random.Random(seed)
    tmp = tempfile.mkdtemp(prefix="selftest_")
    bad = 0
    tally = {}
    args = [(xs, a, b) for k in range(4) for xs in itertools.product([-1, 0, 1, 2], repeat=k) for a in (-1, 0, 1, 2) for b in (0, 1)]
    try:
        for it in range(n):
            g = Gen(rng)
            ls = g.function()
            vs = g.variant(ls)
            ret = "    return (s, n, last, out, d)"
            text = "def f(xs, a, b):\n%s\n%s\n\n\ndef g(xs, a, b):\n%s\n%s\n" % ("\n".join(ls), ret, "\n".join(vs), ret)
            m = module(text, tmp, "gen%d_%d" % (seed, it))
            differ = [x for x in args if outcome(m.f, *x) != outcome(m.g, *x)]
            # concretely
            for xs, a, b in rng.sample(args, 6):
                seen = []

                def conc(E):
                    l = MList(E, [Item(x) for x in xs])
                    r = sym.outcome(E, lambda: E.call(E.wrap(m.f), [l, a, b], {}))
                    seen.append(("return", concrete(E, r[1])) if r[0] == "return" else ("raise", r[1].cls.__name__))
                    E.prove(True, "ran")

                res = run_one(conc, "concrete", secs=20)
                want = outcome(m.f, xs, a, b)
                if res["status"] != "ok":
                    tally["concrete unsupported"] = tally.get("concrete unsupported", 0) + 1
                elif len(seen) != 1 or seen[0] != want[: len(seen[0])]:
                    bad += 1
                    print("CONCRETE", (xs, a, b), seen, want, "\n" + text)

            # symbolically
            def symb(E):
                l = lambda: MList(E, segs)
                segs = E.iter_segs(mlist(E, "xs", fn_elem(E, "x", "int")))
                a, b = E.fresh("a", "int"), E.fresh("b", "int")
                x = sym.outcome(E, lambda: E.call(E.wrap(m.f), [l(), a, b], {}))
                y = sym.outcome(E, lambda: E.call(E.wrap(m.g), [l(), a, b], {}))
                E.prove(x[0] == y[0], "both return or raise")
                if x[0] == y[0] == "raise":
                    E.prove(x[1].cls is y[1].cls, "the same exception")
                    E.prove(len(x[1].args) == len(y[1].args), "the same exception")
                    for p, q in zip(x[1].args, y[1].args):
                        E.prove_eq(p, q, "the same exception")
                elif x[0] == y[0]:
                    x, y = E.resolve(x[1]), E.resolve(y[1])
                    for i in range(3):
                        E.prove_eq(E.getitem(x, i), E.getitem(y, i), "result %d" % i)
                    E.prove_segs_eq(E.iter_segs(E.getitem(x, 3)), E.iter_segs(E.getitem(y, 3)), "list")
                    k = E.fresh("key", "int")
                    dx, dy = E.getitem(x, 4), E.getitem(y, 4)
                    cx, cy = E.truth(E.contains(dx, k)), E.truth(E.contains(dy, k))
                    cx, cy = E.decide(cx), E.decide(cy)
                    E.prove(cx == cy, "keys")
                    if cx and cy:
                        E.prove_eq(E.getitem(dx, k), E.getitem(dy, k), "values")

            res = run_one(symb, "symbolic", secs=30)
            key = ("same text: " if vs == ls else "equal on all tried: " if not differ else "different: ") + res["status"]
            tally[key] = tally.get(key, 0) + 1
            if res["status"] == "ok" and differ:
                bad += 1
                print("UNSOUND", differ[0], outcome(m.f, *differ[0]), outcome(m.g, *differ[0]), "\n" + text)
            if res["status"] == "failed" and vs == ls:
                bad += 1
                print("REFUTED", res["why"], res["failed"][:1], "\n" + text)
            elif res["status"] == "failed" and not differ:
                print("note: refuted, no difference found:", res["why"], "\n" + text)
            if res["status"] == "unsupported" and "-v" in sys.argv:
                print("note:", res["why"][-300:], "\n" + text)
    finally:
        for f in os.listdir(tmp):
            os.unlink(os.path.join(tmp, f))
        os.rmdir(tmp)
    for k in sorted(tally):
        print(k, tally[k])
    return bad


if __name__ == "__main__":
    nums = [int(x) for x in sys.argv[1:] if x.isdigit()]
    sys.exit(1 if main(*nums) else 0)
