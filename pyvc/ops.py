"""Operations on symbolic values."""
import z3

from .core import *
from .values import *
from .values import _ctr, IX_SERIAL, IX_KEEP, real_id


def I(x):
    """int-like -> z3 term"""
    if isinstance(x, SV):
        return x.t
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(x)
    return x


def is_conc_int(t):
    return isinstance(t, int) or (isinstance(t, z3.ExprRef) and z3.is_int_value(t))


def simp(t):
    return z3.simplify(t) if isinstance(t, z3.ExprRef) else t


class Ops(Core):
    # --- scalars ------------------------------------------------------------
    def lift(self, v):
        """concrete scalar -> z3 term"""
        if isinstance(v, SV):
            return v.t
        if isinstance(v, bool):
            return z3.BoolVal(v)
        if isinstance(v, int):
            return z3.IntVal(v)
        if isinstance(v, str):
            return z3.StringVal(v)
        raise Unsupported("lift %r" % (v,))

    def kind(self, v):
        if isinstance(v, SV):
            return v.k
        if isinstance(v, bool):
            return "bool"
        if isinstance(v, int):
            return "int"
        if isinstance(v, str):
            return "str"
        if isinstance(v, SObj) and isinstance(v.base, (str, SV)):
            return "str"
        return None

    def lower(self, sv):
        """z3 term -> concrete if it is a literal"""
        t = z3.simplify(sv.t)
        if sv.k == "int" and z3.is_int_value(t):
            return t.as_long()
        if sv.k == "bool" and (z3.is_true(t) or z3.is_false(t)):
            return z3.is_true(t)
        if sv.k == "str" and z3.is_string_value(t):
            return zstr(t)
        if sv.k == "obj":
            d = t.decl().name() if z3.is_app(t) else ""
            if d == "none":
                return None
            if d == "ustr":
                return self.lower(SV(t.arg(0), "str"))
            if d == "uint":
                return self.lower(SV(t.arg(0), "int"))
            if d == "ubool":
                return self.lower(SV(t.arg(0), "bool"))
            if d == "real" and z3.is_int_value(t.arg(0)):
                return REAL_OBJS[t.arg(0).as_long()]
        return SV(t, sv.k)

    def resolve(self, v):
        """Make the head of a value definite, forking as needed."""
        while True:
            if isinstance(v, Choice):
                alts = v.alts
                for c, x in alts[:-1]:
                    if self.decide(c):
                        v = x
                        break
                else:
                    c, x = alts[-1]
                    self.assume(c)
                    if not self.feasible(z3.BoolVal(True)):
                        raise PathEnd()
                    v = x
                continue
            if isinstance(v, SV):
                return self.lower(v)
            if isinstance(v, Poison):
                raise NeedTemplate(v.why)
            return v

    def enc(self, v):
        """Encode an immutable value as one term of the datatype U."""
        if isinstance(v, Choice):
            r = self.enc(v.alts[-1][1])
            for c, x in reversed(v.alts[:-1]):
                r = z3.If(c, self.enc(x), r)
            return r
        if isinstance(v, SV):
            return {"int": U.uint, "bool": U.ubool, "str": U.ustr, "obj": lambda t: t}[v.k](v.t)
        if v is None:
            return U.none
        if isinstance(v, bool):
            return U.ubool(z3.BoolVal(v))
        if isinstance(v, int):
            return U.uint(z3.IntVal(v))
        if isinstance(v, str):
            return U.ustr(z3.StringVal(v))
        if isinstance(v, float):
            return U.tagged(z3.IntVal(-9), U.ustr(z3.StringVal(repr(v))))
        if isinstance(v, (tuple, PTuple)):
            return self.enc_segs(self.segs_of(v))
        if isinstance(v, SObj):
            if v.base is not None:
                if isinstance(v.base, (str, SV)):
                    return self.enc(v.base)
                return U.tagged(z3.IntVal(real_id(v.cls)), self.enc(v.base))
            if "__id__" in v.d:
                return v.d["__id__"].t
            return U.tagged(z3.IntVal(-1), U.real(z3.IntVal(1000000 + v.serial)))
        if isinstance(v, MList):
            return U.tagged(z3.IntVal(-2), self.enc_segs(v.d["c"]))
        if isinstance(v, Stub):
            if hasattr(v.model, "enc"):
                return v.model.enc(self, v)
            return U.tagged(
                z3.IntVal(-3),
                U.cons(U.ustr(z3.StringVal(v.model.__name__)), self.enc(tuple(v.data))),
            )
        if isinstance(v, DynClass):
            return U.tagged(z3.IntVal(-4), U.real(z3.IntVal(2000000 + v.serial)))
        if isinstance(v, MDict):
            base, ov = v.d["c"]
            if base is None:
                r = U.nil
                for k, x in ov:
                    r = U.cons(U.cons(self.enc(k), self.enc(x)), r)
                return U.tagged(z3.IntVal(-5), r)
            if not ov and base.__dict__.get("ident") is not None:
                return base.ident
            raise Unsupported("encoding of a symbolic dict")
        if isinstance(v, SetVal):
            return U.tagged(z3.IntVal(-6), self.enc_segs(v.segs))
        if isinstance(v, ExcVal):
            return U.tagged(z3.IntVal(real_id(v.cls)), U.nil)
        if isinstance(v, (type, Func)) or callable(v) or type(v).__name__ in ("module", "object"):
            return U.real(z3.IntVal(real_id(v if not isinstance(v, Func) or v.real is None else v.real)))
        if isinstance(v, Poison):
            raise NeedTemplate(v.why)
        raise Unsupported("encoding of %r" % (v,))

    def enc_segs(self, segs):
        r = U.nil
        for s in reversed(segs):
            if isinstance(s, Item):
                r = U.cons(self.enc(s.v), r)
            elif isinstance(s, Map):
                k = z3.Int("ek!0")
                lam = z3.Lambda([k], self.enc(s.fn(k)))
                f = z3.Function("seqseg", INT, z3.ArraySort(INT, U), U)
                r = U.cons(U.tagged(z3.IntVal(-7), f(I(s.n), lam)), r)
            else:
                k = z3.Int("ek!0")
                lam = z3.Lambda([k], self.enc(s.fn(k)))
                f = z3.Function("fseqseg", INT, z3.ArraySort(INT, U), U)
                r = U.cons(U.tagged(z3.IntVal(-8), f(I(s.n), lam)), r)
        return r

    def app(self, name, args, kind="obj"):
        """Uninterpreted function of encoded arguments (kinds kept apart)."""
        ts = []
        for a in args:
            if isinstance(a, z3.ExprRef):
                ts.append(a)
            elif self.kind(a) == "str" and not isinstance(a, SObj):
                ts.append(self.lift(a))
            else:
                ts.append(self.enc(a))
        f = z3.Function(name, *[t.sort() for t in ts], SORT[kind])
        return SV(f(*ts) if ts else z3.Const(name, SORT[kind]), kind)

    # --- sequences ---------------------------------------------------------------
    def segs_of(self, v):
        """Segments of a sequence value, or None."""
        if isinstance(v, tuple):
            return tuple(Item(x) for x in v)
        if isinstance(v, (PTuple, GenVal, SetVal)):
            return v.segs
        if isinstance(v, MList):
            return v.d["c"]
        if isinstance(v, SObj) and isinstance(v.base, (tuple, PTuple)):
            return self.segs_of(v.base)
        if isinstance(v, list):
            return tuple(Item(x) for x in v)
        return None

    def mk_tuple(self, segs):
        segs = self.norm(segs)
        if all(isinstance(s, Item) for s in segs):
            return tuple(s.v for s in segs)
        return PTuple(segs)

    def norm(self, segs):
        """Drop segments of length 0 and merge nothing else."""
        out = []
        for s in segs:
            if isinstance(s, (Map, FMap)):
                n = simp(I(s.n))
                if z3.is_int_value(n):
                    m = n.as_long()
                    if m <= 0:
                        continue
                    if m <= 8:
                        if isinstance(s, Map):
                            out.extend(Item(s.fn(k)) for k in range(m))
                            continue
                s = type(s)(n, s.fn)
            out.append(s)
        return tuple(out)

    def seg_len(self, s):
        if isinstance(s, Item):
            return z3.IntVal(1)
        if isinstance(s, Map):
            return I(s.n)
        return self.fcount(s)

    def fcount(self, s):
        """Number of elements of a filtered segment, as a term."""
        k = z3.Int("ek!0")
        body = s.fn(k)
        if isinstance(body, tuple):
            return I(s.n) * len(body)
        t = None
        for c, x in body.alts:
            if not isinstance(x, tuple):
                raise Unsupported("length of filtered sequence")
        # count of a filter: an integer fold, uninterpreted but a function of
        # the filter itself
        cond = z3.IntVal(len(body.alts[-1][1]))
        for c, x in reversed(body.alts[:-1]):
            cond = z3.If(c, z3.IntVal(len(x)), cond)
        lam = z3.Lambda([k], cond)
        f = z3.Function("fcount", INT, z3.ArraySort(INT, INT), INT)
        r = f(I(s.n), lam)
        self.assume(r >= 0)
        mx = max(len(x) for _, x in body.alts)
        self.assume(z3.Implies(I(s.n) >= 0, r <= I(s.n) * mx))
        return r

    def rope_len(self, segs):
        segs = self.norm(segs)
        t = z3.IntVal(0)
        for s in segs:
            t = t + self.seg_len(s)
        return simp(t)

    def len_val(self, segs):
        t = self.rope_len(segs)
        return t.as_long() if z3.is_int_value(t) else SV(t, "int")

    def split_at(self, segs, t):
        """Split a rope at position t (0 <= t <= length assumed decided by
        forking); returns (left, right)."""
        segs = list(self.norm(segs))
        t = simp(I(t))
        left = []
        while segs:
            if z3.is_int_value(t) and t.as_long() <= 0:
                break
            s = segs[0]
            if isinstance(s, Item):
                if not z3.is_int_value(t):
                    if self.decide(t <= 0):
                        break
                left.append(segs.pop(0))
                t = simp(t - 1)
            elif isinstance(s, Map):
                n = I(s.n)
                if self.decide(t >= n):
                    left.append(segs.pop(0))
                    t = simp(t - n)
                else:
                    if not self.decide(t <= 0):
                        left.append(Map(t, s.fn))
                        segs[0] = self.shift(s, t)
                    t = z3.IntVal(0)
            else:
                cnt = self.fcount(s)
                if self.decide(t >= cnt):
                    left.append(segs.pop(0))
                    t = simp(t - cnt)
                elif self.decide(t <= 0):
                    break
                else:
                    raise Unsupported("splitting a filtered sequence")
        return tuple(left), tuple(segs)

    def shift(self, s, t, more=0):
        p = z3.Int("sp!%d" % next(_ctr))
        return Map(simp(I(s.n) - t), Fn(p, s.fn(p + t + more)))

    def nth(self, segs, idx):
        """Element at idx, with Python's negative indices and IndexError."""
        segs = self.norm(segs)
        if isinstance(idx, SV):
            idx = self.lower(idx)
        if isinstance(idx, bool):
            idx = int(idx)
        if isinstance(idx, int):
            if idx >= 0 and len(segs) > idx and all(
                isinstance(s, Item) for s in segs[: idx + 1]
            ):
                return segs[idx].v
            if idx < 0 and len(segs) >= -idx and all(isinstance(s, Item) for s in segs[idx:]):
                return segs[idx].v
            if idx < 0:
                # from the end
                rest = list(segs)
                t = z3.IntVal(-idx)
                while rest:
                    s = rest.pop()
                    n = self.seg_len(s)
                    if self.decide(t <= n):
                        if isinstance(s, Item):
                            return s.v
                        if isinstance(s, FMap):
                            raise Unsupported("index into a filtered sequence")
                        return s.fn(simp(n - t))
                    t = simp(t - n)
                self.py_raise(IndexError, "index out of range")
            t = z3.IntVal(idx)
        else:
            t = I(idx)
            if self.decide(t < 0):
                t = simp(t + self.rope_len(segs))
                if self.decide(t < 0):
                    self.py_raise(IndexError, "index out of range")
        for s in segs:
            n = self.seg_len(s)
            if self.decide(t < n):
                if isinstance(s, Item):
                    return s.v
                if isinstance(s, FMap):
                    return self.fnth(s, t)
                return s.fn(t)
            t = simp(t - n)
        self.py_raise(IndexError, "index out of range")

    def fnth(self, s, t):
        """Element t of a filtered segment: there is a source index whose
        element it is."""
        j = self.fresh_t("src", INT)
        self.assume(z3.And(j >= 0, j < I(s.n)))
        self.assume(self.fcount(FMap(j, s.fn)) == t)
        items = self.resolve(s.fn(j))
        if len(items) == 0:
            raise PathEnd()
        if len(items) == 1:
            return items[0]
        raise Unsupported("index into a filtered sequence")

    def set_nth(self, segs, idx, v):
        idx = self.resolve(idx)
        if isinstance(idx, int) and idx < 0:
            t = simp(self.rope_len(segs) + idx)
            if self.decide(t < 0):
                self.py_raise(IndexError, "assignment index out of range")
        else:
            t = I(idx)
            if self.decide(t < 0):
                t = simp(t + self.rope_len(segs))
                if self.decide(t < 0):
                    self.py_raise(IndexError, "assignment index out of range")
        if self.decide(t >= self.rope_len(segs)):
            self.py_raise(IndexError, "assignment index out of range")
        segs = list(self.norm(segs))
        left = []
        t = simp(t)
        while segs:
            s = segs.pop(0)
            n = self.seg_len(s)
            if self.decide(t < n):
                if isinstance(s, Map):
                    # parts of length 0 are harmless
                    mid = (Map(t, s.fn), Item(v), self.shift(Map(simp(n - 1), s.fn), t, 1))
                elif isinstance(s, Item):
                    mid = (Item(v),)
                else:
                    raise Unsupported("assigning into a filtered sequence")
                return self.norm(tuple(left) + mid + tuple(segs))
            left.append(s)
            t = simp(t - n)
        raise PathEnd()

    def slice(self, segs, lo, hi, step):
        segs = self.norm(segs)
        lo, hi, step = (self.resolve(x) for x in (lo, hi, step))
        if step not in (None, 1, -1):
            raise Unsupported("slice step")
        if step == -1:
            if lo is None and hi is None:
                return self.reverse(segs)
            raise Unsupported("slice")

        def pos(x, default):
            if x is None:
                return default
            t = I(x)
            if isinstance(x, int):
                if x < 0:
                    n = self.rope_len(segs)
                    t = simp(n + x)
                    if self.decide(t < 0):
                        t = z3.IntVal(0)
            elif self.decide(t < 0):
                t = simp(t + self.rope_len(segs))
                if self.decide(t < 0):
                    t = z3.IntVal(0)
            return t

        if hi is not None:
            h = pos(hi, None)
            # python clips
            l, r = self.split_clip(segs, h)
            kept = l
        else:
            kept = segs
        if lo is not None:
            a = pos(lo, None)
            _, kept = self.split_clip(kept, a)
        return kept

    def split_clip(self, segs, t):
        return self.split_at(segs, t)

    def reverse(self, segs):
        out = []
        for s in reversed(segs):
            if isinstance(s, Item):
                out.append(s)
            else:
                p = z3.Int("rp!%d" % next(_ctr))
                body = s.fn(simp(I(s.n) - 1 - p))
                if isinstance(s, FMap):
                    body = map_choice(body, lambda x: tuple(reversed(x)))
                out.append(type(s)(s.n, Fn(p, body)))
        return tuple(out)

    # --- equality -------------------------------------------------------------
    def eq_t(self, a, b):
        """Equality of scalars as a term or a Python bool, or None when this
        is not a comparison of scalars."""
        ka, kb = self.kind(a), self.kind(b)
        if isinstance(a, SObj) and ka == "str":
            a = a.base
        if isinstance(b, SObj) and kb == "str":
            b = b.base
        if not isinstance(a, SV) and not isinstance(b, SV):
            return None
        if ka and kb:
            if ka == kb:
                return simp(self.lift(a) == self.lift(b))
            if {ka, kb} <= {"int", "bool"}:
                f = lambda v, k: z3.If(self.lift(v), 1, 0) if k == "bool" else self.lift(v)
                return simp(f(a, ka) == f(b, kb))
            if "obj" in (ka, kb):
                return simp(self.enc(a) == self.enc(b))
            return False
        # one is a scalar term, the other something else
        sv, other = (a, b) if isinstance(a, SV) else (b, a)
        if sv.k == "obj":
            return simp(sv.t == self.enc(other))
        return False

    def py_eq(self, a, b):
        """The == of Python: a Python bool or an SV of kind bool (may fork)."""
        a, b = self.resolve(a), self.resolve(b)
        if a is b and not isinstance(a, SV):
            return True
        for x, y in ((a, b), (b, a)):
            if isinstance(x, SObj):
                m = self.find_attr(x.cls, "__eq__")
                if m is not None and m[0] == "func":
                    r = self.call(Bound(m[1], x), [y], {})
                    return r
        return self.raw_eq(a, b)

    def raw_eq(self, a, b):
        a, b = self.resolve(a), self.resolve(b)
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Stub) and hasattr(x.model, "eq"):
                return x.model.eq(self, x, y)
        t = self.eq_t(a, b)
        if t is not None:
            return self.b(t)
        sa, sb = self.seq_kind(a), self.seq_kind(b)
        if sa or sb:
            if sa != sb:
                return False
            return self.seq_eq(self.segs_of(a), self.segs_of(b))
        if isinstance(a, MDict) and isinstance(b, MDict):
            return self.dict_eq(a, b)
        if isinstance(a, SObj) and isinstance(a.base, MDict) and isinstance(b, (MDict, SObj)):
            return self.raw_eq(a.base, b.base if isinstance(b, SObj) else b)
        if isinstance(b, SObj) and isinstance(b.base, MDict) and isinstance(a, MDict):
            return self.raw_eq(a, b.base)
        if isinstance(a, (Cell, Func, Bound)) or isinstance(b, (Cell, Func, Bound)):
            return a is b
        if isinstance(a, SetVal) and isinstance(b, SetVal):
            return self.set_eq(a, b)
        return a == b

    def set_eq(self, a, b):
        def incl(x, y):
            for s in x.segs:
                if isinstance(s, Item):
                    if not self.truth(self.contains_segs(y.segs, s.v)):
                        return False
                else:
                    if not self.all_segs((s,), lambda e: self.contains_segs(y.segs, e)):
                        return False
            return True

        # sets of the code are built from at least the elements compared
        return incl(a, b) and incl(b, a)

    def b(self, t):
        if isinstance(t, bool):
            return t
        t = z3.simplify(t)
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        return SV(t, "bool")

    def seq_kind(self, v):
        if isinstance(v, (tuple, PTuple)):
            return "tuple"
        if isinstance(v, SObj) and isinstance(v.base, (tuple, PTuple)):
            return "tuple"
        if isinstance(v, MList):
            return "list"
        return None

    def seq_eq(self, x, y):
        x, y = self.norm(x), self.norm(y)
        n, m = self.rope_len(x), self.rope_len(y)
        if not self.decide(n == m):
            return False
        cx = all(isinstance(s, Item) for s in x)
        cy = all(isinstance(s, Item) for s in y)
        if cx or cy:
            k = len(x) if cx else len(y)
            for j in range(k):
                if not self.truth(self.py_eq(self.nth(x, j), self.nth(y, j))):
                    return False
            return True
        # both symbolic: compare encodings
        return self.b(self.enc_segs(x) == self.enc_segs(y))

    def dict_eq(self, a, b):
        (ba, oa), (bb, ob) = a.d["c"], b.d["c"]
        if ba is None and bb is None:
            da, db = dict_items(self, oa), dict_items(self, ob)
            if len(da) != len(db):
                return False
            for k, v in da:
                for k2, v2 in db:
                    if self.truth(self.py_eq(k, k2)):
                        if not self.truth(self.py_eq(v, v2)):
                            return False
                        break
                else:
                    return False
            return True
        return self.b(self.enc(a) == self.enc(b))

    # --- proving equality ----------------------------------------------------------
    def prove_eq(self, a, b, label):
        """Obligation: a equals b (structurally; forks under the hood)."""
        self.sub(lambda: self._prove_eq(a, b, label))

    def flat(self, v):
        """Is it a scalar, or a choice of scalars?"""
        if isinstance(v, Choice):
            return all(self.flat(x) for _, x in v.alts)
        return v is None or isinstance(v, (SV, bool, int, str, object().__class__)) and not isinstance(
            v, (Cell, Poison, tuple, PTuple, ExcVal, SetVal, GenVal, Bound, Func, BuiltinMethod, list, dict)
        )

    def exhaust(self, v, out, under=()):
        """Facts: one of the conditions of each choice holds."""
        if isinstance(v, Choice):
            cs = z3.Or(*[c for c, _ in v.alts])
            out.append(z3.Implies(z3.And(*under), cs) if under else cs)
            before = []
            for c, x in v.alts:
                self.exhaust(x, out, tuple(under) + tuple(before) + (c,))
                before.append(z3.Not(c))

    def _prove_eq(self, a, b, label):
        if (isinstance(a, Choice) or isinstance(b, Choice)) and self.flat(a) and self.flat(b) and not self.quiet:
            # all alternatives at once, when that works
            facts = []
            self.exhaust(a, facts)
            self.exhaust(b, facts)
            try:
                goal = z3.Implies(z3.And(*facts), self.enc(a) == self.enc(b))
            except Unsupported:
                goal = None
            if goal is not None and self.entails(goal):
                return self.prove(goal, label)
        a, b = self.resolve(a), self.resolve(b)
        if a is b:
            return self.prove(True, label)
        t = self.eq_t(a, b)
        if t is not None:
            return self.prove(t, label)
        if isinstance(a, SObj) and isinstance(b, SObj) and a.base is not None and b.base is not None:
            if a.cls is not b.cls:
                return self.fail(label, "different classes %r %r" % (a.cls, b.cls))
            self._prove_eq(a.base, b.base, label)
            for k in sorted(set(a.d) | set(b.d)):
                if k.startswith("__"):
                    continue
                if k not in a.d or k not in b.d:
                    return self.fail(label, "attribute %s" % k)
                self.prove_eq(a.d[k], b.d[k], label + "." + k)
            return
        sa, sb = self.seq_kind(a), self.seq_kind(b)
        if isinstance(a, GenVal):
            sa = "list"
        if isinstance(b, GenVal):
            sb = "list"
        if sa or sb:
            if sa != sb:
                return self.fail(label, "%r is not %r" % (a, b))
            return self.prove_segs_eq(self.segs_of(a), self.segs_of(b), label)
        if isinstance(a, MDict) and isinstance(b, MDict):
            return self.prove_dict_eq(a, b, label)
        if isinstance(a, Cell) or isinstance(b, Cell):
            if type(a) is type(b) and isinstance(a, (Stub, SObj)):
                return self.prove(self.enc(a) == self.enc(b), label)
            return self.fail(label, "%r is not %r" % (a, b))
        if isinstance(a, ExcVal) and isinstance(b, ExcVal):
            return self.prove(a.cls is b.cls, label)
        if isinstance(a, SetVal) and isinstance(b, SetVal):
            return self.prove(self.set_eq(a, b), label)
        if a == b and type(a) is type(b):
            return self.prove(True, label)
        return self.fail(label, "%r is not %r" % (a, b))

    def prove_segs_eq(self, x, y, label):
        x, y = list(self.norm(x)), list(self.norm(y))
        while x and y:
            a, b = x[0], y[0]
            if isinstance(a, Item) and isinstance(b, Item):
                self.prove_eq(a.v, b.v, label)
                x.pop(0), y.pop(0)
                continue
            if type(a) is type(b) and not isinstance(a, Item):
                if self.ent(I(a.n) == I(b.n)):
                    self.prove_fn_eq(a, b, label)
                    x.pop(0), y.pop(0)
                    continue
                if isinstance(a, FMap):
                    if self.ent(I(a.n) == I(b.n) + 1):
                        items = self.resolve(a.fn(I(b.n)))
                        x[0:1] = [FMap(b.n, a.fn)] + [Item(v) for v in items]
                        continue
                    if self.ent(I(b.n) == I(a.n) + 1):
                        items = self.resolve(b.fn(I(a.n)))
                        y[0:1] = [FMap(a.n, b.fn)] + [Item(v) for v in items]
                        continue
            if isinstance(a, FMap) and self.ent(I(a.n) == 0):
                x.pop(0)
                continue
            if isinstance(b, FMap) and self.ent(I(b.n) == 0):
                y.pop(0)
                continue
            if type(a) is not type(b) and {type(a), type(b)} == {Map, FMap} and self.ent(I(a.n) == I(b.n)):
                # a filter that drops nothing
                conv = lambda s: FMap(s.n, Fn(s.fn.p, map_choice(s.fn.body, lambda v: (v,)))) if isinstance(s, Map) else s
                self.prove_fn_eq(conv(a), conv(b), label)
                x.pop(0), y.pop(0)
                continue
            break
        if not x and not y:
            return self.prove(True, label)
        # suffixes
        while x and y and isinstance(x[-1], Item) and isinstance(y[-1], Item):
            self.prove_eq(x.pop().v, y.pop().v, label)
        if any(isinstance(s, FMap) for s in x + y):
            if not x or not y:
                return self.prove(self.rope_len(x) == self.rope_len(y), label + " (length)")
            # last resort: the lengths and the elements at every position
        n, m = self.rope_len(x), self.rope_len(y)
        self.prove(n == m, label + " (length)")

        def elem():
            k = self.fresh_t("k", INT)
            self.assume(z3.And(k >= 0, k < n, k < m))
            self._prove_eq(self.nth(x, SV(k, "int")), self.nth(y, SV(k, "int")), label)

        self.sub(elem)

    def prove_fn_eq(self, a, b, label):
        def elem():
            k = self.fresh_t("k", INT)
            self.assume(z3.And(k >= 0, k < I(a.n)))
            self._prove_eq(a.fn(k), b.fn(k), label)

        self.sub(elem)

    def ent(self, c):
        """Does the path condition entail c? (quick)"""
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        return not self.feasible(z3.Not(c))

    def prove_dict_eq(self, a, b, label):
        (ba, oa), (bb, ob) = a.d["c"], b.d["c"]
        if ba is None and bb is None:
            da, db = dict_items(self, oa), dict_items(self, ob)
            self.prove(len(da) == len(db), label + " (size)")
            for k, v in da:
                for k2, v2 in db:
                    if self.truth(self.py_eq(k, k2)):
                        self.prove_eq(v, v2, label + "[%r]" % (k,))
                        break
                else:
                    self.fail(label, "key %r missing" % (k,))
            return
        kk = (ba or bb).kk

        def one():
            k = self.fresh("key", kk)
            ha, va = self.dict_get(a, k)
            hb, vb = self.dict_get(b, k)
            if ha != hb:
                return self.fail(label, "key present in one dict only")
            if ha:
                self._prove_eq(va, vb, label)
            else:
                self.prove(True, label)

        self.sub(one)

    # --- dicts ---------------------------------------------------------------------
    def dict_get(self, d, k):
        """(present?, value), forking as needed."""
        if isinstance(d, SObj):
            d = d.base
        k = self.resolve(k)
        if isinstance(k, SObj) and isinstance(k.base, (str, SV)):
            k = k.base
        base, ov = d.d["c"]
        for kk, v in ov:
            e = self.py_eq(k, kk)
            if self.truth(e):
                return (False, None) if v is DELETED else (True, v)
        if base is None:
            return False, None
        kt = self.key_term(base, k)
        if kt is None:
            return False, None
        if self.decide(base.has(kt)):
            if base.n is not None:
                p = base.pos(kt)
                self.assume(z3.And(p >= 0, p < I(base.n), base.key(p) == kt))
            return True, base.val(kt)
        return False, None

    def key_term(self, base, k):
        ki = self.kind(k)
        if base.kk == "obj":
            return self.enc(k)
        if ki == base.kk:
            return self.lift(k)
        if isinstance(k, SV) and k.k == "obj":
            acc = {"str": (U.is_ustr, U.s), "int": (U.is_uint, U.i)}[base.kk]
            if self.decide(acc[0](k.t)):
                return acc[1](k.t)
            return None
        return None

    def dict_set(self, d, k, v):
        if isinstance(d, SObj):
            d = d.base
        base, ov = d.d["c"]
        k = self.resolve(k)
        if isinstance(k, SObj) and isinstance(k.base, (str, SV)):
            k = k.base
        if base is None:
            # keep the order of insertion of concrete dicts
            new = list(ov)
            for j, (kk, _) in enumerate(new):
                if self.truth(self.py_eq(k, kk)):
                    if new[j][1] is DELETED:
                        del new[j]
                        break
                    new[j] = (kk, v)
                    d.d["c"] = (base, tuple(new))
                    return
            d.d["c"] = (base, ((k, v),) + tuple(new))
        else:
            d.d["c"] = (base, ((k, v),) + tuple(ov))

    def dict_del(self, d, k):
        if isinstance(d, SObj):
            d = d.base
        base, ov = d.d["c"]
        if base is None:
            new = list(ov)
            for j, (kk, _) in enumerate(new):
                if self.truth(self.py_eq(k, kk)):
                    del new[j]
                    break
            d.d["c"] = (base, tuple(new))
        else:
            d.d["c"] = (base, ((k, DELETED),) + tuple(ov))

    # --- truth ------------------------------------------------------------------
    def truth(self, v):
        v = self.resolve(v)
        if v is None or isinstance(v, (bool, int, float)):
            return bool(v)
        if isinstance(v, str):
            return v != ""
        if isinstance(v, SV):
            if v.k == "bool":
                return self.decide(v.t)
            if v.k == "int":
                return self.decide(v.t != 0)
            if v.k == "str":
                return self.decide(v.t != z3.StringVal(""))
            t = v.t
            if self.decide(U.is_opq(t)):
                return True
            if self.decide(U.is_none(t)):
                return False
            if self.decide(U.is_ubool(t)):
                return self.decide(U.b(t))
            if self.decide(U.is_ustr(t)):
                return self.decide(U.s(t) != z3.StringVal(""))
            if self.decide(U.is_uint(t)):
                return self.decide(U.i(t) != 0)
            if self.decide(U.is_nil(t)):
                return False
            return True
        segs = self.segs_of(v)
        if segs is not None:
            return self.decide(self.rope_len(segs) > 0)
        if isinstance(v, MDict) or (isinstance(v, SObj) and isinstance(v.base, MDict)):
            d = v if isinstance(v, MDict) else v.base
            base, ov = d.d["c"]
            if base is None:
                return any(x is not DELETED for _, x in ov)
            if not ov and base.n is not None:
                return self.decide(I(base.n) > 0)
            if ov and ov[0][1] is not DELETED:
                return True
            raise Unsupported("truth of a symbolic dict")
        if isinstance(v, SObj) and isinstance(v.base, (str, SV)):
            return self.truth(v.base)
        if isinstance(v, SObj) and self.find_attr(v.cls, "__len__"):
            raise Unsupported("__len__")
        return True

    def py_raise(self, cls, *args):
        raise PyRaise(ExcVal(cls, args))

    # --- membership and quantifiers -------------------------------------------------
    def contains_segs(self, segs, x):
        """x in sequence: forks; returns a Python bool."""
        segs = self.norm(segs)
        conc = [s for s in segs if isinstance(s, Item)]
        # try a single disjunction when everything is scalar
        if len(conc) == len(segs):
            ts = []
            x = self.resolve(x)
            for s in conc:
                v = s.v
                if isinstance(v, Choice):
                    ts = None
                    break
                if v is x:
                    return True
                t = self.eq_t(x, v)
                if isinstance(x, Stub) and hasattr(x.model, "eq"):
                    t = x.model.eq(self, x, v)
                    t = t.t if isinstance(t, SV) else t
                if t is None:
                    if isinstance(x, Cell) or isinstance(v, Cell) or self.seq_kind(v) or self.seq_kind(x):
                        ts = None
                        break
                    t = x == v and type(x) is type(v) or (x == v)
                ts.append(t)
            if ts is not None:
                if any(t is True for t in ts):
                    return True
                ts = [t for t in ts if t is not False]
                return self.b(z3.Or(*ts)) if ts else False
        return self.any_segs(segs, lambda e: self.py_eq(e, x))

    def any_segs(self, segs, pred):
        """Is there an element with pred?  Forks; quantified facts are added."""
        for s in self.norm(segs):
            if isinstance(s, Item):
                if self.truth(pred(s.v)):
                    return True
                continue
            k = self.fresh_t("w", INT)
            self.mark_index(k)
            # condition of pred at index k
            cond, neg = self.pred_term(s, k, pred)
            if self.choose_bool():
                self.assume(z3.And(k >= 0, k < I(s.n), cond))
                if not self.feasible(z3.BoolVal(True)):
                    raise PathEnd()
                return True
            q = z3.Int("q!%d" % next(_ctr))
            body = z3.substitute(neg, (k, q))
            self.assume(forall_lt(q, I(s.n), body))
            if not self.feasible(z3.BoolVal(True)):
                raise PathEnd()
        return False

    def all_segs(self, segs, pred):
        return not self.any_segs(segs, lambda e: not self.truth(pred(e)))

    def choose_bool(self):
        return self.choose(2) == 0

    def mark_index(self, k):
        IX_SERIAL[k.get_id()] = self.nreg + 1
        IX_KEEP.append(k)

    def pred_term(self, s, k, pred):
        """Condition, as a term over index k, under which pred holds of the
        element(s) of segment s at k."""
        self.quiet += 1
        self.ixctx.append(k)
        try:

            def run():
                self.assume(z3.And(k >= 0, k < I(s.n)))
                v = s.fn(k)
                if isinstance(s, FMap):
                    for it in self.resolve(v):
                        if self.truth(pred(it)):
                            return True
                    return False
                return self.truth(pred(v))

            outs = self.explore(run)
        finally:
            self.ixctx.pop()
            self.quiet -= 1
        pos, neg = [], []
        for conds, (kind, val), _ in outs:
            if kind != "normal":
                raise Unsupported("exception in a predicate")
            (pos if val else neg).append(z3.And(*conds[1:]) if len(conds) > 1 else z3.BoolVal(True))
        return [z3.simplify(z3.Or(*x)) if x else z3.BoolVal(False) for x in (pos, neg)]


def zstr(t):
    """Python string of a z3 string literal (z3 escapes non-ASCII)."""
    import re

    s = t.as_string()
    return re.sub(r"\\u\{([0-9a-fA-F]+)\}", lambda m: chr(int(m.group(1), 16)), s)


def map_choice(v, f):
    if isinstance(v, Choice):
        return Choice([(c, map_choice(x, f)) for c, x in v.alts])
    return f(v)


def dict_items(E, ov):
    """Items of a concrete-shape dict in order of insertion."""
    return [(k, v) for k, v in reversed(ov) if v is not DELETED]
