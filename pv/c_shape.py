"""Contracts of the shape matcher: splitting a pattern at its ellipses, and matching a shape against it."""
from contract import *
from models import *
import c_utils as U
import c_subscript as B
import c_meta as M
from c_utils import ME, CE
from c_decor import Local

WORLD = ((True, True),)
ZS = "z"
# ---------------------------------------------------------------- the runs of a pattern between its ellipses
NE = z3.Function("NE", TupS, Int, Int)       # the next ellipsis from a position on, or the end
ST = z3.Function("ST", TupS, Int, Int)       # where the i-th run starts
NF = z3.Function("NF", TupS, Int)            # the number of runs
FRG = z3.Function("FRG", TupS, TupS)         # the runs, as a tuple of tuples
F = lambda c, i: tsub(c, ST(c, i), NE(c, ST(c, i)))
isE = lambda c, i: is_("E", tat(c, i))
left = lambda c: z3.And(tlen(c) > 0, isE(c, 0))
right = lambda c: z3.And(tlen(c) > 0, isE(c, tlen(c) - 1))
REP = lambda c: B.REP(c, z3.IntVal(0), tlen(c))


def run_defs(c):
    """Definitions of NE, ST, NF and FRG for one pattern, and what follows from them."""
    return run_defs0(c) + run_facts(c)


def run_facts(c):
    """Follows by induction over the runs (RunLemma); no two ellipses follow each other."""
    i = z3.Int("i!st")
    m, fa = tlen(c), z3.ForAll
    return [fa([i], z3.Implies(z3.And(0 < i, i <= NF(c)), ST(c, i) > 1), patterns=[ST(c, i)]),
            fa([i], z3.Implies(z3.And(0 <= i, i <= NF(c), 0 < ST(c, i), ST(c, i) <= m), isE(c, ST(c, i) - 1)), patterns=[ST(c, i)])]


def run_defs0(c):
    p, q, i = z3.Ints("p!ne q!ne i!st")
    m = tlen(c)
    fa = z3.ForAll
    return [fa([p], z3.Implies(z3.And(0 <= p, p <= m), z3.And(p <= NE(c, p), NE(c, p) <= m, z3.Implies(NE(c, p) < m, isE(c, NE(c, p))))), patterns=[NE(c, p)]),
            fa([p, q], z3.Implies(z3.And(0 <= p, p <= q, q < NE(c, p), NE(c, p) <= m), z3.Not(isE(c, q))), patterns=[z3.MultiPattern(NE(c, p), tat(c, q))]),
            ST(c, 0) == z3.If(left(c), z3.IntVal(1), z3.IntVal(0)),
            fa([i], z3.Implies(i >= 0, ST(c, i + 1) == NE(c, ST(c, i)) + 1), patterns=[ST(c, i + 1), NE(c, ST(c, i))]),
            NF(c) >= 0, ST(c, NF(c)) >= m,
            fa([i], z3.Implies(z3.And(0 <= i, i < NF(c)), z3.And(ST(c, i) < m, ST(c, i) >= 0)), patterns=[ST(c, i)]),
            tlen(FRG(c)) == NF(c),
            fa([i], z3.Implies(z3.And(0 <= i, i < NF(c)), tat(FRG(c), i) == V.T(F(c, i))), patterns=[tat(FRG(c), i)])]


def no_rep(c):
    j, k = z3.Ints("j!nr k!nr")
    return z3.ForAll([j, k], z3.Implies(z3.And(0 <= j, k == j + 1, k < tlen(c)), z3.Not(z3.And(isE(c, j), isE(c, k)))), patterns=[z3.MultiPattern(tat(c, j), tat(c, k))])


def only_ellipsis(eng):
    v = z3.Const("v!el", V)
    eng.assume(z3.ForAll([v], z3.Not(pyeq_u(V.E, v)), patterns=[pyeq_u(V.E, v)]))
    eng.assume(z3.ForAll([v], z3.Not(pyeq_u(v, V.E)), patterns=[pyeq_u(v, V.E)]))


class Split(U.UtilContract):
    """The runs of a pattern between its ellipses."""
    qual = "asta.utils.split"
    props = ("C01", "C02")
    trusted = ("only Ellipsis equals Ellipsis",)

    def setup(self, eng):
        eng.use_monoid()
        eng.use_sub()
        c = self.c = eng.fresh(TupS, "pattern")
        eng.assume(tlen(c) >= 0)
        only_ellipsis(eng)
        for f in run_defs(c):
            eng.assume(f)
        eng.assume(no_rep(c))
        eng.assume(z3.And(tsub(c, 0, 0) == EMPTYT, tsub(FRG(c), 0, 0) == EMPTYT))

        class T:
            @staticmethod
            def invs(lv):
                out = []
                ls = [(x, b) for x, a, b in lv.lists()]
                k = lv.k
                for x, res in ls:
                    r = tlen(res)
                    out.append((("res", x), z3.And(r <= NF(c), res == tsub(FRG(c), 0, r))))
                    for y, cur in ls:
                        if y != x:
                            at = ST(c, r)
                            out.append((("cur", x, y), z3.Or(z3.And(at <= k, k <= NE(c, at), cur == tsub(c, at, k)),
                                                             z3.And(k == 0, r == 0, cur == EMPTYT))))
                return out

            @staticmethod
            def defs(lv):
                out = [z3.Implies(z3.And(0 <= lv.k, lv.k <= tlen(c)), tsub(c, lv.k, lv.k) == EMPTYT)]
                for x, a, b in lv.lists():
                    r = tlen(b)
                    out.append(z3.Implies(z3.And(0 <= r, r < NF(c)), z3.And(tat(FRG(c), r) == V.T(F(c, r)), ST(c, r + 1) == NE(c, ST(c, r)) + 1)))
                return out
        eng.tmpl.append(T)
        return {"shape": Seq(c, z3.IntVal(0), tlen(c)), "elem": Ellipsis}

    def post(self, eng, a, out):
        if out[0] != "ok":
            return self.fail_exc(eng, out)
        r = out[1]
        if not (isinstance(r, Ref) and eng.rec(r).kind == "list"):
            return self.ob(eng, "a list is returned", False)
        self.ob(eng, "the runs between the ellipses, in order", eng.tup_term(eng.rec(r).data) == FRG(self.c))

    def apply(self, eng, a):
        s = U.as_seq(eng, a["shape"])
        c = s.base
        self.need(eng, a["elem"] is Ellipsis and z3.is_int_value(z3.simplify(s.lo)) and z3.simplify(s.lo).as_long() == 0, "the split is at the ellipsis")
        self.need(eng, z3.And(s.n == tlen(c), no_rep(c)), "no two ellipses follow each other")
        return eng.alloc("list", Seq(FRG(c), z3.IntVal(0), tlen(FRG(c))))

    def need(self, eng, f, what):
        eng.oblige(f"call of {self.qual}: {what}", z3.BoolVal(f) if isinstance(f, bool) else f)


# ---------------------------------------------------------------- where the runs are found in a shape
FL = z3.Function("FLATP", TupS, TupS)        # the concatenation of a tuple of tuples
f_ = lambda n, r: z3.Function(n, TupS, Int, Int, TupS, Int, r)      # of: shape, first, length, pattern, index
P, Q, HAS, STEP, OKP, EQ = f_("P", Int), f_("Q", Int), f_("HAS", Bool), f_("STEP", Bool), f_("OKP", Bool), f_("EQ", SetS)
ZF = z3.Function("ZF", TupS, Int, Int, Bool)                        # no dimension from a position to another is zero
zero = lambda e: veq(e, V.I(0))


def zf_def(b, x, y):
    p = z3.Int("p!zf")
    return ZF(b, x, y) == z3.ForAll([p], z3.Implies(z3.And(x <= p, p < y), z3.Not(zero(tat(b, p)))), patterns=[tat(b, p)])


def match_defs(b, lo, n, c):
    """The runs are looked for from left to right; the last one, when no ellipsis follows, only at the end."""
    i, q, x, y, p = z3.Ints("i!md q!md x!md y!md p!md")
    k, end = NF(c), lo + n
    fa = z3.ForAll
    a = (b, lo, n, c)
    ln = lambda i: tlen(F(c, i))
    last = lambda i: z3.And(i == k - 1, z3.Not(right(c)))
    s0 = lambda i: z3.If(z3.And(last(i), end - ln(i) > P(*a, i)), end - ln(i), P(*a, i))
    me = lambda i, q: ME(F(c, i), z3.IntVal(0), b, q, ln(i))
    inr = z3.And(0 <= i, i < k)
    st = z3.And(HAS(*a, i), z3.Implies(z3.And(i == 0, z3.Not(left(c))), Q(*a, i) == lo), z3.Implies(last(i), Q(*a, i) + ln(i) == end), ZF(b, P(*a, i), Q(*a, i)))
    step = lambda i: z3.Implies(z3.And(0 <= i, i < k), z3.And(
        P(*a, i + 1) == Q(*a, i) + ln(i), OKP(*a, i + 1) == z3.And(OKP(*a, i), STEP(*a, i)), tat(FRG(c), i) == V.T(F(c, i)),
        EQ(*a, i + 1) == union(EQ(*a, i), CE(F(c, i), z3.IntVal(0), b, Q(*a, i), ln(i)))))
    return [P(*a, 0) == lo, EQ(*a, 0) == EMPTY, OKP(*a, 0),
            fa([x, y], zf_def(b, x, y), patterns=[ZF(b, x, y)]),
            fa([i], z3.Implies(z3.And(inr, HAS(*a, i)), z3.And(s0(i) <= Q(*a, i), Q(*a, i) + ln(i) <= end, me(i, Q(*a, i)))), patterns=[HAS(*a, i)]),
            fa([i, q], z3.Implies(z3.And(inr, HAS(*a, i), s0(i) <= q, q < Q(*a, i)), z3.Not(me(i, q))), patterns=[z3.MultiPattern(HAS(*a, i), me(i, q))]),
            fa([i, q], z3.Implies(z3.And(inr, z3.Not(HAS(*a, i)), s0(i) <= q, q + ln(i) <= end), z3.Not(me(i, q))), patterns=[z3.MultiPattern(HAS(*a, i), me(i, q))]),
            fa([i], z3.Implies(inr, STEP(*a, i) == st), patterns=[STEP(*a, i)]),
            fa([i], z3.Implies(z3.And(inr, OKP(*a, k)), STEP(*a, i)), patterns=[STEP(*a, i)])], step


def matched(b, lo, n, c):
    """Every run is found and what the ellipses stand for has no zero."""
    k = NF(c)
    a = (b, lo, n, c)
    return z3.And(OKP(*a, k), z3.Implies(right(c), ZF(b, P(*a, k), lo + n)), z3.Implies(z3.And(k == 0, z3.Not(right(c))), n == 0))


class ShapeCheck(U.UtilContract):
    """A shape matches a pattern when its runs are found in order, what the ellipses stand for has no zero, and the equations are solvable."""
    qual = "asta.utils.shapecheck"
    props = ("C01", "C02")
    uses = ("asta.utils.check_equal", "asta.utils.is_subtuple", "asta.utils.astasolver", "asta.utils.split")
    trusted = ("only Ellipsis equals Ellipsis", "the dimensions of an array are non-negative integers")
    limit = 20000
    heavy = 3

    def setup(self, eng):
        eng.use_monoid()
        eng.use_sub()
        eng.renew = True
        eng.branch_ms = 300
        eng.kinds = ("T", "X", "O", "S")
        b, c = eng.fresh(TupS, "dims"), eng.fresh(TupS, "pattern")
        lo, n = eng.fresh(Int, "lo"), eng.fresh(Int, "n")
        self.v = (b, lo, n, c)
        self.none = eng.choose(2) == 1
        cv = None if self.none else Seq(c, z3.IntVal(0), tlen(c))
        p = z3.Int("p!sh")
        eng.assume(z3.And(lo >= 0, n >= 0, lo + n <= tlen(b), tlen(c) >= 0))
        eng.assume(z3.ForAll([p], z3.Implies(z3.And(lo <= p, p < lo + n), z3.And(is_("I", tat(b, p)), V.ival(tat(b, p)) >= 0)), patterns=[tat(b, p)]))
        eng.assume(z3.Not(REP(c)))
        eng.assume(no_rep(c))
        only_ellipsis(eng)
        eng.assume(B.pair_lemma())
        for f in run_defs(c):
            eng.assume(f)
        fs, self.step = match_defs(*self.v)
        for f in fs:
            eng.assume(f)
        t = z3.Const("t!fl", TupS)
        t2 = z3.Const("u!fl", TupS)
        eng.assume(FL(EMPTYT) == EMPTYT)
        eng.assume(z3.ForAll([t, t2], FL(tcat(t, tunit(V.T(t2)))) == tcat(FL(t), t2), patterns=[tcat(t, tunit(V.T(t2)))]))
        eng.assume(z3.ForAll([t2], FL(tunit(V.T(t2))) == t2, patterns=[tunit(V.T(t2))]))
        eng.assume(tsub(b, lo, lo) == EMPTYT)
        eng.assume(self.step(z3.IntVal(0)))
        eng.assume(z3.Implies(NF(c) > 0, EQ(*self.v, 1) == CE(F(c, 0), z3.IntVal(0), b, Q(*self.v, 0), tlen(F(c, 0)))))
        t1, t3 = z3.Consts("t1!ce t3!ce", TupS)
        x1, x2 = z3.Ints("x1!ce x2!ce")
        eng.assume(z3.ForAll([t1, x1, t3, x2], CE(t1, x1, t3, x2, 0) == EMPTY, patterns=[CE(t1, x1, t3, x2, 0)]))
        eng.assume(z3.ForAll([t1, x1, t3, x2], ME(t1, x1, t3, x2, 0), patterns=[ME(t1, x1, t3, x2, 0)]))
        eng.assume(ST(c, 1) == NE(c, ST(c, 0)) + 1)
        me = self
        real = eng.contracts.get("asta.utils.is_subtuple")
        eng.contracts = dict(eng.contracts)

        def sub(e, a):
            s = a["sub"]
            e.subtuple_ground = isinstance(s, Tup) and len(s.items) == 2 and all(x is Ellipsis for x in s.items)
            r = real.apply(e, a)
            t = s.t if isinstance(s, Sym) else s.base if isinstance(s, Seq) else None
            if t is not None and z3.is_app(t) and t.decl().name() == "tval":
                t = t.arg(0)
            if t is not None and z3.is_app(t) and t.decl().name() == "tat" and t.arg(0).eq(FRG(c)):
                i = t.arg(1)
                whole = U.as_seq(e, a["tup"])
                if r.items[0] is True:
                    e.hint(z3.And(HAS(*me.v, i), Q(*me.v, i) == z3.simplify(whole.lo + e.as_int(r.items[1]))))
                else:
                    e.hint(z3.Not(HAS(*me.v, i)))
            return r
        eng.contracts["asta.utils.is_subtuple"] = Local(sub)

        def reduce_(e, f, q):
            import ast
            if not (isinstance(f, Func) and isinstance(f.node, ast.Lambda) and isinstance(f.node.body, ast.BinOp) and isinstance(f.node.body.op, ast.Add)):
                return None
            names = [x.arg for x in f.node.args.args]
            if [getattr(f.node.body.left, "id", None), getattr(f.node.body.right, "id", None)] != names or isinstance(q, Tup):
                return None
            if not e.branch(q.n > 0):
                raise PyExc("TypeError")
            t = FL(e.tup_term(q))
            return (Seq(t, z3.IntVal(0), tlen(t)),)
        eng.hooks.setdefault("reduce", []).append(reduce_)
        me = self
        end = lo + n
        a_ = self.v
        k_ = NF(c)

        class T:
            @staticmethod
            def kind(lv):
                m = z3.simplify(lv.n) if lv.n is not None and not isinstance(lv.n, int) else None
                if m is None:
                    return None
                if m.eq(z3.simplify(tlen(FRG(c)))):
                    return "runs"
                if m.eq(z3.simplify(tlen(c))):
                    return "marks"
                return "piece"

            @staticmethod
            def invs(lv):
                out = []
                kd, k = T.kind(lv), lv.k
                if kd == "marks":
                    for x, a, b2 in lv.modvars():
                        if isinstance(b2, (SBool, bool)):
                            t = b2.t if isinstance(b2, SBool) else z3.BoolVal(b2)
                            out.append((("left", x), t == z3.And(k > 0, left(c))))
                            out.append((("right", x), t == z3.And(k > 0, k >= tlen(c), right(c))))
                if kd == "runs":
                    out.append((("okp",), OKP(*a_, k)))
                    out.append((("pos",), z3.And(lo <= P(*a_, k), P(*a_, k) <= end)))
                    for x, a, b2 in lv.modvars():
                        if isinstance(b2, Seq) and b2.base.eq(b):
                            out.append((("rest", x), z3.And(b2.lo == P(*a_, k), b2.lo + b2.n == end)))
                        if isinstance(b2, (SInt, int)) and not isinstance(b2, bool) and isinstance(a, (SInt, int)):
                            t = b2.t if isinstance(b2, SInt) else z3.IntVal(b2)
                            out.append((("idx", x), t == z3.If(k == 0, z3.IntVal(0), ST(c, k) - 1)))
                    for x, a, b2 in lv.sets():
                        out.append((("eqs", x), b2 == EQ(*a_, k)))
                    for x, a, b2 in lv.lists():
                        out.append((("cover", x), z3.And(FL(b2) == tsub(b, lo, P(*a_, k)), tlen(b2) == z3.If(k == 0, z3.IntVal(0), ST(c, k) - 1))))
                if kd == "piece":
                    for x, a, b2 in lv.modvars():
                        if isinstance(b2, SInt) and isinstance(a, (SInt, int)):
                            out.append((("plus", x), b2.t == (a.t if isinstance(a, SInt) else a) + k))
                    e0 = z3.simplify(lv.eng.to_V(lv.it.at(z3.IntVal(0))))
                    if z3.is_app(e0) and e0.decl().name() == "tat" and e0.arg(0).eq(b):
                        l0 = e0.arg(1)
                        for x, a, b2 in lv.lists():
                            if a is not None:
                                out.append((("more", x), z3.And(FL(b2) == tcat(FL(a), tsub(b, l0, l0 + k)), tlen(b2) == tlen(a) + k)))
                return out

            @staticmethod
            def defs(lv):
                if T.kind(lv) == "runs":
                    return [me.step(lv.k), me.step(lv.k - 1)]
                return []
        eng.tmpl.append(T)
        return {"inst_shape": Seq(b, lo, n), "cls_shape": cv}

    def post(self, eng, a, out):
        if out[0] != "ok":
            return self.fail_exc(eng, out)
        m, e = self.pair(eng, out, 2)
        m, e = tr(eng, m), setterm(eng, e)
        b, lo, n, c = self.v
        if self.none:
            self.ob(eng, "without a shape every shape matches", z3.And(m, e == EMPTY))
            return
        eqs = EQ(*self.v, NF(c))
        ok = z3.And(matched(*self.v), U.SAT(eqs))
        self.ob(eng, "a match has every run in its place and solvable equations", z3.Implies(m, ok))
        self.ob(eng, "whatever has every run in its place and solvable equations is a match", z3.Implies(ok, m))
        self.ob(eng, "the equations are those of the places found", z3.Implies(m, U.same_except_zero(e, eqs)))

    def apply(self, eng, a):
        c = eng.to_V(a["cls_shape"])
        none = is_("N", c)
        eng.oblige("call of asta.utils.shapecheck: the pattern is one a subscript can produce", z3.Or(none, z3.And(is_("T", c), M.WFS(c))))
        i = a["inst_shape"]
        if isinstance(i, Sym) and eng.kind_of(i) == "O":
            raise PyExc("AssertionError")
        s = U.as_seq(eng, i)
        lo, n = z3.simplify(s.lo), z3.simplify(s.n)
        if n.eq(z3.simplify(tlen(s.base))):
            n = tlen(s.base)
        eng.oblige("call of asta.utils.shapecheck: the shape consists of non-negative integers", z3.Or(none, M.natural(s.base, lo, n)))
        # SHu: matched(..) and SAT(EQ(.., NF)); SEu: EQ(.., NF); without a pattern: true, no equations
        m, e = M.SHu(s.base, lo, n, c), M.SEu(s.base, lo, n, c)
        d = eng.fresh(SetS, "shape_eqs")
        eng.assume(z3.Implies(none, z3.And(m, e == EMPTY)))
        eng.assume(z3.Implies(m, U.same_except_zero(d, e)))
        return Tup([eng.mkbool(m), eng.alloc("set", d)])


# ---------------------------------------------------------------- lemmas
class Lemma(Contract):
    """Facts about the specification functions; each part is one step of an induction or one case."""
    qual = None
    worlds = WORLD
    parts = ()

    def name(self):
        return "lemma:" + self.label

    def setup(self, eng):
        eng.use_monoid()
        eng.use_sub()
        self.part = self.parts[eng.choose(len(self.parts))]
        self.given(eng)
        return {}

    def run(self, eng, f, a):
        return None

    def post(self, eng, a, out):
        f, *hyps = getattr(self, "p_" + self.part[0])(eng)
        for h in hyps:
            eng.assume(h)
        if eng.check(ms=2000) == z3.unsat:
            f = False
        self.ob(eng, self.part[1], f)


class RunLemma(Lemma):
    """Every run but the first starts after an ellipsis."""
    label = "runs of a pattern"
    props = ("C01", "C02")
    parts = (("base", "the first run"), ("step", "from a run to the next"))

    def given(self, eng):
        c = self.c = eng.fresh(TupS, "pattern")
        for f in run_defs0(c):
            eng.assume(f)
        eng.assume(no_rep(c))

    def D(self, i):
        c = self.c
        return z3.And(z3.Implies(z3.And(0 < i, i <= NF(c)), ST(c, i) > 1), z3.Implies(z3.And(0 <= i, i <= NF(c), 0 < ST(c, i), ST(c, i) <= tlen(c)), isE(c, ST(c, i) - 1)))

    def p_base(self, eng):
        return (self.D(z3.IntVal(0)),)

    def p_step(self, eng):
        i, c = eng.fresh(Int, "i"), self.c
        return self.D(i + 1), 0 <= i, i < NF(c), self.D(i), ST(c, i + 1) == NE(c, ST(c, i)) + 1


class SliceLemma(Lemma):
    """Concatenation of neighbouring slices inside a concatenation."""
    label = "neighbouring slices"
    props = ("C01",)
    parts = (("slices", "two slices"), ("elem", "a slice and the next element"))

    def setup(self, eng):
        self.part = self.parts[eng.choose(len(self.parts))]
        for f in monoid() + subtuples():
            eng.assume(f)
        self.b, self.x = eng.fresh(TupS, "b"), eng.fresh(TupS, "x")
        self.l, self.m, self.h = (eng.fresh(Int, k) for k in "lmh")
        return {}

    def p_slices(self, eng):
        b, x, l, m, h = self.b, self.x, self.l, self.m, self.h
        return (tcat(tcat(x, tsub(b, l, m)), tsub(b, m, h)) == tcat(x, tsub(b, l, h)), 0 <= l, l <= m, m <= h, h <= tlen(b),
                tcat(x, tcat(tsub(b, l, m), tsub(b, m, h))) == tcat(tcat(x, tsub(b, l, m)), tsub(b, m, h)))

    def p_elem(self, eng):
        b, x, l, m = self.b, self.x, self.l, self.m
        u = tunit(tat(b, m))
        return (tcat(tcat(x, tsub(b, l, m)), u) == tcat(x, tsub(b, l, m + 1)), 0 <= l, l <= m, m < tlen(b),
                tcat(x, tcat(tsub(b, l, m), u)) == tcat(tcat(x, tsub(b, l, m)), u))


class SplitLemma(Lemma):
    """Looking for the runs from left to right finds a way to split the shape whenever there is one (patterns of sizes, -1 and ellipses)."""
    label = "greedy match"
    props = ("C01",)
    trusted = ("the dimensions of an array are non-negative integers",)
    parts = (("down", "a match at the end has every step"), ("sound", "a match is a split of the shape"), ("base", "the search keeps up with any split: start"),
             ("step", "the search keeps up with any split: next run"), ("end", "the search keeps up with any split: end"),
             ("wild", "-1 stands for any positive size"), ("size", "a size stands for itself"),
             ("noeq", "sizes and -1 give no equations"), ("noeqs", "nor do the runs together"), ("solv", "no equations are solvable"))

    def given(self, eng):
        b, c = eng.fresh(TupS, "dims"), eng.fresh(TupS, "pattern")
        lo, n = eng.fresh(Int, "lo"), eng.fresh(Int, "n")
        a = self.a = (b, lo, n, c)
        j = z3.Int("j!gm")
        eng.assume(z3.And(lo >= 0, n >= 0, lo + n <= tlen(b)))
        eng.assume(z3.ForAll([j], z3.Implies(z3.And(lo <= j, j < lo + n), z3.And(is_("I", tat(b, j)), V.ival(tat(b, j)) >= 0)), patterns=[tat(b, j)]))
        eng.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < tlen(c)), z3.Or(isE(c, j), is_("I", tat(c, j)))), patterns=[tat(c, j)]))
        for f in run_defs(c):
            eng.assume(f)
        fs, self.step = match_defs(*a)
        for f in fs[:-1]:
            eng.assume(f)
        eng.assume(U.me_axiom())
        self.end, self.k = lo + n, NF(c)
        q = z3.Function("q!split", Int, Int)       # any split: where the runs are placed
        ln = lambda i: tlen(F(c, i))
        self.ln, self.q = ln, q
        self.E = lambda i: z3.If(i == 0, lo, q(i - 1) + ln(i - 1))
        last = lambda i: z3.And(i == self.k - 1, z3.Not(right(c)))
        me = lambda i, p: ME(F(c, i), z3.IntVal(0), b, p, ln(i))

        def placed(i, e, p):
            """Run i is at p, the ellipsis before it (if there is one) stands for the dimensions from e."""
            return z3.And(e <= p, p + ln(i) <= self.end, me(i, p), ZF(b, e, p), z3.Implies(z3.And(i == 0, z3.Not(left(c))), p == lo), z3.Implies(last(i), p + ln(i) == self.end))
        self.placed = placed
        self.rest = lambda e: z3.And(z3.Implies(right(c), z3.And(e <= self.end, ZF(b, e, self.end))), z3.Implies(z3.And(self.k == 0, z3.Not(right(c))), n == 0))

    def Inv(self, i):
        b, lo, n, c = self.a
        return z3.And(OKP(*self.a, i), lo <= P(*self.a, i), P(*self.a, i) <= self.E(i), ZF(b, P(*self.a, i), self.E(i)))

    def p_down(self, eng):
        i = eng.fresh(Int, "i")
        return z3.And(OKP(*self.a, i), STEP(*self.a, i)), 0 <= i, i < self.k, self.step(i), OKP(*self.a, i + 1)

    def p_sound(self, eng):
        i, a = eng.fresh(Int, "i"), self.a
        return (z3.And(z3.Implies(z3.And(0 <= i, i < self.k), z3.And(self.placed(i, P(*a, i), Q(*a, i)), P(*a, i + 1) == Q(*a, i) + self.ln(i))), P(*a, 0) == a[1], self.rest(P(*a, self.k))),
                matched(*a), z3.Implies(z3.And(0 <= i, i < self.k), z3.And(STEP(*a, i), HAS(*a, i))), self.step(i), self.step(self.k - 1), z3.Implies(self.k > 0, z3.And(STEP(*a, self.k - 1), HAS(*a, self.k - 1))))

    def p_base(self, eng):
        return (self.Inv(z3.IntVal(0)),)

    def p_step(self, eng):
        b, lo, n, c = a = self.a
        i, j0 = eng.fresh(Int, "i"), eng.fresh(Int, "first")
        j = z3.Int("j!fz")
        z = lambda j: zero(tat(F(c, i), j))
        nz = lambda h: z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < h), z3.Not(z(j))), patterns=[tat(F(c, i), j)])
        # the first zero of the run, if it has one
        first = z3.Or(nz(self.ln(i)), z3.And(0 <= j0, j0 < self.ln(i), z(j0), nz(j0)))
        for h in (0 <= i, i < self.k, self.Inv(i), self.placed(i, self.E(i), self.q(i)), self.step(i), first):
            eng.assume(h)
        g, q = Q(*a, i), self.q(i)
        p = eng.fresh(Int, "any")
        # if there is a zero in between, p is one
        eng.assume(z3.Implies(z3.Not(ZF(b, P(*a, i + 1), self.E(i + 1))), z3.And(P(*a, i + 1) <= p, p < self.E(i + 1), zero(tat(b, p)))))
        ok = lambda x: U.okel(tat(F(c, i), x), tat(b, q + x))
        ok2 = lambda x: U.okel(tat(F(c, i), x), tat(b, g + x))
        # instances of the definition of an elementwise match
        for x in (j0, j0 - (q - g), p - q):
            eng.assume(z3.Implies(z3.And(0 <= x, x < self.ln(i), ME(F(c, i), z3.IntVal(0), b, q, self.ln(i))), ok(x)))
            eng.assume(z3.Implies(z3.And(0 <= x, x < self.ln(i), ME(F(c, i), z3.IntVal(0), b, g, self.ln(i))), ok2(x)))
        for h in (HAS(*a, i), g <= q, ZF(b, P(*a, i), q), ZF(b, P(*a, i), g), STEP(*a, i),
                  z3.Implies(z3.And(0 <= j0, j0 < self.ln(i), z(j0)), z3.And(zero(tat(b, q + j0)), zero(tat(b, g + j0)))),
                  z3.Implies(z3.And(0 <= j0, j0 < self.ln(i), z(j0), g < q), g + j0 >= q),
                  z3.Implies(z3.And(0 <= j0, j0 < self.ln(i), z(j0), g < q), z(j0 - (q - g))),
                  z3.Implies(z3.Not(nz(self.ln(i))), g == q),
                  z3.Implies(z3.And(nz(self.ln(i)), q <= p, p < q + self.ln(i)), z3.And(ok(p - q), z3.Not(zero(tat(b, p))))),
                  z3.Implies(z3.And(P(*a, i + 1) <= p, p < self.E(i + 1)), z3.Not(zero(tat(b, p)))),
                  z3.And(OKP(*a, i + 1), P(*a, i + 1) <= self.E(i + 1), lo <= P(*a, i + 1))):
            eng.hint(h)
        return (self.Inv(i + 1),)

    def p_end(self, eng):
        return matched(*self.a), self.Inv(self.k), self.rest(self.E(self.k))

    def p_wild(self, eng):
        x = eng.fresh(Int, "x")
        return U.okel(V.I(-1), V.I(x)) == (x > 0), x >= 0

    def p_size(self, eng):
        x, y = eng.fresh(Int, "x"), eng.fresh(Int, "y")
        return U.okel(V.I(x), V.I(y)) == (x == y), y >= 0, x != -1

    def p_noeq(self, eng):
        b, lo, n, c = self.a
        i, p, k = eng.fresh(Int, "i"), eng.fresh(Int, "p"), eng.fresh(Int, "k")
        r = F(c, i)
        return (CE(r, 0, b, p, k + 1) == EMPTY, 0 <= i, i < self.k, lo <= p, p + k < lo + n, 0 <= k, k < self.ln(i), CE(r, 0, b, p, k) == EMPTY, U.ce_step(r, z3.IntVal(0), b, p, k))

    def p_noeqs(self, eng):
        a = self.a
        i = eng.fresh(Int, "i")
        return (EQ(*a, i + 1) == EMPTY, 0 <= i, i < self.k, self.step(i), EQ(*a, i) == EMPTY, CE(F(a[3], i), z3.IntVal(0), a[0], Q(*a, i), self.ln(i)) == EMPTY)

    def p_solv(self, eng):
        return (U.SAT(EMPTY),)


tr, setterm = U.tr, U.setterm
ALL = [Split, ShapeCheck, RunLemma, SliceLemma, SplitLemma]
DEPS = [Split, ShapeCheck]
