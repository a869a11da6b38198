"""Contracts of asta.utils: the shape matcher, the attribute check, the solver wrapper."""
from contract import *
from models import *

# ---------------------------------------------------------------- specification functions
ME = z3.Function("ME", TupS, Int, TupS, Int, Int, Bool)      # two segments of equal length match elementwise
CE = z3.Function("CE", TupS, Int, TupS, Int, Int, SetS)      # the equations of two segments
solv = z3.Function("solvable", SetS, Bool)                   # sympy finds at least one solution
xsimp = z3.Function("xsimplify", ExprS, ExprS)


def isx(t):
    return is_("X", t)


def skip(x, y):
    return z3.And(isnum(x), isnum(y), z3.Or(z3.And(num(x) == -1, num(y) != 0), z3.And(num(y) == -1, num(x) != 0)))


def xn(x, y):
    """x is an expression and y a number"""
    return z3.And(isx(x), isnum(y))


def simp0(x, y):
    return veq(V.X(xsimp(xsub(V.xval(x), y))), V.I(0))


def okel(x, y):
    return z3.Or(skip(x, y), xn(x, y), xn(y, x), z3.And(isx(x), isx(y), simp0(x, y)),
                 z3.And(z3.Not(xn(x, y)), z3.Not(xn(y, x)), z3.Not(z3.And(isx(x), isx(y))), veq(x, y)))


def addeqn(s, x, y):
    return z3.If(xn(x, y), z3.Store(s, V.X(xsub(V.xval(x), y)), z3.BoolVal(True)),
                 z3.If(xn(y, x), z3.Store(s, V.X(xsub(V.xval(y), x)), z3.BoolVal(True)), s))


def me_def(b1, l1, b2, l2, n):
    i = z3.Int("i!me")
    return ME(b1, l1, b2, l2, n) == z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), okel(tat(b1, l1 + i), tat(b2, l2 + i))))


def me_axiom():
    b1, b2 = z3.Consts("b1!me b2!me", TupS)
    l1, l2, n = z3.Ints("l1!me l2!me n!me")
    return z3.ForAll([b1, b2, l1, l2, n], me_def(b1, l1, b2, l2, n), patterns=[ME(b1, l1, b2, l2, n)])


def ce_step(b1, l1, b2, l2, k):
    return z3.And(CE(b1, l1, b2, l2, 0) == EMPTY,
                  z3.Implies(k >= 0, CE(b1, l1, b2, l2, k + 1) == addeqn(CE(b1, l1, b2, l2, k), tat(b1, l1 + k), tat(b2, l2 + k))))


def minus0(s):
    return z3.Store(z3.Store(s, V.I(0), z3.BoolVal(False)), V.X(xint(z3.IntVal(0))), z3.BoolVal(False))


def SAT(s):
    """The system has a solution, as far as the solver can tell."""
    return z3.Or(minus0(s) == EMPTY, solv(minus0(s)))


def as_seq(eng, v):
    if isinstance(v, Tup):
        return eng.as_seq(Sym(eng.to_V(v)))
    if isinstance(v, Seq):
        return v
    if isinstance(v, Sym):
        return eng.as_seq(v)
    raise Unsupported("argument is not a tuple")


def setterm(eng, v):
    if isinstance(v, Ref) and eng.rec(v).kind == "set":
        return eng.rec(v).data
    raise Unsupported("argument is not a set")


def tr(eng, v):
    r = eng.truth(v)
    return z3.BoolVal(r) if isinstance(r, bool) else r


def same_except_zero(a, b):
    return minus0(a) == minus0(b)


class UtilContract(Contract):
    def fail_exc(self, eng, out):
        self.ob(eng, "returns a verdict", False, f"raises {out[1]}")

    def pair(self, eng, out, n):
        """Components of a returned tuple."""
        v = out[1]
        if isinstance(v, Tup) and len(v.items) == n:
            return v.items
        raise Unsupported("unexpected shape of the result")


class CheckEqual(UtilContract):
    qual = "asta.utils.check_equal"
    props = ("C01", "C02")

    def setup(self, eng):
        b1, b2 = eng.fresh(TupS, "sh1"), eng.fresh(TupS, "sh2")
        l1, l2, n1, n2 = (eng.fresh(Int, x) for x in ("l1", "l2", "n1", "n2"))
        for x in (l1, l2, n1, n2):
            eng.assume(x >= 0)
        s0 = eng.fresh(SetS, "eqs")
        self.v = (b1, l1, n1, b2, l2, n2, s0)
        eng.assume(me_def(b1, l1, b2, l2, n1))
        v = self.v

        class T:
            @staticmethod
            def invs(lv):
                out = []
                i = z3.Int("i!inv")
                out.append((("prefix",), z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < lv.k), okel(tat(b1, l1 + i), tat(b2, l2 + i))), patterns=[tat(b1, l1 + i)])))
                for x, a, b in lv.sets():
                    out.append((("ce", x), b == CE(b1, l1, b2, l2, lv.k)))
                    out.append((("s0ce", x), b == union(s0, CE(b1, l1, b2, l2, lv.k))))
                    out.append((("same", x), b == s0))
                return out

            @staticmethod
            def defs(lv):
                return [ce_step(b1, l1, b2, l2, lv.k), ce_step(b1, l1, b2, l2, lv.k - 1)]
        eng.tmpl.append(T)
        self.eq = eng.alloc("set", s0)
        return {"shape_1": Seq(b1, l1, n1), "shape_2": Seq(b2, l2, n2), "equations": self.eq}

    def post(self, eng, a, out):
        b1, l1, n1, b2, l2, n2, s0 = self.v
        if out[0] != "ok":
            return self.fail_exc(eng, out)
        m, e = self.pair(eng, out, 2)
        m = tr(eng, m)
        self.ob(eng, "match exactly when lengths agree and every element matches", m == z3.And(n1 == n2, ME(b1, l1, b2, l2, n1)))
        self.ob(eng, "equations of the matched elements are added and none otherwise",
                setterm(eng, e) == z3.If(m, union(s0, CE(b1, l1, b2, l2, n1)), s0))
        self.ob(eng, "the equation set passed in is not changed", eng.rec(self.eq).data == s0)

    def apply(self, eng, a):
        s1, s2 = as_seq(eng, a["shape_1"]), as_seq(eng, a["shape_2"])
        s0 = setterm(eng, a["equations"])
        if not eng.branch(z3.simplify(s1.n == s2.n)):
            return Tup([False, eng.alloc("set", s0)])
        if eng.branch(ME(s1.base, s1.lo, s2.base, s2.lo, s1.n)):
            return Tup([True, eng.alloc("set", union(s0, CE(s1.base, s1.lo, s2.base, s2.lo, s1.n)))])
        return Tup([False, eng.alloc("set", s0)])


class IsSubtuple(UtilContract):
    qual = "asta.utils.is_subtuple"
    props = ("C01", "C02", "C06")
    uses = ("asta.utils.check_equal",)

    def setup(self, eng):
        b1, b2 = eng.fresh(TupS, "sub"), eng.fresh(TupS, "tup")
        l1, l2, n1, n2 = (eng.fresh(Int, x) for x in ("l1", "l2", "n1", "n2"))
        for x in (l1, l2, n1, n2):
            eng.assume(x >= 0)
        s0 = eng.fresh(SetS, "eqs")
        self.v = (b1, l1, n1, b2, l2, n2, s0)
        me = self.me

        class T:
            @staticmethod
            def invs(lv):
                i = z3.Int("i!inv")
                out = [(("none",), z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < lv.k), z3.Not(me(i))), patterns=[me(i)]))]
                for x, a, b in lv.sets():
                    out.append((("same", x), b == s0))
                return out
        eng.tmpl.append(T)
        self.eq = eng.alloc("set", s0)
        return {"sub": Seq(b1, l1, n1), "tup": Seq(b2, l2, n2), "equations": self.eq}

    def me(self, i):
        b1, l1, n1, b2, l2, n2, s0 = self.v
        return ME(b1, l1, b2, l2 + i, n1)

    def post(self, eng, a, out):
        b1, l1, n1, b2, l2, n2, s0 = self.v
        if out[0] != "ok":
            return self.fail_exc(eng, out)
        f, ix, e = self.pair(eng, out, 3)
        f, ix, e = tr(eng, f), eng.as_int(ix), setterm(eng, e)
        i = z3.Int("i!post")
        self.ob(eng, "found: the leftmost position that matches", z3.Implies(f, z3.And(
            0 <= ix, ix + n1 <= n2, self.me(z3.IntVal(ix) if isinstance(ix, int) else ix),
            z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < ix), z3.Not(self.me(i)))))))
        self.ob(eng, "not found: no position matches", z3.Implies(z3.Not(f), z3.ForAll([i], z3.Implies(z3.And(0 <= i, i + n1 <= n2), z3.Not(self.me(i))))))
        ixt = z3.IntVal(ix) if isinstance(ix, int) else ix
        self.ob(eng, "only the equations of the position found are added", e == z3.If(f, union(s0, CE(b1, l1, b2, l2 + ixt, n1)), s0))
        self.ob(eng, "the equation set passed in is not changed", eng.rec(self.eq).data == s0)

    def apply(self, eng, a):
        s1, s2 = as_seq(eng, a["sub"]), as_seq(eng, a["tup"])
        s0 = setterm(eng, a["equations"])
        if eng.subtuple_ground:
            # callers that only want to know whether the pair occurs
            f = FOUND(s1.base, z3.simplify(s1.lo), z3.simplify(s1.n), s2.base, z3.simplify(s2.lo), z3.simplify(s2.n))
            if eng.branch(f):
                return Tup([True, SInt(eng.fresh(Int, "at")), eng.alloc("set", eng.fresh(SetS, "eqs"))])
            return Tup([False, -1, eng.alloc("set", s0)])
        # positions are positions in the whole tuple
        me = lambda q: ME(s1.base, s1.lo, s2.base, q, s1.n)
        q = z3.Int("q!sub")
        lo, hi = s2.lo, s2.lo + s2.n - s1.n
        if eng.choose(2) == 0:
            at = eng.fresh(Int, "at")
            ix = z3.simplify(at - lo)
            eng.assume(z3.And(lo <= at, at <= hi, me(at)))
            eng.assume(z3.ForAll([q], z3.Implies(z3.And(lo <= q, q < at), z3.Not(me(q))), patterns=[me(q)]))
            if eng.check(ms=200) == z3.unsat:
                raise PathDead()
            return Tup([True, SInt(ix), eng.alloc("set", union(s0, CE(s1.base, s1.lo, s2.base, at, s1.n)))])
        eng.assume(z3.ForAll([q], z3.Implies(z3.And(lo <= q, q <= hi), z3.Not(me(q))), patterns=[me(q)]))
        return Tup([False, -1, eng.alloc("set", s0)])


FOUND = z3.Function("FOUND", TupS, Int, Int, TupS, Int, Int, Bool)     # some position of the second segment matches the first


def found_def(b1, l1, n1, b2, l2, n2):
    i = z3.Int("i!fd")
    return FOUND(b1, l1, n1, b2, l2, n2) == z3.Exists([i], z3.And(0 <= i, i + n1 <= n2, ME(b1, l1, b2, l2 + i, n1)))


class AstaSolver(UtilContract):
    qual = "asta.utils.astasolver"
    props = ("C02", "C03")
    trusted = ("sympy.solvers.solve (free_symbols, solve): a system counts as solvable when solve returns at least one solution",)

    def setup(self, eng):
        s0 = eng.fresh(SetS, "eqs")
        x = z3.Const("x!as", V)
        eng.assume(z3.ForAll([x], z3.Implies(z3.Select(s0, x), isx(x)), patterns=[z3.Select(s0, x)]))
        self.s0 = s0
        self.eq = eng.alloc("set", s0)
        nsol = z3.Function("nsol", SetS, Int)
        w = self

        def solve(e, args, kwargs):
            s = setterm(e, args[0])
            ks = e.fresh(TupS, "sols")
            e.assume(tlen(ks) >= 0)
            e.assume((tlen(ks) >= 1) == solv(s))
            return e.alloc("list", Seq(ks, z3.IntVal(0), tlen(ks)))
        self.w.ext_handlers["sympy.solvers.solve"] = solve
        return {"equations": self.eq}

    def post(self, eng, a, out):
        if out[0] != "ok":
            return self.fail_exc(eng, out)
        m, sy, so = self.pair(eng, out, 3)
        self.ob(eng, "solvable exactly when nothing but 0 is left or the solver has a solution", tr(eng, m) == SAT(self.s0))
        self.ob(eng, "nothing but 0 is removed from the system", same_except_zero(eng.rec(self.eq).data, self.s0))

    def apply(self, eng, a):
        v = a["equations"]
        s = setterm(eng, v)
        d = eng.fresh(SetS, "eqs_after")
        eng.assume(same_except_zero(d, s))
        eng.put(v, d)
        sols = eng.fresh(TupS, "solutions")
        r = eng.mkbool(SAT(s))
        return Tup([r, eng.alloc("set", eng.fresh(SetS, "symbols")), eng.alloc("list", Seq(sols, z3.IntVal(0), tlen(sols)))])


# ---------------------------------------------------------------- attributes
AEQ = z3.Function("AEQ", V, ObjS, Int, SetS)     # equations of the first k attribute constraints


def at_key(o, i):
    return tat(keysof(o), i)


def at_ok(x, o, i):
    """The i-th attribute constraint holds of x (an expression only needs the attribute)."""
    k = at_key(o, i)
    v = mget(o, k)
    at = get_attr(x, V.sval(k))
    return z3.And(has_attr(x, V.sval(k)), z3.Or(isx(v), veq(at, v)))


def AM(x, o):
    i = z3.Int("i!am")
    return z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < tlen(keysof(o))), at_ok(x, o, i)), patterns=[at_key(o, i)])


def aeq_step(x, o, k):
    key = at_key(o, k)
    v = mget(o, key)
    return z3.And(AEQ(x, o, 0) == EMPTY, z3.Implies(k >= 0, AEQ(x, o, k + 1) == z3.If(
        isx(v), z3.Store(AEQ(x, o, k), V.X(xsub(V.xval(v), get_attr(x, V.sval(key)))), z3.BoolVal(True)), AEQ(x, o, k))))


AMu = z3.Function("AMu", V, V, Bool)     # attribute constraints (None or a mapping) hold of a value
AEu = z3.Function("AEu", V, V, SetS)     # their equations


def am_def(x, kw):
    o = V.oval(kw)
    return z3.And(z3.Implies(is_("N", kw), z3.And(AMu(x, kw), AEu(x, kw) == EMPTY)),
                  z3.Implies(is_("O", kw), z3.And(AMu(x, kw) == AM(x, o), AEu(x, kw) == AEQ(x, o, tlen(keysof(o))))))


class AttrCheck(UtilContract):
    qual = "asta.utils.attrcheck"
    props = ("C05", "C02", "C03")
    trusted = ("attribute lookup on the value is a pure function of value and name, and no attribute value is the marker class NonInstanceType",)

    def setup(self, eng):
        x, kw = eng.freshV("inst"), eng.freshV("kwattrs")
        o = V.oval(kw.t)
        eng.assume(is_("O", x.t))
        eng.assume(z3.Or(is_("N", kw.t), z3.And(is_("O", kw.t), inst(kw.t, V_("builtins.dict")), solid(V.oval(kw.t)) == 1)))
        i = z3.Int("i!ak")
        s = z3.Const("s!ak", StrS)
        eng.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < tlen(keysof(o))), is_("S", at_key(o, i))), patterns=[at_key(o, i)]))
        marker = eng.to_V(self.w.cls("asta.constants.NonInstanceType"))
        eng.assume(z3.ForAll([s], get_attr(x.t, s) != marker, patterns=[get_attr(x.t, s)]))
        eng.assume(am_def(x.t, kw.t))
        self.x, self.kw, self.o = x.t, kw.t, o
        xt = x.t

        class T:
            @staticmethod
            def invs(lv):
                i = z3.Int("i!inv")
                out = [(("prefix",), z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < lv.k), at_ok(xt, o, i)), patterns=[at_key(o, i)]))]
                for n, a, b in lv.sets():
                    out.append((("aeq", n), b == AEQ(xt, o, lv.k)))
                return out

            @staticmethod
            def defs(lv):
                return [aeq_step(xt, o, lv.k), aeq_step(xt, o, lv.k - 1)]
        eng.tmpl.append(T)
        return {"inst": x, "kwattrs": kw}

    def post(self, eng, a, out):
        if out[0] != "ok":
            return self.fail_exc(eng, out)
        m, e = self.pair(eng, out, 2)
        m = tr(eng, m)
        self.ob(eng, "match exactly when every named attribute exists and equals the required value", m == AMu(self.x, self.kw))
        self.ob(eng, "one equation for every attribute required to equal an expression", z3.Implies(m, setterm(eng, e) == AEu(self.x, self.kw)))

    def apply(self, eng, a):
        x, kw = eng.to_V(a["inst"]), eng.to_V(a["kwattrs"])
        m = AMu(x, kw)
        s = eng.fresh(SetS, "attr_eqs")
        eng.assume(z3.Implies(m, s == AEu(x, kw)))
        return Tup([eng.mkbool(m), eng.alloc("set", s)])


ALL = [CheckEqual, IsSubtuple, AstaSolver, AttrCheck]
DEPS = [CheckEqual, IsSubtuple, AstaSolver, AttrCheck]
