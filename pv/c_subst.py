"""Contracts of substitution: the current values of placeholders are written in place."""
from contract import *
from models import *
from world import xinteger, xnumber
from c_decor import Local, set_ox, V_, S_, TY
import c_registers as R
from c_meta import w_solid, mk

WORLD = ((True, True),)
SUBT = z3.Function("SUBT", TupS, TupS)          # a shape with the current values written in place
SINIT = z3.Function("SINIT", TupS, Bool)        # every name in it has a value, every number is an integer
VALIDS = z3.Function("VALIDS", TupS, Bool)      # every element is a dimension type, recursively
FOLD = z3.Function("FOLD", TupS, Int, TupS)
PRE = z3.Function("PRE", TupS, Int, TupS)       # the first k elements
FLAT = z3.Function("FLAT", TupS, Int, TupS)
UPT = z3.Function("UPT", TupS, Int, Bool)       # the first k elements are initialised
SYU = z3.Function("SYU", ExprS, Int, Bool)      # the first k symbols of an expression have a value, or no entry
XF = z3.Function("XF", ExprS, Int, ExprS)       # expression with the first k of its symbols substituted
SV = z3.Function("SV", V, V)                    # what the shapes register holds under a name
xsubs = z3.Function("xsubs", ExprS, V, V, ExprS)
fsset = z3.Function("fsset", ExprS, ObjS)
xtoint = z3.Function("xtoint", ExprS, Int)
fs = lambda x: seqof(fsset(x))
sat_ = lambda s, i: V.xval(tat(s, i))


def pre_defs(b, k):
    return [PRE(b, 0) == EMPTYT, z3.Implies(z3.And(0 <= k, k < tlen(b)), PRE(b, k + 1) == tcat(PRE(b, k), tunit(tat(b, k)))), PRE(b, tlen(b)) == b]


def int_(x):
    return z3.Or(ExprS.is_XInt(x), z3.And(ExprS.is_XOther(x), xinteger(x), xnumber(x)))


def num_(x):
    return z3.Or(ExprS.is_XInt(x), z3.And(ExprS.is_XOther(x), xnumber(x)))


class Subst(Contract):
    """Every placeholder is replaced by its value now; a name without one, or a number that is no integer, is reported."""
    qual = "asta.substitution.substitute"
    props = ("C09", "C15")
    worlds = WORLD
    expect = ("ok", "exc")
    trusted = ("sympy: free_symbols lists the symbols of an expression, subs replaces one of them; values are substituted one symbol after the other",
               "recursive calls of substitute satisfy its contract (partial correctness)",
               "a placeholder's parts are tuples of dimensions and named placeholders (contracts of Placeholder.__add__)")

    def setup(self, eng):
        w = self.w
        eng.use_monoid()
        self.rm = eng.fresh(Bool, "raise_errors")
        set_ox(eng, w, raise_errors=SBool(self.rm))
        eng.ghost_set("rep", z3.BoolVal(False))
        # dims: any values
        dm = w.proxies["asta.dims"]
        self.dmap, self.has, self.get = R.symdict(eng, "dims")
        rec = eng.rec(dm)
        eng.put(dm, (rec.data[0], dict(rec.data[1], symbol_map=self.dmap)))
        k = z3.Const("k!sb", V)
        eng.assume(z3.ForAll([k], z3.Implies(z3.Select(self.has, k), z3.Or(is_("N", z3.Select(self.get, k)), isnum(z3.Select(self.get, k)))), patterns=[z3.Select(self.get, k)]))
        # shapes: any values, read by name
        sh = w.proxies["asta.shapes"]

        def read(e, o, n, d):
            if o == sh:
                return (Sym(SV(e.to_V(n))),)
        eng.hooks.setdefault("getattr_dyn", []).append(read)
        ph = eng.to_V(w.cls("asta.placeholder.Placeholder"))
        self.isph = lambda v: z3.And(is_("O", v), inst(v, ph))
        nm = z3.Const("n!sb", V)
        eng.assume(z3.ForAll([nm], z3.Or(is_("T", SV(nm)), self.isph(SV(nm))), patterns=[SV(nm)]))
        s = eng.fresh(TupS, "shape")
        self.s = s
        self.typing(eng, s)
        eng.contracts = dict(eng.contracts)
        eng.contracts["asta.display.handle_error"] = Local(lambda e, a: self.report(e))
        eng.contracts["asta.substitution.substitute"] = Local(self.rec)
        self.rules(eng)
        return {"shape": Seq(s, z3.IntVal(0), tlen(s)), "ox": w.ox}

    def report(self, e):
        self.ob(e, "the configuration is left as it was", e.getattr(self.w.ox, "raise_errors").t == self.rm)
        if e.branch(self.rm):
            raise PyExc("TypeError")
        e.ghost_set("rep", z3.BoolVal(True))

    def rec(self, e, a):
        q = a["shape"]
        b = e.tup_term(e.list_tuple(q) if isinstance(q, Ref) else e.as_seq(q))
        self.ob(e, "a recursive call is made on a shape", z3.And(VALIDS(b), z3.BoolVal(a["ox"] == self.w.ox)))
        if e.branch(SINIT(b)):
            return Tup([e.alloc("list", Seq(SUBT(b), z3.IntVal(0), tlen(SUBT(b)))), e.alloc("set", EMPTY), True])
        self.report(e)
        x = e.fresh(TupS, "half")
        return Tup([e.alloc("list", Seq(x, z3.IntVal(0), tlen(x))), e.alloc("set", e.fresh(SetS, "unset")), False])

    # ------------------------------------------------------------ what a shape may hold
    def typing(self, eng, s):
        """Facts of the elements of a valid shape."""
        w = self.w
        eng.assume(VALIDS(s))
        i = z3.Int("i!ty")
        e = tat(s, i)
        sc = eng.to_V(w.module_get(eng, "asta.scalar", "ScalarMeta")) if w.module_get(eng, "asta.scalar", "ScalarMeta") is not None else V.N
        ks = z3.Or([is_(x, e) for x in "IBENXT"] + [self.isph(e), z3.And(is_("O", e), inst(e, sc))])
        c = attr(e, "contents")
        plain = z3.And(hasa(e, "name"), hasa(e, "contents"), hasa(e, "unpacked"), z3.Or(is_("S", attr(e, "name")), is_("N", attr(e, "name"))), is_("B", attr(e, "unpacked")),
                       is_("O", c), inst(c, V_("builtins.list")), solid(V.oval(c)) == w_solid("builtins.list"))
        j = z3.Int("j!ty")
        y = tat(seqof(V.oval(c)), j)
        part = z3.Or(is_("T", y), z3.And(self.isph(y), hasa(y, "name"), z3.Not(is_("N", attr(y, "name"))), hasa(y, "contents"), is_("O", attr(y, "contents")),
                                         inst(attr(y, "contents"), V_("builtins.list")), solid(V.oval(attr(y, "contents"))) == w_solid("builtins.list"), tlen(seqof(V.oval(attr(y, "contents")))) == 0))
        eng.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < tlen(s)), z3.And(
            ks, z3.Implies(is_("T", e), VALIDS(V.tval(e))),
            z3.Implies(self.isph(e), z3.And(plain, z3.Implies(is_("N", attr(e, "name")), z3.And(
                VALIDS(seqof(V.oval(c))), z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < tlen(seqof(V.oval(c)))), part), patterns=[y]))))))), patterns=[e]))
        x = z3.Const("x!ty", ExprS)
        eng.assume(z3.ForAll([x, j], z3.Implies(z3.And(0 <= j, j < tlen(fs(x))), z3.And(is_("X", tat(fs(x), j)), is_symbol(V.xval(tat(fs(x), j))))), patterns=[tat(fs(x), j)]))

    # ------------------------------------------------------------ specification
    def symok(self, y):
        return z3.Not(z3.And(z3.Select(self.has, y), is_("N", z3.Select(self.get, y))))

    def symsok(self, x, k):
        return SYU(x, k)

    def value(self, x):
        return XF(x, tlen(fs(x)))

    def itemok(self, e):
        x = V.xval(e)
        v = self.value(x)
        return z3.If(is_("X", e), z3.And(self.symsok(x, tlen(fs(x))), z3.Or(z3.Not(num_(v)), int_(v))),
                     z3.If(self.isph(e), z3.If(is_("N", attr(e, "name")), SINIT(seqof(V.oval(attr(e, "contents")))), is_("T", SV(attr(e, "name")))),
                           z3.If(is_("T", e), SINIT(V.tval(e)), True)))

    def out(self, e):
        x = self.value(V.xval(e))
        v = SV(attr(e, "name"))
        return z3.If(is_("X", e), tunit(z3.If(int_(x), V.I(xtoint(x)), V.X(x))),
                     z3.If(self.isph(e), z3.If(is_("N", attr(e, "name")), SUBT(seqof(V.oval(attr(e, "contents")))),
                                               z3.If(V.bval(attr(e, "unpacked")), V.tval(v), tunit(v))),
                           z3.If(is_("T", e), SUBT(V.tval(e)), tunit(e))))

    def upto(self, s, k):
        return UPT(s, k)

    @staticmethod
    def conj(F, s, n, j, ok):
        """F(s, k): the first k elements are ok; one unfolding, and that a longer prefix contains a shorter one."""
        return [F(s, 0), z3.Implies(z3.And(0 <= j, j < n), z3.And(F(s, j + 1) == z3.And(F(s, j), ok), z3.Implies(F(s, n), F(s, j + 1))))]

    def rules(self, eng):
        me = self
        s = self.s
        eng.assume(UPT(s, 0))
        eng.assume(SINIT(s) == self.upto(s, tlen(s)))
        eng.assume(SUBT(s) == FOLD(s, tlen(s)))
        eng.assume(FOLD(s, 0) == EMPTYT)

        def source(lv):
            n = z3.simplify(lv.n) if lv.n is not None and not isinstance(lv.n, int) else None
            if n is None or not z3.is_app(n) or n.decl().name() != "tlen":
                return None, None
            b = n.arg(0)
            if b.eq(s):
                return "shape", b
            if b.decl().name() == "seqof" and b.arg(0).decl().name() == "fsset":
                return "symbols", b.arg(0).arg(0)
            return "tuple", b

        class T:
            @staticmethod
            def invs(lv):
                kind, b = source(lv)
                if kind is None:
                    return []
                out = []
                if kind == "tuple":
                    for x, a, c in lv.lists():
                        if a is not None:
                            out.append((("pre", x), c == tcat(a, PRE(b, lv.k))))
                    return out
                up = me.upto(b, lv.k) if kind == "shape" else me.symsok(b, lv.k)
                r0, r = lv.ghost("rep")
                out = [(("raise",), z3.Implies(me.rm, up)), (("rep",), r == z3.Or(r0, z3.Not(up)))]
                for x, a, c in lv.modvars():
                    if isinstance(c, (SBool, bool)) and isinstance(a, (SBool, bool)):
                        t = lambda v: z3.BoolVal(v) if isinstance(v, bool) else v.t
                        out.append((("init", x), t(c) == z3.And(t(a), up)))
                    if kind == "symbols" and isinstance(c, Sym):
                        out.append((("expr", x), z3.Implies(up, c.t == V.X(XF(b, lv.k)))))
                        out.append((("isx", x), is_("X", c.t)))
                for x, a, c in lv.sets():
                    if a is not None:
                        out.append((("names", x), z3.Implies(up, c == a)))
                if kind == "shape":
                    for x, a, c in lv.lists():
                        if a is not None:
                            out.append((("fold", x), z3.Implies(up, c == tcat(a, FOLD(b, lv.k)))))
                return out

            @staticmethod
            def defs(lv):
                kind, b = source(lv)
                k = lv.k
                out = []
                if kind == "tuple":
                    for j in (k, k - 1):
                        out += pre_defs(b, j)
                elif kind == "shape":
                    for j in (k, k - 1):
                        out += me.conj(UPT, b, tlen(b), j, me.itemok(tat(b, j)))
                        out.append(z3.Implies(z3.And(0 <= j, j < tlen(b)), FOLD(b, j + 1) == tcat(FOLD(b, j), me.out(tat(b, j)))))
                elif kind == "symbols":
                    out.append(XF(b, 0) == b)
                    for j in (k, k - 1):
                        y = tat(fs(b), j)
                        v = z3.Select(me.get, y)
                        out += me.conj(SYU, b, tlen(fs(b)), j, me.symok(y))
                        out.append(z3.Implies(j >= 0, XF(b, j + 1) == z3.If(z3.And(z3.Select(me.has, y), z3.Not(is_("N", v))), xsubs(XF(b, j), y, v), XF(b, j))))
                return out
        eng.tmpl.append(T)

    def post(self, eng, a, out):
        ok, rm = SINIT(self.s), self.rm
        has, get = R.dict_after(eng, self.dmap)
        self.ob(eng, "no value is changed", z3.And(has == self.has, get == self.get))
        if out[0] == "exc":
            self.ob(eng, "only a TypeError is raised", exc_isa(out[1].cls, "TypeError"), f"{out[1]} {out[1].value}")
            self.ob(eng, "nothing is raised with raise-errors off", rm)
            self.ob(eng, "nothing is raised when every name has a value and every number is an integer", z3.Not(ok))
            return
        r = out[1]
        if not (isinstance(r, Tup) and len(r.items) == 3 and all(isinstance(x, Ref) for x in r.items[:2]) and eng.rec(r.items[0]).kind == "list" and eng.rec(r.items[1]).kind == "set"):
            self.ob(eng, "sizes, names without value, and whether there are none are returned", False, str(r))
            return
        rep = eng.ghost_get("rep")
        self.ob(eng, "in raising mode nothing is returned unless every name has a value", z3.Implies(rm, ok))
        self.ob(eng, "what has no value is reported", z3.Implies(z3.Not(ok), rep))
        self.ob(eng, "nothing is reported when every name has a value", z3.Implies(ok, z3.Not(rep)))
        f = eng.truth(r.items[2])
        self.ob(eng, "the flag says whether every name has a value", (f if not isinstance(f, bool) else z3.BoolVal(f)) == ok)
        self.ob(eng, "no name is listed as unset when every name has a value", z3.Implies(ok, eng.rec(r.items[1]).data == EMPTY))
        self.ob(eng, "the values are written in place, in order", z3.Implies(ok, eng.tup_term(eng.list_tuple(r.items[0])) == SUBT(self.s)))


class Refresh(Contract):
    """The annotation with its shape rewritten: placeholders by their values now, spliced; everything else is kept."""
    qual = "asta.origins.refresh"
    props = ("C09", "C10")
    worlds = WORLD
    trusted = ("subscripting an asta type keeps dtype, kind and attributes (contracts of __getitem__)",)
    expect = ("ok", "exc")

    def setup(self, eng):
        w = self.w
        eng.use_monoid()
        self.rm = eng.fresh(Bool, "raise_errors")
        set_ox(eng, w, raise_errors=SBool(self.rm))
        an = eng.freshV("annotation")
        self.an = an.t
        eng.assume(is_("O", an.t))
        eng.assume(hasa(an.t, "shape"))
        sh = self.sh = attr(an.t, "shape")
        eng.assume(z3.Or(is_("N", sh), is_("T", sh)))
        self.b = V.tval(sh)
        self.log = []

        def sub(e, a):
            self.ob(e, "the shape of the annotation is substituted", z3.And(e.to_V(a["shape"]) == sh, is_("T", sh), z3.BoolVal(a["ox"] == w.ox)))
            if e.branch(SINIT(self.b)):
                t = SUBT(self.b)
                return Tup([e.alloc("list", Seq(t, z3.IntVal(0), tlen(t))), e.alloc("set", EMPTY), True])
            if e.branch(self.rm):
                raise PyExc("TypeError")
            x = e.fresh(TupS, "half")
            return Tup([e.alloc("list", Seq(x, z3.IntVal(0), tlen(x))), e.alloc("set", e.fresh(SetS, "unset")), False])
        eng.contracts = dict(eng.contracts)
        eng.contracts["asta.substitution.substitute"] = Local(sub)
        self.new = z3.Function("subscripted", V, V, V)

        def getitem(e, o, k):
            if e.to_V(o).eq(an.t):
                return Sym(self.new(an.t, e.to_V(k)))
        eng.hooks.setdefault("getitem", []).append(getitem)

        class T:
            @staticmethod
            def src(lv):
                n = z3.simplify(lv.n) if lv.n is not None and not isinstance(lv.n, int) else None
                return n.arg(0) if n is not None and z3.is_app(n) and n.decl().name() == "tlen" else None

            @staticmethod
            def invs(lv):
                b = T.src(lv)
                return [] if b is None else [(("flat", x), c == tcat(a, FLAT(b, lv.k))) for x, a, c in lv.lists() if a is not None]

            @staticmethod
            def defs(lv):
                b = T.src(lv)
                out = [] if b is None else [FLAT(b, 0) == EMPTYT]
                for j in (lv.k, lv.k - 1) if b is not None else ():
                    e = tat(b, j)
                    out.append(z3.Implies(z3.And(0 <= j, j < tlen(b)), FLAT(b, j + 1) == tcat(FLAT(b, j), z3.If(is_("T", e), V.tval(e), tunit(e)))))
                return out
        eng.tmpl.append(T)
        return {"annotation": an, "ox": w.ox}

    def post(self, eng, a, out):
        t = SUBT(self.b)
        ok = z3.Or(is_("N", self.sh), SINIT(self.b))
        if out[0] == "exc":
            self.ob(eng, "only a TypeError is raised", exc_isa(out[1].cls, "TypeError"), str(out[1]))
            self.ob(eng, "it is raised in raising mode, for a placeholder without value", z3.And(self.rm, z3.Not(ok)))
            return
        r = out[1]
        if not (isinstance(r, Tup) and len(r.items) == 2):
            self.ob(eng, "an annotation and a flag are returned", False, str(r))
            return
        f = eng.truth(r.items[1])
        self.ob(eng, "the flag says whether every placeholder has a value", (z3.BoolVal(f) if isinstance(f, bool) else f) == ok)
        x = eng.to_V(r.items[0])
        self.ob(eng, "without a shape the annotation stays as it is", z3.Implies(is_("N", self.sh), x == self.an))
        self.ob(eng, "the annotation is subscripted with the values, spliced in place",
                z3.Implies(z3.And(is_("T", self.sh), ok), x == self.new(self.an, V.T(FLAT(t, tlen(t))))))


ALL = [Subst, Refresh]
DEPS = []
