"""Contracts of the check of one value against one annotation."""
from contract import *
from models import *
import c_utils as U
import c_meta as M
from c_decor import CAok, CAeq, Local, set_ox, V_, S_, TY

WORLD = ((True, True),)
LISTK, DICTK, TUPK = "builtins.list", "builtins.dict", "builtins.tuple"
ANY = "typing.Any"
EN = z3.Function("EN", Int, SetS)      # equations of the first k parts
TRUSTED = ("the arguments of a parametrized typing construct are a tuple of the length its kind prescribes",
           "recursive calls of check_annotation satisfy its contract (partial correctness)")


def setterm(eng, v):
    if isinstance(v, Ref) and eng.rec(v).kind == "set":
        return eng.rec(v).data
    raise Unsupported("the equations are not a set")


def text(e, a):
    return e.freshS()


class Check(Contract):
    """Common frame: what every checker owes its caller.

    In raising mode a value that does not conform raises TypeError; otherwise
    it is reported and nothing is raised.  A conforming value is not reported
    and adds exactly its equations.  The configuration and the set of equations
    passed in are left as they were.
    """
    props = ("C13", "C15")
    worlds = WORLD
    expect = ("ok", "exc")
    trusted = TRUSTED
    annotated = True       # takes an annotation argument
    returns = True         # returns equations

    def setup(self, eng):
        w = self.w
        self.rm, self.pp = eng.fresh(Bool, "raise_errors"), eng.fresh(Bool, "print_passes")
        self.every, self.non = eng.fresh(Bool, "check_all"), eng.fresh(Bool, "non_asta")
        self.flags = {"raise_errors": SBool(self.rm), "print_passes": SBool(self.pp), "check_all_sequence_elements": SBool(self.every),
                      "check_non_asta_types": SBool(self.non), "decorated": eng.freshV("decorated")}
        set_ox(eng, w, **self.flags)
        self.v = eng.freshV("value")
        self.ann = eng.freshV("annotation")
        self.E = eng.fresh(SetS, "equations")
        self.eqs = eng.alloc("set", self.E)
        self.ghosts(eng)
        self.locals(eng)
        self.spec(eng, self.v.t, self.ann.t)
        a = {"name": eng.freshS(), "value": self.v, "annotation": self.ann, "equations": self.eqs, "ox": w.ox}
        f = w.func(self.qual)
        names = [x.arg for x in f.node.args.posonlyargs + f.node.args.args + f.node.args.kwonlyargs] if f else list(a)
        return {k: a[k] for k in names if k in a}

    def ghosts(self, eng):
        eng.ghost_set("rep", z3.BoolVal(False))

    def report(self, e):
        r = e.getattr(self.w.ox, "raise_errors")
        if e.istrue(r):
            raise PyExc("TypeError")
        e.ghost_set("rep", z3.BoolVal(True))

    def check(self, e, a):
        v, an = e.to_V(a["value"]), e.to_V(a["annotation"])
        self.ob(e, "the one configuration is handed on", a["ox"] == self.w.ox)
        s = setterm(e, a["equations"])
        if e.branch(CAok(v, an)):
            return e.alloc("set", union(s, CAeq(v, an)))
        self.report(e)
        return e.alloc("set", e.fresh(SetS, "soft_eqs"))

    def locals(self, eng):
        eng.contracts = dict(eng.contracts)
        for q, fn in (("asta.origins.check_annotation", self.check), ("asta.display.handle_error", lambda e, a: self.report(e)),
                      ("asta.display.handle_pass", lambda e, a: None), ("asta.display.qualified_name", text),
                      ("asta.display.get_type_name", text), ("asta.display.type_representation", text)):
            if q != self.qual:
                eng.contracts[q] = Local(fn)

    def spec(self, eng, v, an):
        """Sets self.ok and self.eq (None: no equations)."""
        raise NotImplementedError

    def post(self, eng, a, out):
        ok, rm = self.ok, self.rm
        d = eng.rec(self.w.ox).data[1]
        same = [eng.to_V(d.get(k)) == eng.to_V(x) if k in d else z3.BoolVal(False) for k, x in self.flags.items()]
        self.ob(eng, "the configuration is left as it was", z3.And(same + [z3.BoolVal(set(d) <= set(self.base))]))
        self.ob(eng, "the equations passed in are not changed", eng.rec(self.eqs).data == self.E)
        if out[0] == "exc":
            self.ob(eng, "only a TypeError is raised", exc_isa(out[1].cls, "TypeError"), f"{out[1]} {out[1].value}")
            self.ob(eng, "nothing is raised with raise-errors off", rm, f"{out[1]} {out[1].value}")
            self.ob(eng, "a conforming value is never refused", z3.Not(ok), f"{out[1]} {out[1].value}")
            return
        rep = eng.ghost_get("rep")
        self.ob(eng, "in raising mode a value is accepted only if it conforms", z3.Implies(rm, ok))
        self.ob(eng, "a value that does not conform is reported", z3.Implies(z3.Not(ok), rep))
        self.ob(eng, "nothing is reported for a conforming value", z3.Implies(ok, z3.Not(rep)))
        if self.returns:
            if not (isinstance(out[1], Ref) and eng.rec(out[1]).kind == "set"):
                self.ob(eng, "a set of equations is returned", False, str(out[1]))
                return
            r = eng.rec(out[1]).data
            self.ob(eng, "a conforming value adds exactly the equations of its parts", z3.Implies(ok, r == (union(self.E, self.eq) if self.eq is not None else self.E)))

    @property
    def base(self):
        return set(self.w.base_heap[self.w.ox.id].data[1]) | {"decorated"}

    # ---------------------------------------------------------------- helpers
    def parts(self, eng, n, val, an, F=EN, name=""):
        """n parts, the j-th a value val(j) to conform to an(j): the fold over them."""
        return self.fold(eng, n, lambda j: CAok(val(j), an(j)), lambda j: CAeq(val(j), an(j)), val, F, name)

    def fold(self, eng, n, okf, eqf, trig, F=EN, name=""):
        i = z3.Int("i!pt")
        upto = lambda k: z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < k), okf(i)), patterns=[trig(i)])
        eng.assume(F(0) == EMPTY)
        rm, E = self.rm, self.E

        class T:
            @staticmethod
            def invs(lv):
                rep0, rep = lv.ghost("rep")
                out = [(("raise", name), z3.Implies(rm, upto(lv.k))), (("rep", name), rep == z3.Or(rep0, z3.Not(upto(lv.k))))]
                for x, a, b in lv.sets():
                    if ("v", lv.frame, x) in lv.mods:
                        out.append((("eqs", name, x), z3.Implies(upto(lv.k), b == union(E, F(lv.k)))))
                        out.append((("eqs2", name, x), z3.Implies(upto(lv.k), union(E, b) == union(E, F(lv.k)))))
                return out

            @staticmethod
            def defs(lv):
                st = lambda j: z3.Implies(j >= 0, F(j + 1) == union(F(j), eqf(j)))
                return [st(lv.k), st(lv.k - 1)]
        eng.tmpl.append(T)
        for j in range(0, 2):
            eng.assume(F(j + 1) == union(F(j), eqf(z3.IntVal(j))))
        return upto(n), F(n)

    def args_of(self, eng, an, k):
        """Parametrized(an), its arguments; when parametrized there are k of them (None: any number)."""
        o = V.oval(an)
        A = attr(an, "__args__")
        P = z3.If(hasa(an, "__parameters__"), attr(an, "__parameters__"), V.N)
        eng.assume(z3.Implies(hasa(an, "__args__"), z3.Or(is_("N", A), is_("T", A))))
        eng.assume(z3.Implies(hasa(an, "__parameters__"), is_("T", attr(an, "__parameters__"))))
        eng.assume(pyeq_u(A, P) == pyeq_u(P, A))
        par = z3.And(hasa(an, "__args__"), is_("T", A), z3.Not(veq(A, P)))
        t = V.tval(A)
        x, k_ = z3.Const("x!an", V), z3.Int("k!an")
        eng.assume(z3.ForAll([x], z3.And(CAok(x, V_(ANY)), CAeq(x, V_(ANY)) == EMPTY), patterns=[CAok(x, V_(ANY))]))
        eng.assume(z3.Implies(tat(t, 0) == V_(ANY), z3.ForAll([k_], z3.Implies(k_ >= 0, EN(k_) == EMPTY), patterns=[EN(k_)])) if k == 1 else z3.BoolVal(True))
        if k is not None:
            eng.assume(z3.Implies(par, tlen(t) == k))
        return par, t

    def generic(self, eng):
        eng.assume(is_("O", self.ann.t))


class ListCheck(Check):
    qual = "asta.origins.check_list"
    kind = LISTK
    bare = (LISTK,)
    elide = True

    def spec(self, eng, v, an):
        self.generic(eng)
        par, t = self.args_of(eng, an, 1)
        isk = self.w.isinst(eng, self.v, Ext(self.kind))
        isk = z3.BoolVal(isk) if isinstance(isk, bool) else isk
        self.elements(eng, v, isk)
        bare = z3.Or([an == V_(b) for b in self.bare] + [z3.Not(par), tat(t, 0) == V_(ANY)])
        n, at = self.n, self.at
        m = z3.If(z3.Or(self.every, n <= 1), n, z3.IntVal(1)) if self.elide else n
        up, en = self.parts(eng, m, at, lambda j: tat(t, 0))
        self.ok = z3.And(isk, z3.Or(bare, up))
        self.eq = z3.If(bare, EMPTY, en)

    def elements(self, eng, v, isk):
        o = V.oval(v)
        eng.assume(z3.Implies(isk, is_("O", v)))
        self.n, self.at = tlen(seqof(o)), lambda j: tat(seqof(o), j)


class SequenceCheck(ListCheck):
    qual = "asta.origins.check_sequence"
    kind = "collections.abc.Sequence"
    bare = ()

    def elements(self, eng, v, isk):
        # a tuple is a sequence too; a string is not split here
        o = V.oval(v)
        eng.assume(z3.Implies(isk, z3.Or(is_("O", v), is_("T", v))))
        b = eng.fresh(TupS, "elements")
        eng.assume(b == z3.If(is_("T", v), V.tval(v), seqof(o)))
        self.n, self.at = tlen(b), lambda j: tat(b, j)


class SetCheck(ListCheck):
    qual = "asta.origins.check_set"
    kind = "collections.abc.Set"
    bare = ("builtins.set",)
    elide = False


class DictCheck(Check):
    qual = "asta.origins.check_dict"

    def spec(self, eng, v, an):
        self.generic(eng)
        par, t = self.args_of(eng, an, 2)
        isk = self.w.isinst(eng, self.v, Ext(DICTK))
        eng.assume(z3.Implies(isk, is_("O", v)))
        o = V.oval(v)
        ks = keysof(o)
        K, W = tat(t, 0), tat(t, 1)
        i = z3.Int("i!dk")
        eng.assume(z3.Implies(isk, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < tlen(ks)), mhas(o, tat(ks, i))), patterns=[tat(ks, i)])))
        bare = z3.Or(an == V_(DICTK), z3.Not(par), z3.And(K == V_(ANY), W == V_(ANY)))
        key, val = lambda j: tat(ks, j), lambda j: mget(o, tat(ks, j))
        up, en = self.fold(eng, tlen(ks), lambda j: z3.And(CAok(key(j), K), CAok(val(j), W)), lambda j: union(CAeq(key(j), K), CAeq(val(j), W)), key)
        self.ok = z3.And(isk, z3.Or(bare, up))
        self.eq = z3.If(bare, EMPTY, en)


class TypedDictCheck(Check):
    qual = "asta.origins.check_typed_dict"
    trusted = TRUSTED + ("a TypedDict has __annotations__, __total__ and __required_keys__; the required keys are among the annotated ones",)

    def spec(self, eng, v, an):
        self.generic(eng)
        isk = self.w.isinst(eng, self.v, Ext(DICTK))
        eng.assume(z3.Implies(isk, is_("O", v)))
        o = V.oval(v)
        A, R = attr(an, "__annotations__"), attr(an, "__required_keys__")
        for x in ("__annotations__", "__total__", "__required_keys__"):
            eng.assume(hasa(an, x))
        eng.assume(z3.And(is_("O", A), inst(A, V_(DICTK)), is_("B", attr(an, "__total__"))))
        eng.assume(z3.And(is_("O", R), z3.Not(inst(R, V_(DICTK))), inst(R, V_("builtins.frozenset"))))
        d, r = V.oval(A), V.oval(R)
        ks, rs = keysof(d), seqof(r)
        i, k = z3.Int("i!td"), z3.Const("k!td", V)
        eng.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < tlen(ks)), mhas(d, tat(ks, i))), patterns=[tat(ks, i)]))
        req = z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < tlen(rs)), mhas(o, tat(rs, i))), patterns=[tat(rs, i)])
        extra = z3.ForAll([k], z3.Implies(mhas(o, k), mhas(d, k)), patterns=[mhas(o, k)])
        key = lambda j: tat(ks, j)
        has, val, an_ = lambda j: mhas(o, key(j)), lambda j: mget(o, key(j)), lambda j: mget(d, key(j))
        up, en = self.fold(eng, tlen(ks), lambda j: z3.Implies(has(j), CAok(val(j), an_(j))), lambda j: z3.If(has(j), CAeq(val(j), an_(j)), EMPTY), key)
        self.ok = z3.And(isk, extra, req, up)
        self.eq = en


FTH = z3.Function("FTH", Int, SetS)      # fields annotated by the k most basic classes
FTG = z3.Function("FTG", Int, MapS)
EN2 = z3.Function("EN2", Int, SetS)
EN3 = z3.Function("EN3", Int, SetS)


class TupleCheck(Check):
    qual = "asta.origins.check_tuple"
    trusted = TRUSTED + ("a NamedTuple has the attributes _fields and __mro__, its instances have every field", "Ellipsis stands only last of two type arguments")

    def spec(self, eng, v, an):
        self.generic(eng)
        named = hasa(an, "_fields")
        isk = self.w.isinst(eng, self.v, self.ann)
        isk = z3.BoolVal(isk) if isinstance(isk, bool) else isk
        F, M = V.tval(attr(an, "_fields")), V.tval(attr(an, "__mro__"))
        i, k = z3.Int("i!tu"), z3.Const("k!tu", V)
        eng.assume(z3.Implies(named, z3.And(is_("T", attr(an, "_fields")), hasa(an, "__mro__"), is_("T", attr(an, "__mro__")))))
        eng.assume(z3.Implies(z3.And(named, isk), z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < tlen(F)), z3.And(is_("S", tat(F, i)), has_attr(v, V.sval(tat(F, i))))), patterns=[tat(F, i)])))
        eng.assume(z3.Implies(z3.And(named, isk), is_("T", v)))
        nM = tlen(M)
        D = lambda j: attr(tat(M, nM - 1 - j), "__dict__")        # j-th class from the base
        AN = lambda j: mget(V.oval(D(j)), S_("__annotations__"))
        hasAN = lambda j: mhas(V.oval(D(j)), S_("__annotations__"))
        cls = tat(M, i)
        dk = attr(cls, "__dict__")
        an0 = mget(V.oval(dk), S_("__annotations__"))
        eng.assume(z3.Implies(named, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < nM), z3.And(is_("O", cls), hasa(cls, "__dict__"), is_("O", dk), is_("O", an0), inst(an0, V_(DICTK)))), patterns=[cls])))
        eng.assume(z3.And(FTH(0) == EMPTY, FTG(0) == z3.K(V, V.N)))

        def step(j):
            a = V.oval(AN(j))
            return z3.Implies(z3.And(0 <= j, j < nM), z3.And(
                z3.ForAll([k], z3.Select(FTH(j + 1), k) == z3.Or(z3.Select(FTH(j), k), z3.And(hasAN(j), mhas(a, k))), patterns=[z3.Select(FTH(j + 1), k)]),
                z3.ForAll([k], z3.Select(FTG(j + 1), k) == z3.If(z3.And(hasAN(j), mhas(a, k)), mget(a, k), z3.Select(FTG(j), k)), patterns=[z3.Select(FTG(j + 1), k)])))

        class T:
            @staticmethod
            def invs(lv):
                out = []
                for x, e, (h, g) in lv.dicts():
                    c = lv.k
                    out.append((("fields", x), z3.And(
                        z3.ForAll([k], z3.Select(h, k) == z3.Select(FTH(c), k)),
                        z3.ForAll([k], z3.Implies(z3.Select(FTH(c), k), z3.Select(g, k) == z3.Select(FTG(c), k))))))
                return out

            @staticmethod
            def defs(lv):
                return [step(lv.k), step(lv.k - 1)]
        eng.tmpl.append(T)
        ftype = lambda j: z3.If(z3.Select(FTH(nM), tat(F, j)), z3.Select(FTG(nM), tat(F, j)), V_(ANY))
        fval = lambda j: get_attr(v, V.sval(tat(F, j)))
        upf, enf = self.fold(eng, tlen(F), lambda j: CAok(fval(j), ftype(j)), lambda j: CAeq(fval(j), ftype(j)), lambda j: tat(F, j), EN, "fields")
        # the typing construct
        A = attr(an, "__args__")
        eng.assume(z3.Implies(hasa(an, "__args__"), z3.Or(is_("N", A), is_("T", A))))
        noargs = z3.Or(z3.Not(hasa(an, "__args__")), is_("N", A))
        t, e = V.tval(A), V.tval(v)
        n = tlen(t)
        variadic = z3.And(n > 0, tat(t, n - 1) == V.E)
        eng.assume(z3.Implies(variadic, n == 2))
        for u in (V.E, V.T(EMPTYT)):
            eng.assume(z3.ForAll([i], z3.Implies(is_("O", tat(t, i)), z3.And(z3.Not(pyeq_u(tat(t, i), u)), z3.Not(pyeq_u(u, tat(t, i))))), patterns=[tat(t, i)]))
        empty = z3.Or(n == 0, z3.And(n == 1, is_("T", tat(t, 0)), tlen(V.tval(tat(t, 0))) == 0))
        el = lambda j: tat(e, j)
        upv, env = self.parts(eng, tlen(e), el, lambda j: tat(t, 0), EN2, "variadic")
        upx, enx = self.parts(eng, tlen(e), el, lambda j: tat(t, j), EN3, "fixed")
        self.ok = z3.If(named, z3.And(isk, upf), z3.And(is_("T", v), z3.If(noargs, True, z3.If(variadic, upv, z3.If(empty, tlen(e) == 0, z3.And(tlen(e) == n, upx))))))
        self.eq = z3.If(named, enf, z3.If(noargs, EMPTY, z3.If(variadic, env, z3.If(empty, EMPTY, enx))))


class UnionCheck(Check):
    qual = "asta.origins.check_union"
    trusted = TRUSTED + ("a Union has the attribute __args__, a tuple",)

    def spec(self, eng, v, an):
        self.generic(eng)
        eng.assume(z3.And(z3.Not(hasa(an, "__union_params__")), hasa(an, "__args__"), is_("T", attr(an, "__args__"))))
        t = V.tval(attr(an, "__args__"))
        n = tlen(t)
        i = z3.Int("i!un")
        none = lambda k: z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < k), z3.Not(CAok(v, tat(t, i)))), patterns=[tat(t, i)])
        first = eng.fresh(Int, "first")
        self.ok = eng.fresh(Bool, "some_alternative")
        eng.assume(z3.If(self.ok, z3.And(0 <= first, first < n, CAok(v, tat(t, first)), none(first)), none(n)))
        self.eq = CAeq(v, tat(t, first))

        class T:
            @staticmethod
            def invs(lv):
                _, rep = lv.ghost("rep")
                return [(("none",), none(lv.k)), (("rep",), z3.Not(rep))]
        eng.tmpl.append(T)


# ---------------------------------------------------------------- asta types
REF = z3.Function("REF", V, V)         # the annotation with current values written in
RINIT = z3.Function("RINIT", V, Bool)  # every placeholder in it has a value, every number is an integer
ISI = z3.Function("ISI", V, V, Bool)   # isinstance(value, annotation)


class AstaCheck(Check):
    """The decorator's verdict on an array is that of isinstance on the refreshed annotation."""
    qual = "asta.origins.check_asta"
    props = ("C10", "C02", "C03", "C09", "C15")
    trusted = ("a value isinstance accepts has the shape and attributes the annotation asks for (contracts of __instancecheck__)",
               "type_representation returns a string")

    def ghosts(self, eng):
        super().ghosts(eng)
        eng.ghost_set("passes", z3.IntVal(0))

    def spec(self, eng, v, an):
        self.generic(eng)
        w = self.w
        r = REF(an)
        eng.assume(is_("O", r))
        for x in ("shape", "dtype", "kwattrs"):
            eng.assume(hasa(r, x))
        c, kw = attr(r, "shape"), attr(r, "kwattrs")
        sh = attr(v, "shape")
        ts = V_("tensorflow.TensorShape")
        acc = self.acc = z3.And(ISI(v, r))
        eng.assume(z3.Or(is_("N", c), z3.And(is_("T", c), M.WFS(c))))
        eng.assume(z3.Or(is_("N", kw), z3.And(is_("O", kw), inst(kw, V_(DICTK)), solid(V.oval(kw)) == 1)))
        eng.assume(z3.Implies(acc, z3.And(is_("O", v), hasa(v, "shape"), hasa(v, "dtype"))))
        eng.assume(z3.Implies(acc, z3.Or(is_("T", sh), z3.And(is_("O", sh), inst(sh, ts), solid(V.oval(sh)) == M.w_solid("tensorflow.TensorShape")))))
        b = eng.fresh(TupS, "dims")
        eng.assume(b == z3.If(is_("T", sh), V.tval(sh), seqof(V.oval(sh))))
        z, n = z3.IntVal(0), tlen(b)
        eng.assume(U.am_def(v, kw))
        eng.assume(z3.Implies(acc, M.natural(b, z, n)))
        eng.assume(z3.Implies(acc, z3.And(z3.Implies(z3.Not(is_("N", c)), M.SHu(b, z, n, c)), U.AMu(v, kw))))
        self.ok = z3.And(RINIT(an), acc)
        self.eq = union(z3.If(is_("N", c), EMPTY, M.SEu(b, z, n, c)), U.AEu(v, kw))

        def isi(e, x, cl):
            if isinstance(cl, Sym) and z3.simplify(cl.t).eq(z3.simplify(r)):
                return (ISI(e.to_V(x), r),)
        eng.hooks.setdefault("isinstance", []).append(isi)

        def refresh(e, a):
            self.ob(e, "the annotation itself is refreshed", z3.And(e.to_V(a["annotation"]) == an, z3.BoolVal(a["ox"] == w.ox)))
            if e.branch(RINIT(an)):
                return Tup([Sym(r), True])
            self.report(e)
            x = e.freshV("half")
            e.assume(is_("O", x.t))
            return Tup([x, False])
        eng.contracts["asta.origins.refresh"] = Local(refresh)

        def hp(e, a):
            e.ghost_set("passes", e.ghost_get("passes") + 1)
        eng.contracts["asta.display.handle_pass"] = Local(hp)

    def post(self, eng, a, out):
        self.eqset = self.eq
        self.eq, self.returns = None, False
        super().post(eng, a, out)
        p = eng.ghost_get("passes")
        self.ob(eng, "one pass message for a value that conforms, none otherwise", p == z3.If(self.ok, z3.IntVal(1), z3.IntVal(0)) if out[0] == "ok" else p == 0)
        if out[0] == "ok":
            r = setterm(eng, out[1])
            self.ob(eng, "a conforming value adds exactly the equations of its shape and attributes", z3.Implies(self.ok, U.same_except_zero(r, union(self.E, self.eqset))))
            self.ob(eng, "a value that does not conform leaves the equations of the others", z3.Implies(z3.Not(self.ok), r == self.E))


# ---------------------------------------------------------------- other types
class NumberCheck(Check):
    qual = "asta.origins.check_number"
    props = ("C16", "C15")
    returns = False
    trusted = ()

    def spec(self, eng, v, an):
        self.generic(eng)
        fs = [z3.Implies(an == V_(p), b2z(self.w.isinst(eng, self.v, Ext(p)))) for p in ("builtins.complex", "builtins.float")]
        self.ok, self.eq = z3.And(fs), None


def b2z(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


class IoCheck(Check):
    qual = "asta.origins.check_io"
    props = ("C16", "C15")
    returns = False
    trusted = ()

    def spec(self, eng, v, an):
        self.generic(eng)
        i = lambda *ps: z3.Or([b2z(self.w.isinst(eng, self.v, Ext("io." + p))) for p in ps])
        self.ok = z3.If(an == V_("typing.TextIO"), i("TextIOBase"), z3.If(an == V_("typing.BinaryIO"), i("RawIOBase", "BufferedIOBase"), i("IOBase")))
        self.eq = None


class NoneCheck(Check):
    qual = "asta.origins.check_none"
    props = ("C13", "C15")
    returns = False
    trusted = ()

    def spec(self, eng, v, an):
        self.ok, self.eq = is_("N", v), None


class ProtocolCheck(Check):
    qual = "asta.origins.check_protocol"
    props = ("C16", "C15")
    returns = False
    trusted = ("the protocol is one issubclass can decide",)

    def spec(self, eng, v, an):
        self.generic(eng)
        t = typeof(v)
        eng.assume(z3.And(is_("O", t), hasa(t, "__qualname__"), is_("S", attr(t, "__qualname__")), hasa(an, "__qualname__"), is_("S", attr(an, "__qualname__"))))
        eng.assume(is_("O", v))
        self.ok, self.eq = subcls(t, an), None


DECIDABLE = z3.Function("subclass_decidable", V, Bool)


def decidable_hook(eng):
    def h(e, c, p):
        if isinstance(p, Sym):
            if not e.branch(DECIDABLE(p.t)):
                raise PyExc("TypeError")
    eng.hooks.setdefault("issubclass", []).append(h)


class ClassCheck(Check):
    qual = "asta.origins.check_class"
    props = ("C16", "C15")
    trusted = TRUSTED + ("issubclass fails with a TypeError exactly on a second argument it cannot decide (a type variable, a subscripted generic)",)

    def spec(self, eng, v, an):
        self.generic(eng)
        A = attr(an, "__args__")
        eng.assume(z3.Implies(hasa(an, "__args__"), z3.Or(is_("N", A), is_("T", A))))
        t = V.tval(A)
        c = tat(t, 0)
        eng.assume(z3.Implies(z3.And(hasa(an, "__args__"), is_("T", A), tlen(t) > 0), is_("O", c)))
        eng.assume(otruth(V.oval(c)))
        decidable_hook(eng)
        isc = b2z(self.w.isinst(eng, self.v, Ext(TY)))
        free = z3.Or(an == V_("typing.Type"), z3.Not(hasa(an, "__args__")), is_("N", A), tlen(t) == 0, c == V_(ANY), z3.Not(DECIDABLE(c)))
        self.ok, self.eq = z3.And(isc, z3.Or(free, subcls(v, c))), None


class LiteralCheck(Check):
    qual = "asta.origins.check_literal"
    props = ("C16", "C15")
    trusted = ("the arguments of Literal are ints, bools, strings, None or opaque objects (bytes, enumeration members)",
               "an opaque literal compares to values of its own class without raising")

    def spec(self, eng, v, an):
        self.generic(eng)
        A = attr(an, "__args__")
        eng.assume(z3.And(hasa(an, "__args__"), is_("T", A)))
        t = V.tval(A)
        i = z3.Int("i!li")
        o = tat(t, i)
        eng.assume(z3.ForAll([i], z3.Or([is_(k, o) for k in "IBSNO"]), patterns=[o]))
        eng.assume(z3.ForAll([i], z3.Implies(is_("S", o), typeof(o) == V_("builtins.str")), patterns=[o]))
        eng.assume(inst(v, V_("builtins.str")) == is_("S", v))
        lit = lambda o: z3.If(is_("S", o), v == o, z3.If(is_("I", o), z3.And(isnum(v), num(v) == num(o)), z3.If(is_("B", o), v == o,
                        z3.If(is_("N", o), is_("N", v), z3.And(inst(v, typeof(o)), veq(v, o))))))
        self.ok = z3.Exists([i], z3.And(0 <= i, i < tlen(t), lit(o)))
        self.eq = None


class CallableCheck(Check):
    """Callables: anything that is not callable is refused; arity is checked only for a parametrized Callable."""
    qual = "asta.origins.check_callable"
    props = ("C16", "C15")
    trusted = TRUSTED + ("inspect.signature fails with TypeError or ValueError, or lists the parameters with their kinds and defaults",)

    def spec(self, eng, v, an):
        self.generic(eng)
        A = attr(an, "__args__")
        eng.assume(z3.Implies(hasa(an, "__args__"), z3.Or(is_("N", A), is_("T", A))))
        eng.assume(z3.Not(hasa(an, "__result__")))
        t = V.tval(A)
        self.callable = z3.And(is_("O", v), callable_u(v))
        self.plain = z3.Or(z3.Not(hasa(an, "__args__")), is_("N", A), tlen(t) == 0)
        P = z3.Function("params_of", V, ObjS)
        p = eng.fresh(TupS, "params")
        i = z3.Int("i!ca")
        x = tat(p, i)
        eng.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < tlen(p)), z3.And(is_("O", x), hasa(x, "name"), hasa(x, "kind"), hasa(x, "default"), is_("S", attr(x, "name")), otruth(V.oval(x)))), patterns=[x]))

        def sig(e, a, k):
            ch = e.choose(3)
            if ch < 2:
                raise PyExc(("TypeError", "ValueError")[ch])
            d = e.alloc("inst", (Ext("builtins.object"), {"values": NativeFn("values", lambda e2, a2, k2: Seq(p, z3.IntVal(0), tlen(p)))}))
            return e.alloc("inst", (Ext("inspect.Signature"), {"parameters": d}))
        self.w.ext_handlers["inspect.signature"] = sig
        self.ok, self.eq = self.callable, None

    def post(self, eng, a, out):
        # arity: refused or accepted only by the number of arguments; not decided here
        rm = self.rm
        d = eng.rec(self.w.ox).data[1]
        same = [eng.to_V(d.get(k)) == eng.to_V(x) if k in d else z3.BoolVal(False) for k, x in self.flags.items()]
        self.ob(eng, "the configuration is left as it was", z3.And(same))
        self.ob(eng, "the equations passed in are not changed", eng.rec(self.eqs).data == self.E)
        if out[0] == "exc":
            self.ob(eng, "only a TypeError is raised", exc_isa(out[1].cls, "TypeError"), f"{out[1]} {out[1].value}")
            self.ob(eng, "nothing is raised with raise-errors off", rm, f"{out[1]} {out[1].value}")
            self.ob(eng, "a callable is not refused by a plain Callable", z3.Not(z3.And(self.callable, self.plain)))
            return
        rep = eng.ghost_get("rep")
        self.ob(eng, "in raising mode only a callable is accepted", z3.Implies(rm, self.callable))
        self.ob(eng, "a value that is not callable is reported", z3.Implies(z3.Not(self.callable), rep))
        self.ob(eng, "nothing is reported for a callable and a plain Callable", z3.Implies(z3.And(self.callable, self.plain), z3.Not(rep)))
        self.ob(eng, "no equations are added", setterm(eng, out[1]) == self.E)


# ---------------------------------------------------------------- dispatch
CK = z3.Function("CK", StrS, V, V, Bool)       # the verdict of one checker
CKE = z3.Function("CKE", StrS, V, V, SetS)
ABC = "collections.abc."
TABLE = {"check_list": ("builtins.list", "typing.List"), "check_dict": ("builtins.dict", "typing.Dict"),
         "check_set": ("builtins.set", "typing.Set", "typing.AbstractSet", ABC + "Set"),
         "check_sequence": ("typing.Sequence", ABC + "Sequence"), "check_tuple": ("builtins.tuple", "typing.Tuple"), "check_union": ("typing.Union",)}
NON_TABLE = {"check_callable": ("typing.Callable", ABC + "Callable"), "check_class": ("builtins.type", "typing.Type"), "check_literal": ("typing.Literal",)}
RETURNING = ("check_asta", "check_typed_dict") + tuple(TABLE) + tuple(NON_TABLE)
PLAIN = ("check_none", "check_number", "check_io", "check_protocol")


class AnnotationDispatch(Check):
    """Which checker decides: by kind of annotation; only the switch brings in the types outside the standard set."""
    qual = "asta.origins.check_annotation"
    props = ("C10", "C13", "C16", "C15")
    trusted = ("classes of typing compare and hash by identity", "isinstance decides for the class an annotation names (no non-runtime protocol)",
               "class annotations have no __extra__ (Python 3.7 and later)")

    def locals(self, eng):
        super().locals(eng)
        w = self.w
        eng.contracts["asta.origins.check_annotation"] = Local(self.check)

        def checker(nm, ret):
            key = V.sval(S_(nm))

            def fn(e, a):
                v, an = e.to_V(a["value"]), e.to_V(a["annotation"])
                self.ob(e, "the one configuration is handed on", a["ox"] == w.ox)
                ok = CK(key, v, an)
                if e.branch(ok):
                    return e.alloc("set", union(setterm(e, a["equations"]), CKE(key, v, an))) if ret else None
                self.report(e)
                return e.alloc("set", e.fresh(SetS, "soft_eqs")) if ret else None
            return Local(fn)
        for nm in RETURNING + PLAIN:
            eng.contracts["asta.origins." + nm] = checker(nm, nm in RETURNING)

    def spec(self, eng, v, an):
        w = self.w
        nt = V_("types.NoneType")
        an = z3.If(is_("N", an), nt, an)
        self.generic_or_none(eng)
        eng.assume(z3.And(inst(nt, V_(TY)), z3.Not(hasa(nt, "__origin__"))))
        isa = inst(an, eng.to_V(w.cls("asta.classes.SubscriptableMeta")))
        eng.assume(z3.And([z3.Not(subcls(nt, V_(p))) for p in ("builtins.tuple", "builtins.dict", "typing.IO", ABC + "Callable")]))
        eng.assume(z3.Not(inst(nt, eng.to_V(w.cls("asta.classes.SubscriptableMeta")))))
        og = attr(an, "__origin__")
        gen = z3.And(hasa(an, "__origin__"), z3.Not(is_("N", og)))
        eng.assume(z3.Implies(gen, is_("O", og)))
        eng.assume(z3.Not(hasa(an, "__extra__")))
        known = [V_(p) for ps in list(TABLE.values()) + list(NON_TABLE.values()) for p in ps] + [nt, V_("builtins.float"), V_("builtins.complex")]
        for x in (og, an):
            for c in known:
                eng.assume(z3.And(pyeq_u(x, c) == (x == c), pyeq_u(c, x) == (x == c)))
        K = lambda nm, x: (CK(V.sval(S_(nm)), v, x), CKE(V.sval(S_(nm)), v, x) if nm in RETURNING else EMPTY)

        def pick(cases, other):
            ok, eq = other
            for c, (o, e) in reversed(cases):
                ok, eq = z3.If(c, o, ok), z3.If(c, e, eq)
            return ok, eq
        among = lambda x, ps: z3.Or([x == V_(p) for p in ps])
        T, F = z3.BoolVal(True), z3.BoolVal(False)
        table = [(among(og, ps), K(nm, an)) for nm, ps in TABLE.items()]
        table += [(z3.And(self.non, among(og, ps)), K(nm, an)) for nm, ps in NON_TABLE.items()]
        generic = pick(table, (CAok(v, og), CAeq(v, og)))
        sub = lambda p: subcls(an, V_(p))
        iv = lambda p: b2z(w.isinst(eng, self.v, Ext(p)))
        fallback = (z3.If(an == V_("builtins.bytes"), z3.Or(iv("builtins.bytes"), iv("builtins.bytearray")), inst(v, an)), EMPTY)
        protocol = z3.And(hasa(an, "_is_protocol"), b2z(eng.truth(Sym(attr(an, "_is_protocol")))))
        ann_c = K("check_callable", an)[0]
        other = pick([(among(an, ("builtins.float", "builtins.complex")), K("check_number", an)),
                      (z3.And(sub(ABC + "Callable"), hasa(an, "__args__")), (ann_c, EMPTY)),
                      (sub("typing.IO"), K("check_io", an)), (protocol, K("check_protocol", an))], fallback)
        classes = pick([(sub("builtins.tuple"), K("check_tuple", an)), (z3.And(sub("builtins.dict"), hasa(an, "__total__")), K("check_typed_dict", an)),
                        (an == nt, K("check_none", an)), (self.non, other)], (T, EMPTY))
        self.ok, self.eq = pick([(isa, K("check_asta", an)), (gen, generic), (z3.And(inst(an, V_(TY)), an != V_(ANY)), classes)], (T, EMPTY))

    def generic_or_none(self, eng):
        eng.assume(z3.Or(is_("N", self.ann.t), is_("O", self.ann.t)))


ALL = [AnnotationDispatch, ListCheck, SequenceCheck, SetCheck, DictCheck, TypedDictCheck, TupleCheck, UnionCheck, AstaCheck, NumberCheck, IoCheck, NoneCheck,
       ProtocolCheck, ClassCheck, LiteralCheck, CallableCheck]
DEPS = []
