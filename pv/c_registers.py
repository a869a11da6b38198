"""Contracts of the symbol and shape registers and of placeholders."""
from contract import *
from models import *

WORLD = ((True, True),)


def symdict(eng, hint):
    """A dictionary about which nothing is known."""
    has, get = eng.fresh(SetS, hint + "_has"), eng.fresh(MapS, hint + "_get")
    return eng.alloc("dict", ("s", has, get, None)), has, get


def dict_after(eng, ref):
    """(has, get) terms of a dictionary now."""
    d = eng.dict_symbolic(ref)
    return d[1], d[2]


def frame_except(has0, get0, has1, get1, key):
    """Entries under other keys are untouched."""
    k = z3.Const("k!fr", V)
    return z3.ForAll([k], z3.Implies(k != key, z3.And(z3.Select(has1, k) == z3.Select(has0, k),
                                                      z3.Implies(z3.Select(has0, k), z3.Select(get1, k) == z3.Select(get0, k)))))


class RegContract(Contract):
    worlds = WORLD
    attr_name = ""
    cls = ""

    def register(self, eng):
        self.map, self.has0, self.get0 = symdict(eng, "map")
        c = self.w.cls(self.cls)
        n = self.cls.rsplit(".", 1)[1]
        return eng.alloc("inst", (c, {self.attr_name: self.map, f"_{n}__initialized": True}))

    def native(self, nm):
        import ast
        vals = [x for x in self.w.rec_list("asta.constants.PYATTRS")]
        return z3.Or([V.sval(nm) == str_const(x) for x in vals])

    def state(self, eng):
        """The dictionary the register holds now."""
        r = eng.rec(self.self_)
        d = r.data[1].get(self.attr_name)
        if not isinstance(d, Ref):
            raise Unsupported("the register no longer keeps its values in one dictionary")
        return dict_after(eng, d)


class DimsGet(RegContract):
    qual = "asta.dims.Dimensions.__getattr__"
    props = ("C08",)
    cls = "asta.dims.Dimensions"
    attr_name = "symbol_map"
    trusted = ("sympy.symbols(name) is the symbol of that name (for names that are identifiers)",)

    def setup(self, eng):
        self.self_ = self.register(eng)
        nm = eng.freshS()
        self.nm = nm.t
        self.key = V.X(symbol_of(V.sval(nm.t)))
        k = z3.Const("k!dg", V)
        # what __setattr__ and __getattr__ keep true of the map (see their contracts)
        eng.assume(z3.ForAll([k], z3.Implies(z3.Select(self.has0, k), z3.Or(is_("N", z3.Select(self.get0, k)), isnum(z3.Select(self.get0, k)))),
                             patterns=[z3.Select(self.get0, k)]))
        eng.assume(z3.Not(self.native(nm.t)))
        return {"self": self.self_, "name": nm}

    def post(self, eng, a, out):
        if out[0] != "ok":
            self.ob(eng, "a name always has a value", False, f"raises {out[1]}")
            return
        v0 = z3.Select(self.get0, self.key)
        isset = z3.And(z3.Select(self.has0, self.key), z3.Not(is_("N", v0)))
        self.ob(eng, "the value last set, else the symbol of that name", eng.to_V(out[1]) == z3.If(isset, v0, self.key))
        has, get = self.state(eng)
        self.ob(eng, "other names keep their values", frame_except(self.has0, self.get0, has, get, self.key))
        self.ob(eng, "reading sets no value", z3.Implies(z3.Select(has, self.key), z3.If(isset, z3.Select(get, self.key) == v0, is_("N", z3.Select(get, self.key)))))
        self.ob(eng, "a value set stays in the register", z3.Implies(isset, z3.Select(has, self.key)))


class DimsSet(RegContract):
    qual = "asta.dims.Dimensions.__setattr__"
    props = ("C08",)
    cls = "asta.dims.Dimensions"
    attr_name = "symbol_map"
    expect = ("ok", "exc")
    trusted = DimsGet.trusted

    def setup(self, eng):
        self.self_ = self.register(eng)
        nm, v = eng.freshS(), eng.freshV("value")
        self.nm, self.v = nm.t, v.t
        self.key = V.X(symbol_of(V.sval(nm.t)))
        return {"self": self.self_, "name": nm, "value": v}

    def post(self, eng, a, out):
        has, get = self.state(eng)
        k = z3.Const("k!ds", V)
        same = z3.ForAll([k], z3.And(z3.Select(has, k) == z3.Select(self.has0, k), z3.Implies(z3.Select(has, k), z3.Select(get, k) == z3.Select(self.get0, k))))
        if out[0] == "exc":
            self.ob(eng, "only a TypeError is raised", exc_isa(out[1].cls, "TypeError"), str(out[1]))
            self.ob(eng, "an integer is never refused", z3.Not(isnum(self.v)))
            self.ob(eng, "a refused value changes nothing", same)
            return
        self.ob(eng, "only an integer is accepted", isnum(self.v))
        self.ob(eng, "the value is stored under the symbol of that name", z3.And(z3.Select(has, self.key), z3.Select(get, self.key) == self.v))
        self.ob(eng, "other names keep their values", frame_except(self.has0, self.get0, has, get, self.key))


class ShapesGet(RegContract):
    qual = "asta.shapes.Shapes.__getattr__"
    props = ("C08", "C09")
    cls = "asta.shapes.Shapes"
    attr_name = "placeholder_map"

    def setup(self, eng):
        self.self_ = self.register(eng)
        nm = eng.freshS()
        self.nm = self.key = nm.t
        eng.assume(z3.Not(self.native(nm.t)))
        return {"self": self.self_, "name": nm}

    def post(self, eng, a, out):
        if out[0] != "ok":
            self.ob(eng, "a name always has a value", False, f"raises {out[1]}")
            return
        has, get = self.state(eng)
        r = eng.to_V(out[1])
        self.ob(eng, "the value last set", z3.Implies(z3.Select(self.has0, self.key), r == z3.Select(self.get0, self.key)))
        fresh_ok = False
        if isinstance(out[1], Ref) and eng.rec(out[1]).kind == "inst":
            cl, at = eng.rec(out[1]).data
            fresh_ok = cl == self.w.cls("asta.placeholder.Placeholder") and at.get("composite") is False and \
                z3.And(eng.to_V(at.get("name")) == self.nm, z3.BoolVal(eng.rec(at.get("contents")).data in ((), [])))
        self.ob(eng, "else a plain placeholder of that name", z3.Or(z3.Select(self.has0, self.key), fresh_ok))
        self.ob(eng, "the same placeholder is returned from then on", z3.And(z3.Select(has, self.key), z3.Select(get, self.key) == r))
        self.ob(eng, "other names keep their values", frame_except(self.has0, self.get0, has, get, self.key))


class ShapesSet(RegContract):
    qual = "asta.shapes.Shapes.__setattr__"
    props = ("C08",)
    cls = "asta.shapes.Shapes"
    attr_name = "placeholder_map"
    expect = ("ok", "exc")

    def setup(self, eng):
        self.self_ = self.register(eng)
        nm, v = eng.freshS(), eng.freshV("value")
        self.key, self.v = nm.t, v.t
        b = V.tval(v.t)
        self.allint = z3.Function("all_int", TupS, Bool)(b)
        i = z3.Int("i!ss")
        full = z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < tlen(b)), isnum(tat(b, i))))
        eng.assume(self.allint == full)

        class T:
            @staticmethod
            def invs(lv):
                i = z3.Int("i!inv")
                return [(("prefix",), z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < lv.k), isnum(tat(b, i))), patterns=[tat(b, i)]))]
        eng.tmpl.append(T)
        return {"self": self.self_, "name": nm, "value": v}

    def post(self, eng, a, out):
        has, get = self.state(eng)
        good = z3.And(is_("T", self.v), self.allint)
        k = z3.Const("k!ss", V)
        same = z3.ForAll([k], z3.And(z3.Select(has, k) == z3.Select(self.has0, k), z3.Implies(z3.Select(has, k), z3.Select(get, k) == z3.Select(self.get0, k))))
        if out[0] == "exc":
            self.ob(eng, "only a TypeError is raised", exc_isa(out[1].cls, "TypeError"), str(out[1]))
            self.ob(eng, "a tuple of integers is never refused", z3.Not(good))
            self.ob(eng, "a refused value changes nothing", same)
            return
        self.ob(eng, "only a tuple of integers is accepted", good)
        self.ob(eng, "the value is stored under that name", z3.And(z3.Select(has, self.key), z3.Select(get, self.key) == self.v))
        self.ob(eng, "other names keep their values", frame_except(self.has0, self.get0, has, get, self.key))


# ---------------------------------------------------------------- placeholders
FL = z3.Function("contents_of", ObjS, TupS)      # contents of an opaque placeholder


class PHContract(Contract):
    worlds = WORLD
    props = ("C09",)
    trusted = ("contents and name of a placeholder are attributes a program does not overwrite",)

    def placeholder(self, eng, hint):
        """A placeholder in any state: plain (no contents) or composite."""
        cl = self.w.cls("asta.placeholder.Placeholder")
        n = eng.fresh(Int, hint + "_n")
        base = eng.fresh(TupS, hint + "_contents")
        eng.assume(z3.And(n >= 0, n == tlen(base)))
        lst = eng.alloc("list", Seq(base, z3.IntVal(0), n))
        ref = eng.alloc("inst", (cl, {"name": eng.freshV(hint + "_name"), "unpacked": SBool(eng.fresh(Bool, hint + "_unp")),
                                      "composite": SBool(n > 0), "contents": lst}))
        return ref, base, n, lst

    def parts(self, ref, base, n):
        """(length, element at i) of the parts a placeholder stands for."""
        me = V.O(obj_const(f"heap#{ref.id}"))
        return z3.If(n > 0, n, z3.IntVal(1)), lambda i: z3.If(n > 0, tat(base, i), me)

    def check_sum(self, eng, out, left, right, before):
        r = out[1]
        if not (isinstance(r, Ref) and eng.rec(r).kind == "inst" and eng.rec(r).data[0] == self.w.cls("asta.placeholder.Placeholder")):
            self.ob(eng, "the sum is a placeholder", False, str(r))
            return
        at = eng.rec(r).data[1]
        c = at.get("contents")
        if not (isinstance(c, Ref) and eng.rec(c).kind == "list"):
            raise Unsupported("contents of the sum are not a list")
        q = eng.list_tuple(c)
        n = eng.seq_len(q)
        n = z3.IntVal(n) if isinstance(n, int) else n
        self.ob(eng, "the sum is marked composite", eng.truth(at.get("composite")))
        self.ob(eng, "the sum has the parts of both operands", n == left[0] + right[0])
        i = eng.fresh(Int, "i")
        eng.assume(z3.And(0 <= i, i < left[0] + right[0]))
        if isinstance(q, Tup):
            q = eng.as_seq(Sym(eng.to_V(q)))
        self.ob(eng, "in order, left before right", tat(q.base, q.lo + i) == z3.If(i < left[0], left[1](i), right[1](i - left[0])))
        self.ob(eng, "the sum is a new object", all(r.id != b.id for b in before))
        for b in before:
            self.ob(eng, "the operands are not changed", self.snap[b.id] == eng.rec(b).data)
        for l, b, n in self.lists:
            q = eng.list_tuple(l)
            self.ob(eng, "the contents of the operands are not changed", isinstance(q, Seq) and z3.And(q.base == b, q.lo == 0, q.n == n))


def dims_ok(b):
    i = z3.Int("i!dk")
    e = tat(b, i)
    return z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < tlen(b)), z3.Or(isnum(e), is_("X", e))))


class PrefixDims:
    def __init__(self, b):
        self.b = b

    def invs(self, lv):
        i = z3.Int("i!inv")
        e = tat(self.b, i)
        return [(("prefix",), z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < lv.k), z3.Or(isnum(e), is_("X", e))), patterns=[e]))]


class PHAdd(PHContract):
    """placeholder + placeholder"""
    qual = "asta.placeholder.Placeholder.__add__"
    label = "placeholder"

    def setup(self, eng):
        self.l, self.r = self.placeholder(eng, "left"), self.placeholder(eng, "right")
        self.snap = {x[0].id: eng.rec(x[0]).data for x in (self.l, self.r)}
        self.lists = [(x[3], x[1], x[2]) for x in (self.l, self.r)]
        return {"self": self.l[0], "summand": self.r[0]}

    def post(self, eng, a, out):
        if out[0] != "ok":
            self.ob(eng, "placeholders add", False, f"raises {out[1]}")
            return
        self.check_sum(eng, out, self.parts(*self.l[:3]), self.parts(*self.r[:3]), [self.l[0], self.r[0]])


class PHAddOther(PHContract):
    """placeholder + tuple, and anything else is refused"""
    qual = "asta.placeholder.Placeholder.__add__"
    label = "tuple"
    expect = ("ok", "exc")
    right = True

    def setup(self, eng):
        self.l = self.placeholder(eng, "self")
        self.snap = {self.l[0].id: eng.rec(self.l[0]).data}
        self.lists = [(self.l[3], self.l[1], self.l[2])]
        s = eng.freshV("summand")
        self.s = s.t
        b = V.tval(s.t)
        self.good = z3.Function("dims_ok", TupS, Bool)(b)
        eng.assume(self.good == dims_ok(b))
        ph = eng.to_V(self.w.cls("asta.placeholder.Placeholder"))
        eng.assume(z3.Not(inst(s.t, ph)))
        eng.tmpl.append(PrefixDims(b))
        return {"self": self.l[0], "summand": s}

    def post(self, eng, a, out):
        good = z3.And(is_("T", self.s), self.good)
        if out[0] != "ok":
            self.ob(eng, "only a TypeError is raised", exc_isa(out[1].cls, "TypeError"), str(out[1]))
            self.ob(eng, "a tuple of dimensions is never refused", z3.Not(good))
            return
        self.ob(eng, "only a tuple of dimensions is accepted", good)
        one = (z3.IntVal(1), lambda i: self.s)
        me = self.parts(*self.l[:3])
        self.check_sum(eng, out, *((me, one) if self.right else (one, me)), [self.l[0]])


class PHRadd(PHAddOther):
    """tuple + placeholder"""
    qual = "asta.placeholder.Placeholder.__radd__"
    label = ""
    right = False


class PHIter(PHContract):
    """Iterating a placeholder yields the placeholder once and marks it unpacked."""
    qual = "asta.placeholder.Placeholder.__iter__"

    def setup(self, eng):
        self.p = self.placeholder(eng, "self")
        return {"self": self.p[0]}

    def run(self, eng, f, a):
        return eng.materialise(eng.call(Bound(f, a["self"]), [], {}))

    def post(self, eng, a, out):
        if out[0] != "ok":
            self.ob(eng, "a placeholder can be unpacked", False, f"raises {out[1]}")
            return
        q = out[1]
        self.ob(eng, "unpacking yields the placeholder itself, once", isinstance(q, Tup) and len(q.items) == 1 and q.items[0] == self.p[0])
        self.ob(eng, "and marks it unpacked", eng.truth(eng.rec(self.p[0]).data[1].get("unpacked")))
        cl, at = eng.rec(self.p[0]).data
        self.ob(eng, "contents are not changed", at.get("contents") == self.p[3] and eng.rec(self.p[3]).data.base is self.p[1])


ALL = [DimsGet, DimsSet, ShapesGet, ShapesSet, PHAdd, PHAddOther, PHRadd, PHIter]
