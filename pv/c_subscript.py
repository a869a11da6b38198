"""Contracts of subscripting: dtype resolution, dimension checks, parsing, the new type."""
from contract import *
from models import *
import c_utils as U
import c_meta as Mt
from c_meta import BOTH, TONLY, FONLY, NONE, TypeObj, mk

np_dtype = z3.Function("np_dtype", V, ObjS)
TYPE = lambda: V_("builtins.type")


def istype(t):
    return z3.And(is_("O", t), inst(t, TYPE()), solid(V.oval(t)) == Mt.w_solid("builtins.type"))


def isdt(t, p):
    return z3.And(is_("O", t), inst(t, V_(p)), solid(V.oval(t)) == Mt.w_solid(p))


# ---------------------------------------------------------------- get_dtype
def array_dtype(item):
    """(dtype, kind) the documentation promises for Array[item]."""
    g = z3.If(item == V_("datetime.datetime"), V_("numpy.datetime64"), z3.If(item == V_("datetime.timedelta"), V_("numpy.timedelta64"), item))
    isd = isdt(item, "numpy.dtype")
    kind = str_const("")
    for c, k in (("bytes", "S"), ("str", "U"), ("object", "O")):
        kind = z3.If(item == V_("builtins." + c), str_const(k), kind)
    return z3.If(isd, item, V.O(np_dtype(g))), V.S(z3.If(isd, str_const(""), kind))


TORCH_MAP = {"int": "int32", "float": "float32", "bool": "bool", "bytes": "uint8"}
TF_MAP = {"int": "int32", "float": "float32", "complex": "complex128", "bool": "bool", "bytes": "string", "str": "string"}


class GetDtype(Contract):
    """A Python type stands for the documented dtype; a dtype of the library for itself; anything else is refused."""
    props = ("C04", "C06")
    qual = "asta._array._Array.get_dtype"
    base = "asta._array._Array"
    worlds = (BOTH, NONE)
    lib, dt, table = "", "numpy.dtype", None

    def args(self, eng, x):
        return {"item": x}

    def setup(self, eng):
        x = eng.freshV("item")
        self.x = x.t
        eng.assume(z3.Or(istype(x.t), isdt(x.t, self.dt), isdt(x.t, "numpy.dtype")))
        for c in self.table or ():
            eng.assume(istype(V_("builtins." + c)))
        return self.args(eng, x)

    def spec(self):
        return array_dtype(self.x)

    def post(self, eng, a, out):
        if out[0] != "ok":
            self.ob(eng, "every type or dtype of the library is accepted", False, f"raises {out[1]}")
            return
        d, k = out[1].items
        sd, sk = self.spec()
        self.ob(eng, "the dtype is the documented one", eng.to_V(d) == sd)
        self.ob(eng, "str, bytes and object stand for every width", eng.to_V(k) == sk)


class GetDtypeTensor(GetDtype):
    qual = "asta._tensor._Tensor.get_dtype"
    base = "asta._tensor._Tensor"
    worlds = (BOTH, TONLY)
    lib, dt, table = "torch.", "torch.dtype", TORCH_MAP
    expect = ("ok", "exc")

    def args(self, eng, x):
        return {"cls": self.w.cls(self.base), "item": x}

    def legal(self):
        return z3.Or([isdt(self.x, self.dt)] + [self.x == V_("builtins." + c) for c in self.table])

    def post(self, eng, a, out):
        if out[0] != "ok":
            self.ob(eng, "only a TypeError is raised", exc_isa(out[1].cls, "TypeError"), str(out[1]))
            self.ob(eng, "a documented type or a dtype of the library is never refused", z3.Not(self.legal()))
            return
        d, k = out[1].items
        sd = self.x
        for c, n in self.table.items():
            sd = z3.If(self.x == V_("builtins." + c), V_(self.lib + n), sd)
        self.ob(eng, "anything else is refused", self.legal())
        self.ob(eng, "the dtype is the documented one", eng.to_V(d) == sd)


class GetDtypeTF(GetDtypeTensor):
    qual = "asta._tftensor._TFTensor.get_dtype"
    base = "asta._tftensor._TFTensor"
    worlds = (BOTH, FONLY)
    lib, dt, table = "tensorflow.", "tensorflow.dtypes.DType", TF_MAP


# ---------------------------------------------------------------- dimensions
VDS = z3.Function("VDS", TupS, Int, Int, Bool)      # every dimension in a segment is of a supported kind
HM = z3.Function("HM", TupS, Int, Int, Bool)        # a segment has a scalar marker
REP = z3.Function("REP", TupS, Int, Int, Bool)      # a segment has two consecutive ellipses


def VDT(b):
    return VDS(b, 0, tlen(b))


def dim_types(eng, w, base):
    """The supported kinds of dimension, as documented (terms)."""
    out = [V_("builtins.tuple"), V_("types.EllipsisType"), V_("types.NoneType"), V_("builtins.int"),
           eng.to_V(w.cls("asta.constants.ScalarMeta")), eng.to_V(w.cls("asta.placeholder.Placeholder")), V_("sympy.Expr"), V_("sympy.Symbol")]
    if base.endswith("_Tensor"):
        out.append(V_("torch.Size"))
    if base.endswith("_TFTensor"):
        out.append(V_("tensorflow.TensorShape"))
    return out


def vd1(x, types):
    """x is a dimension of a supported kind."""
    ty = z3.Or([typeof(x) == t for t in types])
    return z3.If(is_("X", x), True, z3.If(z3.Or(is_("I", x), is_("E", x), is_("N", x)), True,
           z3.If(is_("B", x), False, z3.If(is_("T", x), z3.And(ty, VDT(V.tval(x))), ty))))


def vds_def(b, lo, n, types):
    i = z3.Int("i!vd")
    return VDS(b, lo, n) == z3.ForAll([i], z3.Implies(z3.And(lo <= i, i < lo + n), vd1(tat(b, i), types)))


def vdt_def(b, types):
    return vds_def(b, 0, tlen(b), types)


def hm_def(b, lo, n, sc):
    i = z3.Int("i!hm")
    return HM(b, lo, n) == z3.Exists([i], z3.And(lo <= i, i < lo + n, marker(tat(b, i), sc)))


def rep_def(b, lo, n):
    j = z3.Int("j!rep")
    return REP(b, lo, n) == z3.Exists([j], z3.And(0 <= j, j + 1 < n, is_("E", tat(b, lo + j)), is_("E", tat(b, lo + j + 1))))


class VerifyDims(Contract):
    """Raises TypeError exactly when some dimension, at any depth, is of an unsupported kind."""
    qual = "asta.parser.verify_dimensions"
    props = ("C06",)
    worlds = (BOTH,)
    base = "asta._array._Array"
    expect = ("ok", "exc")

    def setup(self, eng):
        t = TypeObj(eng, self.w, self.base, "cls", True)
        x = self.x = eng.freshV("item")
        self.types = dim_types(eng, self.w, self.base)
        b = V.tval(x.t)
        types = self.types
        eng.assume(vdt_def(b, types))

        class T:
            @staticmethod
            def invs(lv):
                i = z3.Int("i!inv")
                return [(("prefix",), z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < lv.k), vd1(tat(b, i), types)), patterns=[tat(b, i)]))]
        eng.tmpl.append(T)
        self.outer = True
        return {"cls": t.ref, "item": x}

    def run(self, eng, f, a):
        return eng.run_body(f, dict(a))

    def post(self, eng, a, out):
        x = self.x.t
        good = z3.If(is_("T", x), VDT(V.tval(x)), vd1(x, self.types))
        if out[0] != "ok":
            self.ob(eng, "only a TypeError is raised", exc_isa(out[1].cls, "TypeError"), str(out[1]))
            self.ob(eng, "supported dimensions are never refused", z3.Not(good))
            return
        self.ob(eng, "unsupported dimensions are refused", good)

    def usable(self, eng, f, args, kwargs):
        return True

    def apply(self, eng, a):
        base = None
        for c in eng.mro(a["cls"]):
            q = self.w.class_qual.get(c.id) if isinstance(c, Ref) else None
            if q in ("asta._array._Array", "asta._tensor._Tensor", "asta._tftensor._TFTensor"):
                base = q
                break
        if base is None:
            raise Unsupported("verify_dimensions on an unknown class")
        it = a["item"]
        types = dim_types(eng, self.w, base)
        if isinstance(it, (Tup, Seq)):
            q = U.as_seq(eng, it)
            good = VDS(q.base, z3.simplify(q.lo), z3.simplify(q.n))
            if isinstance(it, Tup):
                good = z3.And([vd1(eng.to_V(e), types) for e in it.items])
            if eng.branch(good):
                return None
            raise PyExc("TypeError")
        x = eng.to_V(it)
        good = z3.simplify(z3.If(is_("T", x), VDT(V.tval(x)), vd1(x, types)))
        if eng.branch(good):
            return None
        raise PyExc("TypeError")


# ---------------------------------------------------------------- get_shape
def scalar_t(eng, w):
    return eng.to_V(w.cls("asta.scalar.Scalar"))


def is_empty(x):
    return z3.And(is_("T", x), tlen(V.tval(x)) == 0)


def marker(x, sc):
    """Scalar or ()"""
    return z3.Or(x == sc, is_empty(x))


def me2_axiom():
    """The definition of ME for two elements."""
    b1, b2 = z3.Consts("b1!m2 b2!m2", TupS)
    l1, l2 = z3.Ints("l1!m2 l2!m2")
    return z3.ForAll([b1, b2, l1, l2], ME2(b1, l1, b2, l2), patterns=[U.ME(b1, l1, b2, l2, 2)])


def ME2(b1, l1, b2, l2):
    return U.ME(b1, l1, b2, l2, 2) == z3.And(U.okel(tat(b1, l1), tat(b2, l2)), U.okel(tat(b1, l1 + 1), tat(b2, l2 + 1)))


def same_seq(eng, r, b, lo, n):
    """The tuple value r has exactly the n elements of b from lo on."""
    if isinstance(r, Tup):
        return z3.And([n == len(r.items)] + [eng.to_V(x) == tat(b, lo + i) for i, x in enumerate(r.items)])
    if isinstance(r, Sym):
        q = Seq(V.tval(r.t), z3.IntVal(0), tlen(V.tval(r.t)))
        pre = is_("T", r.t)
    elif isinstance(r, Seq):
        q, pre = r, True
    else:
        return z3.BoolVal(False)
    i = z3.Int("i!ss")
    return z3.And(pre, q.n == n, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), tat(q.base, q.lo + i) == tat(b, lo + i))))


class GetShape(Contract):
    """The shape a sequence of dimensions denotes."""
    qual = "asta.classes.SubscriptableMeta.get_shape"
    props = ("C06",)
    worlds = (BOTH,)
    expect = ("ok", "exc")
    trusted = ("== between a dimension and Scalar or () is identity, resp. being an empty tuple",)

    def setup(self, eng):
        b, lo, n = eng.fresh(TupS, "item"), eng.fresh(Int, "lo"), eng.fresh(Int, "n")
        eng.assume(z3.And(lo >= 0, n >= 1))
        sc = scalar_t(eng, self.w)
        self.v = (b, lo, n, sc)
        i = z3.Int("i!gs")
        eng.assume(z3.ForAll([i], z3.And(z3.Not(pyeq_u(tat(b, i), V.T(EMPTYT))), z3.Implies(pyeq_u(tat(b, i), sc), tat(b, i) == sc),
                                         z3.Implies(pyeq_u(sc, tat(b, i)), tat(b, i) == sc)), patterns=[tat(b, i)]))
        eng.assume(hm_def(b, lo, n, sc))
        return {"item": Seq(b, lo, n)}

    def post(self, eng, a, out):
        b, lo, n, sc = self.v
        mk_ = HM(b, lo, n)
        if out[0] != "ok":
            self.ob(eng, "only a TypeError is raised", exc_isa(out[1].cls, "TypeError"), str(out[1]))
            self.ob(eng, "refused only for a scalar marker beside other dimensions", z3.And(mk_, n > 1))
            return
        r = out[1]
        e0 = tat(b, lo)
        nested = z3.And(n == 1, is_("T", e0), tlen(V.tval(e0)) > 0)
        self.ob(eng, "a scalar marker beside other dimensions is refused", z3.Not(z3.And(mk_, n > 1)))
        t0 = V.tval(e0)
        self.ob(eng, "the dimensions themselves, or those of the one tuple given, or none for a scalar marker",
                z3.If(mk_, same_seq(eng, r, b, lo, z3.IntVal(0)), z3.If(nested, same_seq(eng, r, t0, z3.IntVal(0), tlen(t0)), same_seq(eng, r, b, lo, n))))

    def apply(self, eng, a):
        s = U.as_seq(eng, a["item"])
        sc = scalar_t(eng, self.w)
        b, lo, n = s.base, s.lo, s.n
        if eng.branch(HM(b, z3.simplify(lo), z3.simplify(n))):
            if eng.branch(n == 1):
                return Tup([])
            raise PyExc("TypeError")
        e0 = tat(b, z3.simplify(lo))
        if eng.branch(z3.And(n == 1, is_("T", e0))):
            return Seq(V.tval(e0), z3.IntVal(0), tlen(V.tval(e0)))
        return Seq(b, lo, n)


# ---------------------------------------------------------------- parse_subscript
class PairLemma(Contract):
    """Two ellipses are found in a segment exactly when two consecutive elements are ellipses."""
    qual = None
    label = "repeated ellipses"
    props = ("C06",)
    worlds = (BOTH,)
    trusted = ("only Ellipsis equals Ellipsis",)

    def setup(self, eng):
        e, b = eng.fresh(TupS, "pair"), eng.fresh(TupS, "shape")
        lo, n = eng.fresh(Int, "lo"), eng.fresh(Int, "n")
        eng.assume(z3.And(lo >= 0, n >= 0, tat(e, 0) == V.E, tat(e, 1) == V.E))
        v = z3.Const("v!pl", V)
        eng.assume(z3.ForAll([v], z3.Not(pyeq_u(V.E, v)), patterns=[pyeq_u(V.E, v)]))
        eng.assume(me2_axiom())
        eng.assume(U.found_def(e, z3.IntVal(0), z3.IntVal(2), b, lo, n))
        eng.assume(rep_def(b, lo, n))
        self.v = (e, b, lo, n)
        return {}

    def run(self, eng, f, a):
        return None

    def name(self):
        return "lemma:repeated ellipses"

    def post(self, eng, a, out):
        e, b, lo, n = self.v
        self.ob(eng, "the pair is found exactly when it occurs", U.FOUND(e, 0, 2, b, lo, n) == REP(b, lo, n))


def pair_lemma():
    e, b = z3.Consts("e!pr b!pr", TupS)
    lo, n = z3.Ints("lo!pr n!pr")
    f = U.FOUND(e, 0, 2, b, lo, n)
    return z3.ForAll([e, b, lo, n], z3.Implies(z3.And(lo >= 0, n >= 0, tat(e, 0) == V.E, tat(e, 1) == V.E), f == REP(b, lo, n)), patterns=[f])


class Parse(Contract):
    """What a subscript means: dtype first, attributes last, dimensions between; what is not given is inherited."""
    qual = "asta.parser.parse_subscript"
    props = ("C06",)
    worlds = (BOTH,)
    base, dt, kinds = "", "", False
    expect = ("ok", "exc")
    uses = ("asta.utils.is_subtuple", "asta.parser.verify_dimensions", "asta.classes.SubscriptableMeta.get_shape")
    trusted = ("a subscript is equal to (), Scalar or Ellipsis only if it is that object (numpy arrays as subscripts are excluded)",)

    def setup(self, eng):
        t = self.t = TypeObj(eng, self.w, self.base, "cls", self.kinds)
        x = self.x = eng.freshV("item")
        sc = self.sc = scalar_t(eng, self.w)
        self.types = dim_types(eng, self.w, self.base)
        b = self.b = V.tval(x.t)
        eng.assume(z3.Or(is_("T", x.t), is_("O", x.t), is_("I", x.t), is_("B", x.t), is_("E", x.t), is_("N", x.t), is_("X", x.t), is_("S", x.t)))
        plain = lambda e: z3.And(z3.Not(pyeq_u(e, V.T(EMPTYT))), z3.Implies(pyeq_u(e, sc), e == sc), z3.Implies(pyeq_u(sc, e), e == sc),
                                 z3.Not(pyeq_u(e, V.E)), z3.Not(pyeq_u(V.E, e)))
        eng.assume(plain(x.t))
        eng.assume(plain(tat(b, 0)))
        eng.assume(pair_lemma())
        # a shape that is only inherited was checked when it was given
        ts = V.tval(t.shape.t)
        eng.assume(z3.Implies(is_("T", t.shape.t), z3.Not(REP(ts, z3.IntVal(0), tlen(ts)))))
        eng.subtuple_ground = True
        # instances of the definitions of HM and REP
        o = z3.Const("b!one", TupS)
        l, n = z3.Ints("l!one n!one")
        eng.assume(z3.ForAll([o, l, n], z3.Implies(n <= 1, HM(o, l, n) == z3.And(n == 1, marker(tat(o, l), sc))), patterns=[HM(o, l, n)]))
        eng.assume(z3.ForAll([o, l, n], z3.Implies(n <= 1, z3.Not(REP(o, l, n))), patterns=[REP(o, l, n)]))
        # dtype resolution, by contract of get_dtype
        self.DT, self.DK, self.DOK = (z3.Function("DT", V, V), z3.Function("DK", V, V), z3.Function("DOK", V, Bool))
        w = self

        def gd(eng, a, k):
            it = eng.to_V(a[0])
            if not eng.branch(w.DOK(it)):
                raise PyExc("TypeError")
            return Tup([Sym(w.DT(it)), Sym(w.DK(it))])
        ns = dict(eng.rec(t.ref).data[2])
        ns["get_dtype"] = Wrapped("staticmethod", NativeFn("get_dtype", gd))
        r = eng.rec(t.ref).data
        eng.put(t.ref, (r[0], r[1], ns, r[3]))
        return {"cls": t.ref, "item": x, "dtype_metaclass": EX(self.dt)}

    def dtlike(self, x):
        """x names a dtype"""
        return z3.And(is_("O", x), z3.Or(inst(x, TYPE()), inst(x, V_(self.dt))), x != self.sc)

    def isdict(self, x):
        return z3.And(is_("O", x), inst(x, V_("builtins.dict")))

    def post(self, eng, a, out):
        x, b, sc = self.x.t, self.b, self.sc
        n = tlen(b)
        many = z3.And(is_("T", x), n > 0)
        # the parts of the subscript
        first = z3.If(many, tat(b, 0), x)
        hasdt = self.dtlike(first)
        p = z3.If(z3.And(many, hasdt), z3.IntVal(1), z3.IntVal(0))
        last = z3.If(many, tat(b, n - 1), x)
        haskw = z3.And(self.isdict(last), z3.If(many, n - p > 0, z3.Not(hasdt)))
        q = z3.If(z3.And(many, haskw), z3.IntVal(1), z3.IntVal(0))
        ndims = z3.If(many, n - p - q, z3.If(z3.Or(hasdt, haskw), z3.IntVal(0), z3.IntVal(1)))
        hasdims = ndims > 0
        scal = z3.Or(x == sc, is_empty(x))
        mk_ = z3.If(many, HM(b, p, ndims), scal)
        kindsok = z3.If(many, VDS(b, p, ndims),
                        z3.Or(scal, vd1(x, self.types)))
        e0 = tat(b, p)
        t0 = V.tval(e0)
        nested = z3.And(many, ndims == 1, is_("T", e0), tlen(t0) > 0)
        rep = z3.If(mk_, False, z3.If(nested, REP(t0, z3.IntVal(0), tlen(t0)), z3.And(many, REP(b, p, ndims))))
        legal = z3.And(z3.Implies(hasdt, self.DOK(first)),
                       z3.Implies(hasdims, z3.And(kindsok, z3.Not(z3.And(mk_, ndims > 1)), z3.Not(rep))))
        if out[0] != "ok":
            self.ob(eng, "only a TypeError is raised", exc_isa(out[1].cls, "TypeError"), str(out[1]))
            self.ob(eng, "a supported subscript is never refused", z3.Not(legal))
            return
        d, s, k, kd = out[1].items
        self.ob(eng, "unsupported dimensions, repeated scalar markers and repeated ellipses are refused", legal)
        t = self.t
        self.ob(eng, "the dtype given, else the inherited one", eng.to_V(d) == z3.If(hasdt, self.DT(first), t.dtype.t))
        self.ob(eng, "the attributes given, else the inherited ones", eng.to_V(k) == z3.If(haskw, last, t.kwattrs.t))
        if self.kinds:
            self.ob(eng, "the dtype kind follows the dtype", eng.to_V(kd) == z3.If(hasdt, self.DK(first), t.kind.t))
        if s is None:
            self.ob(eng, "a shape is given by the dimensions", z3.And(z3.Not(hasdims), z3.Implies(many, is_("N", t.shape.t))))
            return
        sv = s
        one = z3.And(is_("T", eng.to_V(s)), tlen(V.tval(eng.to_V(s))) == 1, tat(V.tval(eng.to_V(s)), 0) == x) if not isinstance(s, Tup) else \
            z3.BoolVal(len(s.items) == 1) if not s.items else z3.And(z3.BoolVal(len(s.items) == 1), eng.to_V(s.items[0]) == x)
        z = z3.IntVal(0)
        shape_ok = z3.If(z3.Not(hasdims), z3.And(many, eng.to_V(s) == t.shape.t) if not isinstance(s, Tup) else False,
                         z3.If(mk_, same_seq(eng, sv, b, z, z), z3.If(nested, same_seq(eng, sv, t0, z, tlen(t0)), z3.If(many, same_seq(eng, sv, b, p, ndims), one))))
        self.ob(eng, "the shape is the dimensions given, in every notation", shape_ok)


class ParseSpec(Contract):
    """parse_subscript as its callers see it: four values, or TypeError; nothing is changed."""
    qual = "asta.parser.parse_subscript"

    def apply(self, eng, a):
        if eng.choose(2) == 1:
            raise PyExc("TypeError")
        d, s, k, kd = (eng.freshV("parsed_" + x) for x in ("dtype", "shape", "kwattrs", "kind"))
        eng.ghost_set("parsed", (d, s, k, kd, eng.to_V(a["item"])))
        return Tup([d, s, k, kd])


def heap_frame(eng, before, allowed=()):
    """Names of objects that existed before and are different now."""
    return [i for i, r in before.items() if not (isinstance(i, str) and i in ("ghost",)) and i not in allowed and eng.heap.get(i) is not r
            and not (isinstance(i, str) and i.startswith("f") and i != "fattrs")]


class GetItem(Contract):
    """Subscripting makes a new type with the attributes the subscript denotes and changes nothing else."""
    props = ("C07", "C06")
    worlds = (BOTH,)
    base, kinds = "", False
    expect = ("ok", "exc")
    uses = ("asta.parser.parse_subscript",)

    def setup(self, eng):
        t = self.t = TypeObj(eng, self.w, self.base, "cls", self.kinds, True)
        x = self.x = eng.freshV("item")
        self.before = dict(eng.heap)
        return {"cls": t.ref, "item": x}

    def post(self, eng, a, out):
        ch = heap_frame(eng, self.before)
        self.ob(eng, "neither the type subscripted nor any other object is changed", not ch, str([(i, self.w.class_qual.get(i)) for i in ch]))
        if out[0] != "ok":
            self.ob(eng, "only a TypeError is raised", exc_isa(out[1].cls, "TypeError"), str(out[1]))
            return
        r = out[1]
        if not (isinstance(r, Ref) and eng.rec(r).kind == "class"):
            self.ob(eng, "the result is a type", False, str(r))
            return
        self.ob(eng, "the result is a new type", r.id not in self.before)
        rec = eng.rec(r).data
        self.ob(eng, "of the same library", rec[3] == eng.rec(self.t.ref).data[3])
        p = eng.ghost_get("parsed")
        if p is None:
            self.ob(eng, "the subscript is parsed", False)
            return
        d, s, k, kd, it = p
        for nm, v in (("dtype", d), ("shape", s), ("kwattrs", k)) + ((("kind", kd),) if self.kinds else ()):
            self.ob(eng, f"its {nm} is the one the subscript denotes", eng.to_V(eng.getattr(r, nm)) == v.t)
        h = rec[2].get("_hash", 0)
        self.ob(eng, "no hash of another type is carried over", z3.BoolVal(h == 0 or h is None) if not isinstance(h, Val) else eng.as_int(h) == 0)
        self.item(eng, it)

    def item(self, eng, it):
        self.ob(eng, "the subscript parsed is the one given", it == self.x.t)


class TFGetItem(GetItem):
    def item(self, eng, it):
        x = self.x.t
        ts = lambda v: z3.And(is_("O", v), inst(v, V_("tensorflow.TensorShape")))
        conv = lambda r, v: z3.If(ts(v), z3.And(is_("T", r), tlen(V.tval(r)) == tlen(seqof(V.oval(v)))), r == v)
        j = eng.fresh(Int, "j")
        eng.assume(z3.And(0 <= j, j < tlen(V.tval(x))))
        self.ob(eng, "the subscript parsed is the one given, with shapes as tuples",
                z3.If(is_("T", x), z3.And(is_("T", it), tlen(V.tval(it)) == tlen(V.tval(x)), conv(tat(V.tval(it), j), tat(V.tval(x), j))), conv(it, x)))


ALL = [GetDtype, GetDtypeTensor, GetDtypeTF]
DEPS = [VerifyDims, GetShape]
_T = [("Array", "asta._array._Array", "numpy.dtype", True), ("Tensor", "asta._tensor._Tensor", "torch.dtype", False),
      ("TFTensor", "asta._tftensor._TFTensor", "tensorflow.dtypes.DType", False)]
for n_, b_, d_, k_ in _T:
    ALL.append(mk(VerifyDims, n_ + "VerifyDims", base=b_, label=n_))
    ALL.append(mk(Parse, n_ + "Parse", base=b_, dt=d_, kinds=k_, label=n_))
    for c_ in ALL[-2:]:
        c_.__module__ = __name__
        globals()[c_.__name__] = c_
ALL += [GetShape, PairLemma]
DEPS.append(ParseSpec)
for n_, b_, m_, k_, c_ in (("Array", "asta._array._Array", "asta._array._ArrayMeta", True, GetItem), ("Tensor", "asta._tensor._Tensor", "asta._tensor._TensorMeta", False, GetItem),
                           ("TFTensor", "asta._tftensor._TFTensor", "asta._tftensor._TFTensorMeta", False, TFGetItem)):
    c2 = mk(c_, n_ + "GetItem", qual=m_ + ".__getitem__", base=b_, kinds=k_)
    c2.__module__ = __name__
    globals()[c2.__name__] = c2
    ALL.append(c2)
