"""Contracts of the array types: instance check, equality, hash, dtype resolution, subscripting."""
from contract import *
from models import *
import c_utils as U

SHu = z3.Function("SHu", TupS, Int, Int, V, Bool)     # shape matches pattern (and its own equations are solvable)
SEu = z3.Function("SEu", TupS, Int, Int, V, SetS)     # the equations of that match
REP = z3.Function("REP", TupS, Int, Int, Bool)        # a segment has two consecutive ellipses
WFS = lambda v: z3.Not(REP(V.tval(v), z3.IntVal(0), tlen(V.tval(v))))       # a shape attribute that parse_subscript can produce


def natural(b, lo, n):
    """The elements of a segment are non-negative integers."""
    p = z3.Int("p!nat")
    return z3.ForAll([p], z3.Implies(z3.And(lo <= p, p < lo + n), z3.And(is_("I", tat(b, p)), V.ival(tat(b, p)) >= 0)), patterns=[tat(b, p)])

BOTH, TONLY, FONLY, NONE = (True, True), (True, False), (False, True), (False, False)


class TypeObj:
    """A subscripted type: a class object with unknown attributes."""

    def __init__(self, eng, w, base, hint, kind=True, hashed=False):
        self.shape, self.dtype, self.kwattrs = (eng.freshV(hint + x) for x in ("_shape", "_dtype", "_kwattrs"))
        self.kind = eng.freshS()
        b = w.cls(base)
        ns = {"shape": self.shape, "dtype": self.dtype, "kwattrs": self.kwattrs}
        if kind:
            ns["kind"] = self.kind
        if hashed:
            self.h = eng.fresh(Int, hint + "_hash")
            ns["_hash"] = SInt(self.h)
        meta = w.base_heap[b.id].data[3]
        self.ref = eng.alloc("class", (base.rsplit(".", 1)[1], (b,), ns, meta))
        sh, dt, kw = self.shape.t, self.dtype.t, self.kwattrs.t
        eng.assume(z3.Or(is_("N", sh), z3.And(is_("T", sh), WFS(sh))))
        eng.assume(z3.Or(is_("N", dt), is_("O", dt)))
        eng.assume(z3.Or(is_("N", kw), z3.And(is_("O", kw), inst(kw, V_("builtins.dict")), solid(V.oval(kw)) == 1)))
        eng.assume(z3.Implies(is_("O", dt), otruth(V.oval(dt))))


class InstCheck(Contract):
    """isinstance(x, Array[...]) is: right library, dtype, shape, attributes, and the equations together are solvable."""
    props = ("C01", "C02", "C04", "C05", "C10")
    worlds = (BOTH, NONE)
    base = arr = ""
    kinds = False
    uses = ("asta.utils.shapecheck", "asta.utils.attrcheck", "asta.utils.astasolver")
    trusted = ("an array or tensor has shape and dtype attributes; its dimensions are non-negative integers; a dtype object is true; dtype equality is symmetric",)

    def setup(self, eng):
        x = eng.freshV("inst")
        self.x = x.t
        t = self.t = TypeObj(eng, self.w, self.base, "cls", self.kinds)
        isarr = self.isarr = z3.And(is_("O", x.t), inst(x.t, V_(self.arr)))
        dt = self.dt = attr(x.t, "dtype")
        sh = self.sh = attr(x.t, "shape")
        eng.assume(z3.Implies(isarr, z3.And(hasa(x.t, "shape"), hasa(x.t, "dtype"), is_("O", dt), hasa(dt, "kind"), hasa(dt, "names"), is_("S", attr(dt, "kind")))))
        eng.assume(z3.Implies(isarr, self.shape_pre(eng, sh)))
        eng.assume(z3.Implies(isarr, natural(self.base_of(), z3.IntVal(0), tlen(self.base_of()))))
        eng.assume(U.am_def(x.t, t.kwattrs.t))
        d = t.dtype.t
        eng.assume(pyeq_u(d, dt) == pyeq_u(dt, d))
        self.extra(eng)
        return {"cls": t.ref, "inst": x}

    def extra(self, eng):
        pass

    def shape_pre(self, eng, sh):
        return is_("T", sh)

    def base_of(self):
        return V.tval(self.sh)

    def post(self, eng, a, out):
        if out[0] != "ok":
            self.ob(eng, "always returns a verdict", False, f"raises {out[1]}")
            return
        t, dt = self.t, self.dt
        d = t.dtype.t
        dok = z3.Or(is_("N", d), veq(d, dt))
        if self.kinds:
            k = V.sval(t.kind.t)
            dok = z3.If(strue(k), k == V.sval(attr(dt, "kind")), dok)
        b = self.base_of()
        z, n, c = z3.IntVal(0), tlen(b), t.shape.t
        x, kw = self.x, t.kwattrs.t
        r = U.tr(eng, out[1])
        sat = U.SAT(union(SEu(b, z, n, c), U.AEu(x, kw)))
        self.ob(eng, "only arrays or tensors of its library", z3.Implies(r, self.isarr))
        self.ob(eng, "only the dtype it names, every dtype when it names none", z3.Implies(r, dok))
        self.ob(eng, "only a shape that matches", z3.Implies(r, SHu(b, z, n, c)))
        self.ob(eng, "only when the attribute constraints hold", z3.Implies(r, U.AMu(x, kw)))
        self.ob(eng, "only when shape and attribute equations are solvable together", z3.Implies(r, sat))
        self.ob(eng, "and everything that satisfies these is accepted", z3.Implies(z3.And(self.isarr, dok, SHu(b, z, n, c), U.AMu(x, kw), sat), r))


def zero_lemma(eng):
    """SAT depends on a set of equations only up to the equation 0; said once for unions."""
    a, b, c = z3.Consts("a!zl b!zl c!zl", SetS)
    return []


class ArrayInst(InstCheck):
    qual = "asta._array._ArrayMeta.__instancecheck__"
    base, arr, kinds = "asta._array._Array", "numpy.ndarray", True


class TensorInst(InstCheck):
    qual = "asta._tensor._TensorMeta.__instancecheck__"
    base, arr = "asta._tensor._Tensor", "torch.Tensor"
    worlds = (BOTH, TONLY)


class TFTensorInst(InstCheck):
    qual = "asta._tftensor._TFTensorMeta.__instancecheck__"
    base, arr = "asta._tftensor._TFTensor", "tensorflow.Tensor"
    worlds = (BOTH, FONLY)
    trusted = InstCheck.trusted + ("the shape of a TensorFlow tensor is a TensorShape, whose elements are the dimensions",)

    def shape_pre(self, eng, sh):
        return z3.And(is_("O", sh), inst(sh, V_("tensorflow.TensorShape")), solid(V.oval(sh)) == w_solid("tensorflow.TensorShape"))

    def base_of(self):
        return seqof(V.oval(self.sh))


def w_solid(p):
    from world import SOLID
    return SOLID.index(p)


# ---------------------------------------------------------------- equality and hash
def dict_eq(a, b):
    return veq(a, b)


def agree(a, b, kinds):
    fs = [veq(a.shape.t, b.shape.t), z3.Or(z3.And(is_("N", a.dtype.t), is_("N", b.dtype.t)), z3.And(is_("O", a.dtype.t), is_("O", b.dtype.t), veq(a.dtype.t, b.dtype.t))),
          veq(a.kwattrs.t, b.kwattrs.t)]
    if kinds:
        fs.append(a.kind.t == b.kind.t)
    return z3.And(fs)


class TypeEq(Contract):
    """Two types of one library are equal exactly when they agree on dtype, shape and attributes."""
    props = ("C07", "C06")
    worlds = (BOTH,)
    base, kinds = "", False
    trusted = ("== on dtypes is symmetric; a PyTorch or TensorFlow dtype is not equal to None (a numpy dtype may be)",)

    def setup(self, eng):
        self.a = TypeObj(eng, self.w, self.base, "a", self.kinds)
        self.b = TypeObj(eng, self.w, self.base, "b", self.kinds)
        for f in ("dtype", "shape", "kwattrs"):
            x, y = getattr(self.a, f).t, getattr(self.b, f).t
            eng.assume(pyeq_u(x, y) == pyeq_u(y, x))
        if not self.kinds:
            for t in (self.a, self.b):
                eng.assume(z3.And(z3.Not(pyeq_u(t.dtype.t, V.N)), z3.Not(pyeq_u(V.N, t.dtype.t))))
        return {"cls": self.a.ref, "other": self.b.ref}

    def post(self, eng, a, out):
        if out[0] != "ok":
            self.ob(eng, "comparison answers", False, f"raises {out[1]}")
            return
        self.ob(eng, "equal exactly when dtype, shape and attributes agree", U.tr(eng, out[1]) == agree(self.a, self.b, self.kinds))
        for t in (self.a, self.b):
            ns = eng.rec(t.ref).data[2]
            self.ob(eng, "comparing changes neither", all(ns[k] is v for k, v in (("shape", t.shape), ("dtype", t.dtype), ("kwattrs", t.kwattrs))))


class TypeEqOther(Contract):
    """A type is equal to nothing that is not a type of its library."""
    props = ("C07",)
    worlds = (BOTH,)
    base, meta, kinds = "", "", False

    def setup(self, eng):
        self.a = TypeObj(eng, self.w, self.base, "a", self.kinds)
        self.o = eng.freshV("other")
        eng.assume(z3.Not(inst(self.o.t, eng.to_V(self.w.cls(self.meta)))))
        return {"cls": self.a.ref, "other": self.o}

    def post(self, eng, a, out):
        if out[0] != "ok":
            self.ob(eng, "comparison answers", False, f"raises {out[1]}")
            return
        self.ob(eng, "not equal to anything else", z3.Not(U.tr(eng, out[1])))


class TypeHash(Contract):
    """Equal types have equal hashes, whatever was hashed before."""
    props = ("C07",)
    worlds = (BOTH,)
    base, kinds = "", False
    trusted = ("equal tuples have equal hashes, and equal dtypes have equal hashes (Python's and the libraries' own contract)",
               "every element of a shape is hashable")

    def setup(self, eng):
        a = self.a = TypeObj(eng, self.w, self.base, "a", self.kinds, True)
        b = self.b = TypeObj(eng, self.w, self.base, "b", self.kinds, True)
        eng.assume(agree(a, b, self.kinds))
        for f in ("dtype", "shape"):
            eng.assume(hash_u(getattr(a, f).t) == hash_u(getattr(b, f).t))
        self.H = {}
        # the hash kept in a type is either absent (0) or the one computed earlier
        for t in (a, b):
            h = self.fresh_hash(eng, t)
            eng.assume(z3.Or(t.h == 0, t.h == h))
        return {"a": a.ref, "b": b.ref}

    def fresh_hash(self, eng, t):
        """What __hash__ computes for a type that has no hash yet (run on a copy)."""
        r = eng.rec(t.ref).data
        ns = dict(r[2])
        ns["_hash"] = 0
        c = eng.alloc("class", (r[0], r[1], ns, r[3]))
        v = eng.call(self.hashfn(eng, c), [], {})
        return eng.as_int(v)

    def hashfn(self, eng, ref):
        return eng.lookup_special(ref, "__hash__")

    def run(self, eng, f, a):
        x = eng.call(self.hashfn(eng, a["a"]), [], {})
        y = eng.call(self.hashfn(eng, a["b"]), [], {})
        z = eng.call(self.hashfn(eng, a["a"]), [], {})
        return Tup([x, y, z])

    def post(self, eng, a, out):
        if out[0] != "ok":
            self.ob(eng, "a type is hashable", False, f"raises {out[1]}")
            return
        x, y, z = (eng.as_int(v) for v in out[1].items)
        self.ob(eng, "equal types have equal hashes", x == y)
        self.ob(eng, "hashing again gives the same hash", x == z)
        for t in (self.a, self.b):
            ns = eng.rec(t.ref).data[2]
            self.ob(eng, "hashing changes no attribute but the hash kept", all(ns[k] is v for k, v in (("shape", t.shape), ("dtype", t.dtype), ("kwattrs", t.kwattrs))))
            h = eng.as_int(ns["_hash"])
            self.ob(eng, "the hash kept is absent or the hash of the type", z3.Or(h == 0, h == (x if t is self.a else y)) if not isinstance(h, int) else z3.Or(z3.IntVal(h) == 0, h == x))


def mk(base_cls, name, **kw):
    c = type(name, (base_cls,), kw)
    c.__module__ = __name__
    globals()[name] = c
    return c


_T = [("Array", "asta._array._Array", "asta._array._ArrayMeta", True, (BOTH, NONE)),
      ("Tensor", "asta._tensor._Tensor", "asta._tensor._TensorMeta", False, (BOTH, TONLY)),
      ("TFTensor", "asta._tftensor._TFTensor", "asta._tftensor._TFTensorMeta", False, (BOTH, FONLY))]
TYPES = []
for n_, b_, m_, k_, ws_ in _T:
    TYPES.append(mk(TypeEq, n_ + "Eq", qual=m_ + ".__eq__", base=b_, kinds=k_, worlds=ws_))
    TYPES.append(mk(TypeEqOther, n_ + "EqOther", qual=m_ + ".__eq__", label="other", base=b_, meta=m_, kinds=k_, worlds=ws_))
    TYPES.append(mk(TypeHash, n_ + "Hash", qual=m_ + ".__hash__", base=b_, kinds=k_, worlds=ws_))

ALL = [ArrayInst, TensorInst, TFTensorInst] + TYPES
DEPS = []
