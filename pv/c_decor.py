"""Contracts of the decorator: parameter binding, the wrapper, class decoration."""
from contract import *
from models import *
from c_registers import symdict, dict_after
import c_utils as U

WORLD = ((True, True),)
DICT = "builtins.dict"
RET = "return"


def S_(s):
    return V.S(str_const(s))


def forall_at(m, k, f):
    """For every k, triggered by m[k] when m is a constant."""
    return z3.ForAll([k], f, patterns=[z3.Select(m, k)]) if z3.is_const(m) and not z3.is_K(m) and m.decl().kind() == z3.Z3_OP_UNINTERPRETED else z3.ForAll([k], f)


class Params:
    """A signature: N parameters with distinct names, each with a default or the marker for none."""

    def __init__(self, eng, w):
        self.ks = ks = eng.fresh(TupS, "params")
        self.N = tlen(ks)
        self.has, self.get = eng.fresh(SetS, "params_has"), eng.fresh(MapS, "params_get")
        idx = self.idx = z3.Function(f"pidx!{eng.nfresh}", V, Int)
        self.none = eng.to_V(eng.getattr(Ext("inspect.Parameter"), "empty"))
        i, k = z3.Int("i!pa"), z3.Const("k!pa", V)
        rng = z3.And(0 <= i, i < self.N)
        eng.assume(self.N >= 0)
        eng.assume(z3.ForAll([i], z3.Implies(rng, z3.And(z3.Select(self.has, tat(ks, i)), idx(tat(ks, i)) == i, is_("S", tat(ks, i)), tat(ks, i) != S_(RET))), patterns=[tat(ks, i)]))
        eng.assume(z3.ForAll([k], z3.Implies(z3.Select(self.has, k), z3.And(0 <= idx(k), idx(k) < self.N, tat(ks, idx(k)) == k)), patterns=[idx(k)]))
        eng.assume(z3.ForAll([k], z3.Implies(z3.Select(self.has, k), z3.And(0 <= idx(k), idx(k) < self.N, tat(ks, idx(k)) == k)), patterns=[z3.Select(self.has, k)]))
        p = z3.Select(self.get, k)
        eng.assume(z3.ForAll([k], z3.And(is_("O", p), has_attr(p, str_const("default")), has_attr(p, str_const("name")), get_attr(p, str_const("name")) == k), patterns=[p]))
        mapping = eng.alloc("dict", ("s", self.has, self.get, Seq(ks, z3.IntVal(0), self.N)))
        eng.assume(card(self.has) == self.N)
        self.sig = eng.alloc("inst", (Ext("inspect.Signature"), {"parameters": mapping}))

    def default(self, k):
        return get_attr(z3.Select(self.get, k), str_const("default"))

    def inP(self, k):
        return z3.Select(self.has, k)


class Binding:
    """A call: positional and keyword arguments against a signature and annotations."""

    def __init__(self, eng, p, args, kwhas, kwget, ahas):
        self.p, self.args, self.n = p, args, args.n
        self.kwhas, self.kwget, self.ahas = kwhas, kwget, ahas
        self.k0 = tat(p.ks, 0)
        self.selfish = z3.Or([self.k0 == S_(x) for x in ("self", "cls", "mcs")])

    def annotated(self, k):
        return z3.And(z3.Select(self.ahas, k), k != S_(RET))

    def strip(self):
        return z3.And(self.p.N >= 1, self.selfish, z3.Not(z3.Select(self.ahas, self.k0)))

    def checked(self, k):
        return z3.And(self.p.inP(k), z3.Not(z3.And(self.strip(), k == self.k0)))

    def bound(self, k):
        i = self.p.idx(k)
        return z3.If(i < self.n, tat(self.args.base, self.args.lo + i), z3.If(z3.Select(self.kwhas, k), z3.Select(self.kwget, k), self.p.default(k)))

    def avail(self, k):
        return z3.Or(self.p.idx(k) < self.n, z3.Select(self.kwhas, k), self.p.default(k) != self.p.none)


class Validate(Contract):
    qual = "asta.decorators.validate_annotations"
    props = ("C12", "C03", "C11")
    worlds = WORLD
    expect = ("ok", "exc")
    trusted = ("inspect.signature lists the parameters of the function, in order, with their defaults; the annotations of a function name parameters or 'return'",
               "a set of names equal to the set of a list of N distinct names has N elements",
               "the function takes no *args and no **kwargs")

    def setup(self, eng):
        p = self.p = Params(eng, self.w)
        ahas, aget = eng.fresh(SetS, "ann_has"), eng.fresh(MapS, "ann_get")
        k = z3.Const("k!va", V)
        eng.assume(z3.ForAll([k], z3.Implies(z3.Select(ahas, k), z3.Or(k == S_(RET), p.inP(k))), patterns=[z3.Select(ahas, k)]))
        base, n = eng.fresh(TupS, "args"), eng.fresh(Int, "nargs")
        eng.assume(z3.And(n >= 0, n == tlen(base)))
        args = Seq(base, z3.IntVal(0), n)
        kwhas, kwget = eng.fresh(SetS, "kw_has"), eng.fresh(MapS, "kw_get")
        b = self.b = Binding(eng, p, args, kwhas, kwget, ahas)
        # a call the function itself would not refuse for a surplus or a repeated argument
        eng.assume(n <= p.N)
        eng.assume(z3.ForAll([k], z3.Implies(z3.Select(kwhas, k), z3.And(p.inP(k), p.idx(k) >= n)), patterns=[z3.Select(kwhas, k)]))
        # sizes
        nret = z3.If(z3.Select(ahas, S_(RET)), z3.IntVal(1), z3.IntVal(0))
        noret = z3.Store(ahas, S_(RET), z3.BoolVal(False))
        allp = z3.ForAll([k], z3.Implies(p.inP(k), z3.Select(ahas, k)))
        butfirst = z3.And(p.N >= 1, z3.ForAll([k], z3.Implies(z3.And(p.inP(k), k != tat(p.ks, 0)), z3.Select(ahas, k))), z3.Not(z3.Select(ahas, tat(p.ks, 0))))
        eng.assume(card(noret) == card(ahas) - nret)
        eng.assume(z3.Implies(allp, card(noret) == p.N))
        eng.assume(z3.Implies(butfirst, card(noret) == p.N - 1))
        self.dec = eng.freshV("decorated")
        eng.assume(is_("O", self.dec.t))
        self.w.ext_handlers["inspect.signature"] = lambda e, a, kw: p.sig

        class T:
            @staticmethod
            def invs(lv):
                out = []
                k = z3.Const("k!inv", V)
                for x, e, (h, g) in lv.dicts():
                    if e is None:
                        continue
                    eh, eg = e
                    d = p.default(k) != p.none
                    for nm, lo, ok, val in (("default", 0, d, p.default(k)), ("args0", 0, True, tat(base, p.idx(k))), ("args1", 1, True, tat(base, p.idx(k))),
                                            ("bound0", 0, b.avail(k), b.bound(k)), ("bound1", 1, b.avail(k), b.bound(k))):
                        c = z3.And(p.inP(k), lo <= p.idx(k), p.idx(k) < lo + lv.k, ok)
                        out.append(((nm, x), z3.And(
                            forall_at(h, k, z3.Select(h, k) == z3.Or(z3.Select(eh, k), c)),
                            forall_at(g, k, z3.Select(g, k) == z3.If(c, val, z3.Select(eg, k))))))
                return out
        eng.tmpl.append(T)
        return {"decorated": self.dec, "annotations": eng.alloc("dict", ("s", ahas, aget, None)), "args": args,
                "kwargs": eng.alloc("dict", ("s", kwhas, kwget, None))}

    def post(self, eng, a, out):
        p, b = self.p, self.b
        k = z3.Const("k!po", V)
        full = z3.ForAll([k], z3.Implies(b.checked(k), b.annotated(k)))
        given = z3.ForAll([k], z3.Implies(b.checked(k), b.avail(k)))
        if out[0] == "exc":
            self.ob(eng, "only a TypeError is raised", exc_isa(out[1].cls, "TypeError"), str(out[1]))
            self.ob(eng, "refused only when an annotation or a value is missing", z3.Not(z3.And(full, given)))
            return
        d = out[1]
        if not (isinstance(d, Ref) and eng.rec(d).kind == "dict"):
            raise Unsupported("the result is not a dictionary")
        has, get = dict_after(eng, d)
        self.ob(eng, "every parameter but an unannotated leading self, cls or mcs is annotated", full)
        self.ob(eng, "every such parameter has a value", given)
        self.ob(eng, "exactly these parameters are checked", z3.ForAll([k], z3.Select(has, k) == b.checked(k)))
        self.ob(eng, "each with the value the call binds to it", z3.ForAll([k], z3.Implies(b.checked(k), z3.Select(get, k) == b.bound(k))))
        kd = eng.rec(a["kwargs"]).data
        self.ob(eng, "the keyword arguments are not changed", z3.And(kd[1] == b.kwhas, kd[2] == b.kwget) if kd[0] == "s" else False)


# ---------------------------------------------------------------- the wrapper
CAok = z3.Function("CAok", V, V, Bool)       # value conforms to annotation
CAeq = z3.Function("CAeq", V, V, SetS)       # the equations this contributes
EQK = z3.Function("EQK", Int, SetS)          # equations of the first k checked arguments


class Local:
    """A contract used by callers; proved elsewhere (see the module named)."""

    def __init__(self, fn):
        self.apply = fn

    def usable(self, eng, f, args, kwargs):
        return True


def set_ox(eng, w, **kw):
    r = eng.rec(w.ox)
    eng.put(w.ox, (r.data[0], dict(r.data[1], **kw)))


def environ(eng, w):
    """os.environ with unknown contents."""
    eh, eg = z3.Function("env_has", StrS, Bool), z3.Function("env_get", StrS, StrS)

    def key(k):
        return V.sval(eng.to_V(k))

    def contains(e, x, c):
        return (eh(key(x)),) if isinstance(c, Ext) and c.path == "os.environ" else None

    def getitem(e, o, k):
        if not (isinstance(o, Ext) and o.path == "os.environ"):
            return None
        if not e.branch(eh(key(k))):
            raise PyExc("KeyError")
        return e.from_V(V.S(eg(key(k))))

    def get(e, a, k):
        if e.branch(eh(key(a[0]))):
            return e.from_V(V.S(eg(key(a[0]))))
        return a[1] if len(a) > 1 else k.get("default")
    eng.hooks.setdefault("contains", []).append(contains)
    eng.hooks.setdefault("ext_getitem", []).append(getitem)
    w.ext_handlers["os.environ.get"] = w.ext_handlers["os.getenv"] = get
    t = str_const("ASTA_TYPECHECK")
    return eh(t), eg(t)


def function_object(eng):
    """An annotated function about which nothing else is known."""
    d = eng.freshV("decorated")
    eng.assume(z3.And(is_("O", d.t), eng.world.oinst(eng, d.t, Ext("types.FunctionType"))))
    for x in ("__annotations__", "__module__", "__name__", "__qualname__"):
        eng.assume(hasa(d.t, x))
    for x in ("__module__", "__name__", "__qualname__"):
        eng.assume(is_("S", attr(d.t, x)))
    a = attr(d.t, "__annotations__")
    eng.assume(z3.And(is_("O", a), inst(a, V_(DICT))))
    return d, a


def member(ann, k):
    return mhas(V.oval(ann), k), mget(V.oval(ann), k)


class Decorate(Contract):
    """Whether a function is wrapped at all."""
    qual = "asta.decorators.typechecked"
    label = "switch"
    props = ("C11", "C17")
    worlds = WORLD
    trusted = ("get_ox returns the one configuration object (its own contracts: C17)",)

    def setup(self, eng):
        self.d, self.ann = function_object(eng)
        self.on = eng.fresh(Bool, "on")
        set_ox(eng, self.w, on=SBool(self.on))
        self.eh, self.eg = environ(eng, self.w)
        return {"decorated": self.d}

    def post(self, eng, a, out):
        if out[0] != "ok":
            self.ob(eng, "decorating a function never fails", False, f"raises {out[1]}")
            return
        off = z3.Or(z3.Not(self.on), z3.And(self.eh, self.eg != str_const("1")))
        r = out[1]
        same = isinstance(r, Sym) and z3.simplify(r.t).eq(self.d.t)
        if same:
            self.ob(eng, "the function is returned unwrapped only with checking off", off)
        else:
            self.ob(eng, "with checking off the very same object is returned", z3.Not(off))
            self.ob(eng, "with checking on a wrapper is returned", isinstance(r, (Func, Bound, NativeFn, Ref)), str(r))
            if isinstance(r, Func):
                self.ob(eng, "the wrapper goes by the name of the function", eng.to_V(eng.getattr(r, "__name__")) == attr(self.d.t, "__name__"))
                self.ob(eng, "the wrapper belongs to the module of the function", eng.to_V(eng.getattr(r, "__module__")) == attr(self.d.t, "__module__"))


class Wrapper(Contract):
    """A call of a typechecked function, from its arguments to its result."""
    qual = "asta.decorators.typechecked"
    label = "call"
    props = ("C03", "C11", "C12", "C15")
    worlds = WORLD
    expect = ("ok", "exc")
    trusted = ("the function called may do anything except change the argument containers the wrapper holds",
               "get_header returns a string")

    def setup(self, eng):
        w = self.w
        self.d, ann = function_object(eng)
        self.ann = ann
        rm = self.rm = eng.fresh(Bool, "raise_errors")
        set_ox(eng, w, on=True, raise_errors=SBool(rm), print_passes=SBool(eng.fresh(Bool, "print_passes")))
        eh, eg = environ(eng, w)
        eng.assume(z3.Or(z3.Not(eh), eg == str_const("1")))
        base, n = eng.fresh(TupS, "args"), eng.fresh(Int, "nargs")
        eng.assume(z3.And(n >= 0, n == tlen(base)))
        self.args = Seq(base, z3.IntVal(0), n)
        self.kwh, self.kwg = eng.fresh(SetS, "kw_has"), eng.fresh(MapS, "kw_get")
        self.kw = eng.alloc("dict", ("s", self.kwh, self.kwg, None))
        # the checked parameters, as validate_annotations returns them
        ks, get, has = eng.fresh(TupS, "checked"), eng.fresh(MapS, "bound"), eng.fresh(SetS, "checked_has")
        N = self.N = tlen(ks)
        i, k = z3.Int("i!wr"), z3.Const("k!wr", V)
        idx = z3.Function(f"cidx!{eng.nfresh}", V, Int)
        ao = V.oval(ann)
        eng.assume(N >= 0)
        eng.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < N), z3.And(z3.Select(has, tat(ks, i)), is_("S", tat(ks, i)), tat(ks, i) != S_(RET), mhas(ao, tat(ks, i)), idx(tat(ks, i)) == i)), patterns=[tat(ks, i)]))
        self.val = lambda i: z3.Select(get, tat(ks, i))
        self.an = lambda i: mget(ao, tat(ks, i))
        okk = lambda i: CAok(self.val(i), self.an(i))
        self.upto = lambda k: z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < k), okk(i)), patterns=[tat(ks, i)])
        self.valid = eng.fresh(Bool, "call_valid")
        self.ret = eng.freshV("ret")
        self.rhas, self.rann = member(ann, S_(RET))
        self.A = z3.And(self.valid, self.upto(N), U.SAT(EQK(N)))
        self.R = z3.And(z3.Implies(self.rhas, CAok(self.ret.t, self.rann)), U.SAT(z3.If(self.rhas, union(EQK(N), CAeq(self.ret.t, self.rann)), EQK(N))))
        eng.ghost_set("called", z3.IntVal(0))
        eng.ghost_set("sysfail", z3.IntVal(0))
        eng.assume(EQK(0) == EMPTY)

        class T:
            @staticmethod
            def invs(lv):
                out = [(("raise",), z3.Implies(rm, self.upto(lv.k)))]
                for x, a, b in lv.sets():
                    out.append((("eqs", x), z3.Implies(self.upto(lv.k), b == EQK(lv.k))))
                return out

            @staticmethod
            def defs(lv):
                st = lambda j: z3.Implies(j >= 0, EQK(j + 1) == union(EQK(j), CAeq(self.val(j), self.an(j))))
                return [st(lv.k), st(lv.k - 1)]
        eng.tmpl.append(T)

        def same_args(e, args, kwargs):
            s = e.settle(args) if isinstance(args, Sym) else args
            ok = isinstance(s, Seq) and s.base.eq(base)
            self.ob(e, "the positional arguments are those of the call", z3.And(s.lo == 0, s.n == n) if ok else False, str(args))
            if isinstance(kwargs, Ref) and e.rec(kwargs).kind == "dict" and e.rec(kwargs).data[0] == "s":
                kd = e.rec(kwargs).data
                self.ob(e, "the keyword arguments are those of the call", z3.And(kd[1] == self.kwh, z3.ForAll([k], z3.Implies(z3.Select(kd[1], k), z3.Select(kd[2], k) == z3.Select(self.kwg, k)))))
            else:
                self.ob(e, "the keyword arguments are those of the call", False, str(kwargs))

        def validate(e, a):
            self.ob(e, "the function's own signature and annotations are used", z3.And(e.to_V(a["decorated"]) == self.d.t, e.to_V(a["annotations"]) == ann))
            same_args(e, a["args"], a["kwargs"])
            if not e.branch(self.valid):
                raise PyExc("TypeError")
            return e.alloc("dict", ("s", has, get, Seq(ks, z3.IntVal(0), N)))

        def check(e, a):
            v, an = e.to_V(a["value"]), e.to_V(a["annotation"])
            self.ob(e, "messages name the function being checked", e.to_V(e.getattr(a["ox"], "decorated")) == self.d.t)
            s = U.setterm(e, a["equations"])
            if e.branch(CAok(v, an)):
                return e.alloc("set", union(s, CAeq(v, an)))
            if e.branch(rm):
                raise PyExc("TypeError")
            return e.alloc("set", e.fresh(SetS, "soft_eqs"))

        def fail_system(e, a):
            self.ob(e, "the system is reported only when it has no solution", z3.Not(U.SAT(U.setterm(e, a["equations"]))))
            e.ghost_set("sysfail", e.ghost_get("sysfail") + 1)
            if e.branch(rm):
                raise PyExc("TypeError")

        def call(e, f, args, kwargs, star):
            if not (isinstance(f, Sym) and z3.simplify(f.t).eq(self.d.t)):
                return None
            same_args(e, args, star if star is not None else e.alloc("dict", ("c", tuple(kwargs.items()))))
            if kwargs and star is not None:
                self.ob(e, "no keyword arguments are added", False)
            self.ob(e, "the function runs at most once", e.ghost_get("called") == 0)
            self.ob(e, "in raising mode the function runs only when every argument conforms and their equations have a common solution", z3.Implies(rm, self.A))
            self.ob(e, "the function runs only on a valid call", self.valid)
            e.ghost_set("called", e.ghost_get("called") + 1)
            set_ox(e, w, decorated=e.freshV("other"))
            if e.choose(2) == 0:
                return (self.ret,)
            raise PyExc("$raised", "of the function")
        eng.hooks.setdefault("call_star", []).append(call)
        eng.hooks.setdefault("call_opaque", []).append(lambda e, f, a, kw: call(e, f, Tup(a), {x: y for x, y in kw.items() if x != "**"}, kw.get("**")))
        eng.contracts = dict(eng.contracts)
        for q, fn in (("asta.decorators.validate_annotations", validate), ("asta.origins.check_annotation", check), ("asta.display.fail_system", fail_system),
                      ("asta.display.handle_pass", lambda e, a: None), ("asta.display.get_header", lambda e, a: e.freshS())):
            eng.contracts[q] = Local(fn)
        return {"decorated": self.d}

    def run(self, eng, f, a):
        wr = eng.run_body(f, dict(a))
        if not isinstance(wr, (Func, Bound)):
            raise Unsupported("the wrapper is not a function of the repository")
        self.forget(eng, wr)
        return eng.call(wr, [StarArgs(self.args)], {"**": self.kw})

    def forget(self, eng, wr):
        """Earlier calls may have left anything in what the wrapper keeps between calls."""
        f = wr.func if isinstance(wr, Bound) else wr
        kept = list(f.defaults) + list(f.kwdefaults.values()) + list(eng.heap["m:" + f.module].data.values())
        fr = f.closure
        while fr is not None:
            kept += list(eng.heap[fr].data.values())
            for x in eng.world.names_of(f)[1]:
                if x in eng.heap[fr].data:
                    eng.fset(fr, x, eng.havoc_like([eng.heap[fr].data[x]], x))
            fr = eng.frameinfo[fr][1]
        for v in kept:
            if isinstance(v, Ref) and eng.rec(v).kind in ("set", "list", "dict"):
                eng.havoc_rec(v.id, None)

    def post(self, eng, a, out):
        called = eng.ghost_get("called")
        rm, A, R = self.rm, self.A, self.R
        if out[0] == "exc":
            if out[1].cls == "$raised":
                self.ob(eng, "an exception of the function leaves the wrapper unchanged", out[1].value == "of the function")
                return
            self.ob(eng, "only a TypeError is raised", exc_isa(out[1].cls, "TypeError"), str(out[1]))
            self.ob(eng, "with raise-errors off only an invalid call is refused", z3.Implies(z3.Not(rm), z3.And(z3.Not(self.valid), called == 0)))
            self.ob(eng, "a call is refused before the function runs only if the arguments do not conform together", z3.Implies(called == 0, z3.Not(A)))
            self.ob(eng, "a result is refused only if it does not conform together with the arguments", z3.Implies(called > 0, z3.Not(R)))
            return
        self.ob(eng, "the function has run", called == 1)
        self.ob(eng, "the object the function returned is returned", eng.to_V(out[1]) == self.ret.t)
        self.ob(eng, "in raising mode a result is delivered only if arguments and result conform together", z3.Implies(rm, z3.And(A, R)))
        ok = z3.And(self.upto(self.N), z3.Implies(self.rhas, CAok(self.ret.t, self.rann)))
        self.ob(eng, "an unsolvable system is always reported", z3.Implies(z3.And(ok, z3.Not(z3.And(A, R))), eng.ghost_get("sysfail") > 0))


# ---------------------------------------------------------------- classes
TCu = z3.Function("TCu", V, V)          # what decorating an attribute gives
MK = z3.Function("MK", V, V, V)         # kind(function)
FN, CM, SM, TY = "types.FunctionType", "builtins.classmethod", "builtins.staticmethod", "builtins.type"


class ClassDecorate(Contract):
    qual = "asta.decorators.typechecked"
    label = "class"
    props = ("C14", "C11", "C17")
    worlds = WORLD
    trusted = ("functions, methods and classes have a __qualname__, class methods and static methods a __func__; names beginning with the qualified name of the class and a dot are those defined in it",)

    def setup(self, eng):
        w = self.w
        c = self.c = eng.freshV("decorated")
        eng.assume(z3.And(is_("O", c.t), w.oinst(eng, c.t, Ext(TY)), hasa(c.t, "__qualname__"), hasa(c.t, "__dict__"), hasa(c.t, "__module__"), hasa(c.t, "__name__"), is_("S", attr(c.t, "__qualname__"))))
        D = attr(c.t, "__dict__")
        o = self.o = V.oval(D)
        eng.assume(z3.And(is_("O", D), z3.Not(inst(D, V_(DICT)))))
        ks = self.ks = keysof(o)
        self.on = eng.fresh(Bool, "on")
        set_ox(eng, w, on=SBool(self.on))
        self.eh, self.eg = environ(eng, w)
        i, k, v = z3.Int("i!cd"), z3.Const("k!cd", V), z3.Const("v!cd", V)
        idx = self.idx = z3.Function(f"didx!{eng.nfresh}", V, Int)
        eng.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < tlen(ks)), z3.And(mhas(o, tat(ks, i)), is_("S", tat(ks, i)), idx(tat(ks, i)) == i)), patterns=[tat(ks, i)]))
        eng.assume(z3.ForAll([k], z3.Implies(mhas(o, k), z3.And(0 <= idx(k), idx(k) < tlen(ks), tat(ks, idx(k)) == k)), patterns=[mhas(o, k)]))
        cls = lambda t, p: z3.And(is_("O", t), inst(t, V_(p)))
        named = lambda t: z3.Or(cls(t, FN), cls(t, "types.MethodType"), cls(t, TY))
        wrapped = lambda t: z3.Or(cls(t, CM), cls(t, SM))
        d = lambda k: mget(o, k)
        eng.assume(z3.ForAll([k], z3.And(z3.Implies(named(d(k)), z3.And(hasa(d(k), "__qualname__"), is_("S", attr(d(k), "__qualname__")))),
                                         z3.Implies(wrapped(d(k)), z3.And(hasa(d(k), "__func__"), is_("O", attr(d(k), "__func__"))))), patterns=[mget(o, k)]))
        # no object is a function (or class) and a class method (or static method) at once
        eng.assume(z3.ForAll([k], z3.Not(z3.And(named(d(k)), wrapped(d(k)))), patterns=[mget(o, k)]))
        prefix = str_cat(V.sval(attr(c.t, "__qualname__")), str_const("."))
        tr = lambda t: z3.If(is_("N", t), z3.BoolVal(False), eng_truth(eng, t))
        hasann = lambda t: z3.And(hasa(t, "__annotations__"), tr(attr(t, "__annotations__")))
        e1 = lambda t: z3.And(named(t), strlit(V.sval(attr(t, "__qualname__")), prefix), hasann(t))
        e2 = lambda t: z3.And(wrapped(t), hasann(attr(t, "__func__")))
        self.elig = lambda k: z3.And(mhas(o, k), z3.Or(e1(d(k)), e2(d(k))))
        self.want = lambda k: z3.If(e1(d(k)), TCu(d(k)), MK(typeof(d(k)), TCu(attr(d(k), "__func__"))))
        eng.ghost_set("w_has", EMPTY)
        eng.ghost_set("w_get", z3.K(V, V.N))

        class T:
            @staticmethod
            def invs(lv):
                _, h = lv.ghost("w_has")
                _, g = lv.ghost("w_get")
                return [(("set",), z3.And(forall_at(h, k, z3.Select(h, k) == z3.And(self.elig(k), idx(k) < lv.k)),
                                          forall_at(h, k, z3.Implies(z3.Select(h, k), z3.Select(g, k) == self.want(k)))))]
        eng.tmpl.append(T)

        def setattr_dyn(e, ob, k, val):
            self.ob(e, "only the class itself is changed", e.to_V(ob) == c.t)
            kt = e.to_V(k)
            e.ghost_set("w_has", z3.Store(e.ghost_get("w_has"), kt, z3.BoolVal(True)))
            e.ghost_set("w_get", z3.Store(e.ghost_get("w_get"), kt, e.to_V(val)))
            return True

        def call_opaque(e, f, a, kw):
            if len(a) == 1 and not kw:
                return (Sym(MK(f.t, e.to_V(a[0]))),)

        def mk(p):
            def fn(e, a, kw):
                t = V_(p)
                e.assume(z3.ForAll([k], z3.Implies(cls(d(k), p), typeof(d(k)) == t), patterns=[mget(o, k)]))
                return Sym(MK(t, e.to_V(a[0])))
            return fn
        w.ext_handlers[CM], w.ext_handlers[SM] = mk(CM), mk(SM)
        eng.hooks.setdefault("setattr_dyn", []).append(setattr_dyn)
        eng.hooks.setdefault("call_opaque", []).append(call_opaque)
        eng.contracts = dict(eng.contracts)
        eng.contracts["asta.decorators.typechecked"] = Local(lambda e, a: Sym(TCu(e.to_V(a["decorated"]))))
        return {"decorated": c}

    def post(self, eng, a, out):
        if out[0] != "ok":
            self.ob(eng, "decorating a class never fails", False, f"raises {out[1]} {out[1].value}")
            return
        off = z3.Or(z3.Not(self.on), z3.And(self.eh, self.eg != str_const("1")))
        h, g = eng.ghost_get("w_has"), eng.ghost_get("w_get")
        k = z3.Const("k!cp", V)
        self.ob(eng, "the class itself is returned", eng.to_V(out[1]) == self.c.t)
        self.ob(eng, "with checking off nothing is changed", z3.Implies(off, h == EMPTY))
        self.ob(eng, "exactly its annotated methods, class methods, static methods and nested classes are replaced", z3.Implies(z3.Not(off), z3.ForAll([k], z3.Select(h, k) == self.elig(k))))
        self.ob(eng, "each by its typechecked version, of the same kind", z3.Implies(z3.Not(off), z3.ForAll([k], z3.Implies(self.elig(k), z3.Select(g, k) == self.want(k)))))


def eng_truth(eng, t):
    r = eng.truth(Sym(t))
    return z3.BoolVal(r) if isinstance(r, bool) else r


ALL = [Validate, Decorate, Wrapper, ClassDecorate]
DEPS = []
