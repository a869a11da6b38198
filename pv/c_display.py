"""Contracts of reporting: what is raised, what is printed, by every message function."""
from contract import *
from models import *
from c_meta import mk
from c_decor import Local, set_ox, V_, S_, TY
import ast

WORLD = ((True, True),)
NOREPR = ("values and annotations have a string representation that does not raise",)


class Report(Contract):
    """Common setup: the configuration with any switches, decorated or not; printing is recorded."""
    props = ("C15",)
    worlds = WORLD
    trusted = NOREPR

    def setup(self, eng):
        w = self.w
        self.rm, self.pp = eng.fresh(Bool, "raise_errors"), eng.fresh(Bool, "print_passes")
        fl = {"raise_errors": SBool(self.rm), "print_passes": SBool(self.pp)}
        self.decorated = eng.choose(2) == 1
        if self.decorated:
            d = eng.freshV("decorated")
            eng.assume(is_("O", d.t))
            for x in ("__module__", "__qualname__"):
                eng.assume(z3.And(hasa(d.t, x), is_("S", attr(d.t, x))))
            fl["decorated"] = d
        set_ox(eng, w, **fl)
        self.before = eng.rec(w.ox)
        eng.ghost_set("printed", ())

        def event(e, ev):
            if ev[0] == "print":
                e.ghost_set("printed", e.ghost_get("printed") + (ev[1],))
        eng.hooks.setdefault("event", []).append(event)
        eng.contracts = dict(eng.contracts)
        eng.contracts["asta.display.get_header"] = Local(lambda e, a: Sym(V.S(HEAD(e.to_V(a["decorated"])))))
        return self.inputs(eng)

    def common(self, eng, out):
        self.ob(eng, "the configuration is left as it was", z3.BoolVal(eng.rec(self.w.ox) == self.before))
        return eng.ghost_get("printed")


HEAD = z3.Function("HEAD", V, StrS)


class HandleError(Report):
    """A failure is raised in raising mode and printed otherwise."""
    qual = "asta.display.handle_error"
    expect = ("ok", "exc")

    def inputs(self, eng):
        self.msg = eng.freshS()
        if self.decorated:
            eng.assume(eng.to_V(self.msg) != V.S(HEAD(eng.to_V(self.before.data[1]["decorated"]))))
        return {"err": self.msg, "ox": self.w.ox}

    def post(self, eng, a, out):
        p = self.common(eng, out)
        m = eng.to_V(self.msg)
        head = z3.And(z3.Not(self.pp), z3.BoolVal(self.decorated))
        said = [z3.Or([eng.to_V(x) == m for x in args]) if args else z3.BoolVal(False) for args in p]
        if out[0] == "exc":
            self.ob(eng, "only a TypeError is raised", exc_isa(out[1].cls, "TypeError"), str(out[1]))
            self.ob(eng, "nothing is raised with raise-errors off", self.rm)
            v = out[1].value
            x = v.args[0] if isinstance(v, ExcV) and v.args else v
            self.ob(eng, "the error carries the message", z3.BoolVal(False) if x is None else eng.to_V(x) == m, str(v))
            return
        self.ob(eng, "in raising mode every failure is raised", z3.Not(self.rm))
        self.ob(eng, "a failure that is not raised is printed, once", len(said) >= 1 and z3.PbEq([(s, 1) for s in said], 1))
        if self.decorated and p:
            hd = HEAD(eng.to_V(self.before.data[1]["decorated"]))
            self.ob(eng, "the header comes first when passes are not printed", z3.Implies(head, z3.And(z3.BoolVal(len(p) == 2), eng.to_V(p[0][0]) == V.S(hd))))


class HandlePass(Report):
    """A pass is printed exactly when asked for; nothing is ever raised."""
    qual = "asta.display.handle_pass"

    def inputs(self, eng):
        self.msg = eng.freshS()
        return {"msg": self.msg, "ox": self.w.ox}

    def post(self, eng, a, out):
        p = self.common(eng, out)
        if out[0] == "exc":
            self.ob(eng, "a pass never raises", False, str(out[1]))
            return
        m = eng.to_V(self.msg)
        self.ob(eng, "a pass is printed when print-passes is on", z3.Implies(self.pp, z3.Or([eng.to_V(x) == m for args in p for x in args])))
        self.ob(eng, "nothing is printed when print-passes is off", z3.Implies(z3.Not(self.pp), z3.BoolVal(not p)))


class Message(Report):
    """Every message function hands exactly one message to the one place that raises or prints, and does nothing else."""
    via = "asta.display.handle_error"

    def inputs(self, eng):
        w = self.w
        eng.ghost_set("handed", 0)

        def to(q):
            def fn(e, a):
                e.ghost_set("handed", e.ghost_get("handed") + (1 if q == self.via else 100))
                self.ob(e, "the one configuration is handed on", a["ox"] == w.ox)
                if q.endswith("handle_error") and e.istrue(e.getattr(w.ox, "raise_errors")):
                    raise PyExc("TypeError", "handled")
            return Local(fn)
        for q in ("asta.display.handle_error", "asta.display.handle_pass"):
            eng.contracts[q] = to(q)
        f = w.func(self.qual)
        if f is None:
            raise Unsupported(f"{self.qual} not found")
        out = {}
        for x in f.node.args.posonlyargs + f.node.args.args + f.node.args.kwonlyargs:
            n = x.arg
            t = ast.unparse(x.annotation) if x.annotation is not None else ""
            if n == "ox":
                out[n] = w.ox
            elif t == "int":
                out[n] = SInt(eng.fresh(Int, n))
            elif "Set[" in t:
                out[n] = eng.alloc("set", eng.fresh(SetS, n))
            elif n == "solutions":
                b = eng.fresh(TupS, n)
                out[n] = eng.alloc("list", Seq(b, z3.IntVal(0), tlen(b)))
            else:
                out[n] = eng.freshV(n)
        return out

    def post(self, eng, a, out):
        p = self.common(eng, out)
        self.ob(eng, "one message is handed to the handler", eng.ghost_get("handed") == 1)
        self.ob(eng, "nothing is printed past the handler", not p)
        if out[0] == "exc":
            self.ob(eng, "nothing but the handler's error is raised", out[1].value == "handled", str(out[1]))


class Text(Contract):
    """A text for messages: a string, whatever the value; nothing is raised or changed."""
    props = ("C15",)
    worlds = WORLD
    trusted = ("classes have the string attributes __module__ and __qualname__",)

    def setup(self, eng):
        v = self.v = eng.freshV("obj")
        for t in (v.t, typeof(v.t)):
            eng.assume(z3.Implies(inst(t, V_(TY)), z3.And(hasa(t, "__module__"), hasa(t, "__qualname__"), is_("S", attr(t, "__module__")), is_("S", attr(t, "__qualname__")))))
        eng.assume(inst(typeof(v.t), V_(TY)))
        self.more(eng, v.t)
        self.before = dict(eng.heap)
        f = self.w.func(self.qual)
        return {(f.node.args.args[0].arg if f else "x"): v}

    def more(self, eng, t):
        pass

    def post(self, eng, a, out):
        if out[0] == "exc":
            self.ob(eng, "no value raises", False, str(out[1]))
            return
        r = out[1]
        self.ob(eng, "the result is a string", is_("S", eng.to_V(r)))


class QualifiedName(Text):
    qual = "asta.display.qualified_name"


class GetTypeName(Text):
    qual = "asta.display.get_type_name"
    trusted = ("the alternatives of a Union are classes or typing constructs with a string __name__ or _name",)

    def more(self, eng, t):
        nm = attr(t, "__name__")
        n1 = z3.And(hasa(t, "__name__"), is_("S", nm))
        eng.assume(is_("O", t))
        eng.assume(z3.Or(n1, z3.And(z3.Or(z3.Not(hasa(t, "__name__")), is_("N", nm)), hasa(t, "_name"), is_("S", attr(t, "_name")))))


class GetHeader(Text):
    qual = "asta.display.get_header"
    trusted = ("what is decorated has the string attributes __module__ and __qualname__",)

    def more(self, eng, t):
        eng.assume(is_("O", t))
        for x in ("__module__", "__qualname__"):
            eng.assume(z3.And(hasa(t, x), is_("S", attr(t, x))))


class TypeRepresentation(Text):
    """Arrays are shown by the type their dtype and shape make; anything else by its class."""
    qual = "asta.display.type_representation"
    worlds = ((True, True), (False, False))
    trusted = ("arrays have the attributes shape and dtype; subscripting an array type with the dtype and shape of an array succeeds (contracts of __getitem__ and parse_subscript)",)

    def more(self, eng, t):
        w = self.w
        eng.contracts = dict(eng.contracts)
        for lib, q in (("numpy.ndarray", "asta._array._ArrayMeta"), ("torch.Tensor", "asta._tensor._TensorMeta"), ("tensorflow.Tensor", "asta._tftensor._TFTensorMeta")):
            eng.assume(z3.Implies(inst(t, V_(lib)), z3.And(hasa(t, "shape"), hasa(t, "dtype"))))

            def fn(e, a, lib=lib):
                it = a["item"].items if isinstance(a["item"], Tup) else ()
                ok = len(it) == 2 and z3.And(inst(t, V_(lib)), e.to_V(it[0]) == attr(t, "dtype"), e.to_V(it[1]) == attr(t, "shape"))
                self.ob(e, "an array is shown by its own dtype and shape", ok)
                x = e.freshV("shown")
                e.assume(is_("O", x.t))
                return x
            eng.contracts[q + ".__getitem__"] = Local(fn)


ALL = [HandleError, HandlePass, QualifiedName, GetTypeName, GetHeader, TypeRepresentation]
DEPS = []
_F = """argument return uninitialized numerical_expression tuple empty_tuple tuple_length namedtuple list sequence dict set callable too_many_args
too_few_args protocol union class subclass complex float text_io binary_io io literal keys system fallback""".split()
for n_ in _F + ["pass_argument", "pass_return"]:
    q_ = n_ if n_.startswith("pass_") else "fail_" + n_
    c_ = mk(Message, "Message_" + q_, qual="asta.display." + q_, expect=("ok",) if q_.startswith("pass_") else ("ok", "exc"),
            via="asta.display.handle_pass" if q_.startswith("pass_") else "asta.display.handle_error")
    c_.__module__ = __name__
    globals()[c_.__name__] = c_
    ALL.append(c_)
