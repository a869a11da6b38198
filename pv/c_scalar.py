"""Contract of Scalar's instance check."""
from contract import *


class ScalarCheck(Contract):
    qual = "asta.constants.ScalarMeta.__instancecheck__"
    props = ("C19",)
    worlds = ((True, True), (False, True), (True, False), (False, False))
    trusted = ("arrays and tensors of the known libraries have a shape attribute; it equals () exactly for rank 0",)

    def arrs(self):
        return ["numpy.ndarray"] + (["torch.Tensor"] if self.w.torch else []) + (["tensorflow.Tensor"] if self.w.tf else [])

    def setup(self, eng):
        x = eng.freshV("inst")
        isarr = z3.And(is_("O", x.t), z3.Or([inst(x.t, V_(p)) for p in self.arrs()]))
        eng.assume(z3.Implies(isarr, hasa(x.t, "shape")))
        self.x, self.isarr = x, isarr
        return {"cls": self.w.cls("asta.scalar.Scalar"), "inst": x}

    def post(self, eng, a, out):
        x = self.x.t
        if out[0] != "ok":
            self.ob(eng, "returns a verdict", False, f"raises {out[1]}")
            return
        sh = attr(x, "shape")
        empty = z3.If(is_("T", sh), tlen(V.tval(sh)) == 0, z3.And(is_("O", sh), pyeq_u(sh, V.T(EMPTYT))))
        gen = z3.Or(is_("I", x), is_("B", x), is_("S", x), z3.And(is_("O", x), z3.Or([inst(x, V_(p)) for p in (
            "builtins.float", "builtins.complex", "builtins.bytes", "datetime.datetime", "datetime.timedelta")])))
        r = eng.truth(out[1])
        self.ob(eng, "accepts exactly the scalar values", (r if not isinstance(r, bool) else z3.BoolVal(r)) == z3.If(self.isarr, empty, gen))


ALL = [ScalarCheck]
