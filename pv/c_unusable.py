"""Contracts of the stand-ins for libraries that are not installed."""
from contract import *
from models import *
from c_meta import BOTH, TONLY, FONLY, NONE, mk


class Unusable(Contract):
    """Every use of the class of a missing library raises ImportError, whatever the other operand."""
    props = ("C18",)
    worlds = (NONE, TONLY, FONLY)
    expect = ("exc",)
    method = ""
    args = ()

    def missing(self):
        return [n for n, have in (("Tensor", self.w.torch), ("TFTensor", self.w.tf)) if not have]

    def setup(self, eng):
        ns = self.missing()
        self.cls = self.w.cls("asta.switchboard." + ns[eng.choose(len(ns))])
        d = {"cls": self.cls}
        for x in self.args:
            d[x] = eng.freshV(x)
        return d

    def run(self, eng, f, a):
        m = eng.lookup_special(self.cls, self.method)
        if m is None:
            raise Unsupported(f"no {self.method} on the stand-in")
        return eng.call(m, [a[x] for x in self.args], {})

    def post(self, eng, a, out):
        self.ob(eng, "raises ImportError and never answers", out[0] == "exc" and exc_isa(out[1].cls, "ImportError"), str(out))


class Switchboard(Contract):
    """Importing asta succeeds with any combination of libraries and provides a class for each."""
    qual = None
    props = ("C18",)
    worlds = (BOTH, NONE, TONLY, FONLY)

    def name(self):
        return "import of asta.switchboard"

    def setup(self, eng):
        return {}

    def run(self, eng, f, a):
        # run the module once more, from the start
        eng.heap = {k: v for k, v in eng.heap.items() if k not in ("m:asta.switchboard", "m:asta.unusable", "m:asta.constants", "m:asta.array")}
        self.w.loading = True
        try:
            for m in ("asta.constants", "asta.unusable", "asta.array", "asta.switchboard"):
                self.w.load_module(eng, m)
        finally:
            self.w.loading = False
        return None

    def post(self, eng, a, out):
        if out[0] != "ok":
            self.ob(eng, "import succeeds", False, f"raises {out[1]}")
            return
        d = eng.heap["m:asta.switchboard"].data
        u = eng.heap["m:asta.unusable"].data
        for n, have in (("Tensor", self.w.torch), ("TFTensor", self.w.tf)):
            c = d.get(n)
            ok = isinstance(c, Ref) and eng.rec(c).kind == "class"
            self.ob(eng, f"{n} is provided", ok)
            if ok:
                self.ob(eng, f"{n} is the real class exactly when its library is installed", (c != u.get(n)) if have else (c == u.get(n)))


ALL = [Switchboard]
for m_, a_ in (("__getitem__", ("item",)), ("__eq__", ("other",)), ("__repr__", ()), ("__instancecheck__", ("inst",))):
    c_ = mk(Unusable, "Unusable" + m_, qual="asta.unusable.UnusableMeta." + m_, method=m_, args=a_)
    c_.__module__ = __name__
    globals()[c_.__name__] = c_
    ALL.append(c_)
DEPS = []
