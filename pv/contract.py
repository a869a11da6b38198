"""Contracts and their verification."""
import time
import z3
from values import *
from engine import *
from engine import MISSING
from interp import *

SPECS = {}        # qualname -> list of contract classes


class Contract:
    qual = None           # function under contract
    props = ()            # properties its postconditions belong to
    worlds = ((True, True),)
    label = ""            # distinguishes several contracts of one function
    expect = ("ok",)      # outcomes that must be reachable (vacuity)
    trusted = ()          # assumptions, in words
    uses = None           # quals whose contracts may be used (None: all installed)
    limit = 6000
    timeout_ms = 8000
    unroll = 64

    def __init__(self, world):
        self.w = world

    def usable(self, eng, f, args, kwargs):
        return hasattr(self, "apply")

    def setup(self, eng):
        raise NotImplementedError

    def post(self, eng, a, out):
        raise NotImplementedError

    def name(self):
        return self.qual + (":" + self.label if self.label else "")

    def run(self, eng, f, a):
        return eng.run_body(f, dict(a))

    # helpers
    def ob(self, eng, what, f, detail=""):
        return eng.oblige(f"{self.name()}:{what}", f, detail)


class Result:
    def __init__(self, contract):
        self.name, self.props = contract.name(), contract.props
        self.obligs, self.status, self.reason = [], "proved", ""
        self.time = self.solver = 0.0
        self.paths = self.queries = 0
        self.contracts, self.inlined, self.trusted = [], [], list(contract.trusted)


def verify(world, contract, budget=200):
    r = Result(contract)
    t0 = time.time()
    eng = Interp(world, timeout_ms=contract.timeout_ms)
    eng.MAXUNROLL = contract.unroll
    eng.contracts = dict(world.contracts)
    if contract.uses is not None:
        eng.contracts = {k: v for k, v in eng.contracts.items() if k in contract.uses or k == "asta.config.get_ox"}
    eng.deadline = t0 + budget
    seen = set()
    try:
        f = world.func(contract.qual) if contract.qual else None
        if f is None and contract.qual:
            raise Unsupported(f"{contract.qual} not found")
        eng.start()
        holder = {}

        def run():
            holder["a"] = contract.setup(eng)
            return contract.run(eng, f, holder["a"])

        def on_path(out):
            if eng.check(ms=2000) == z3.unsat:
                return
            seen.add("ok" if out[0] in ("ok", "ret") else out[0])
            if out[0] == "ret":
                out = ("ok", out[1])
            contract.post(eng, holder["a"], out)
        eng.explore(run, on_path, limit=contract.limit)
        missing = [x for x in contract.expect if x not in seen]
        if missing:
            r.status, r.reason = "vacuous", f"no path ends with {missing}"
    except Unsupported as e:
        r.status, r.reason = "unsupported", str(e)
    except PyExc as e:
        r.status, r.reason = "unsupported", f"setup raises {e.cls} {e.value}"
    except z3.Z3Exception as e:
        r.status, r.reason = "unsupported", f"z3: {e}"
    except RecursionError:
        r.status, r.reason = "unsupported", "recursion limit of the verifier"
    r.obligs = list(eng.obligs.values())
    if r.status == "proved":
        if not r.obligs:
            r.status, r.reason = "vacuous", "no obligation was generated"
        bad = [o for o in r.obligs if o.status != "proved"]
        if bad:
            r.status = "refuted" if any(o.status == "refuted" for o in bad) else "unknown"
            r.reason = "; ".join(o.name for o in bad[:5])
    elif r.status == "unsupported" and "time budget" in r.reason and any(o.status != "proved" for o in r.obligs):
        r.status, r.reason = "unknown", "; ".join(o.name for o in r.obligs if o.status != "proved") + " (then the time budget ran out)"
    elif r.status == "unsupported" and any(o.status == "refuted" for o in r.obligs):
        r.reason += " (an obligation had already failed: " + "; ".join(o.name for o in r.obligs if o.status == "refuted") + ")"
    r.time, r.solver, r.paths, r.queries = time.time() - t0, eng.solver_time, eng.paths, eng.queries
    r.contracts, r.inlined = sorted(eng.used_contracts), sorted(eng.inlined)
    return r


def EX(p):
    return Ext(p)


def V_(p):
    """Term of an external class or value."""
    return V.O(obj_const("ext:" + p))


def attr(t, name):
    return get_attr(t, str_const(name))


def hasa(t, name):
    return has_attr(t, str_const(name))
