"""A contract-based verifier for the Python of /repo.

The verifier interprets the AST of the current source symbolically.  Every
path through a function is explored (branches whose conditions are not decided
by the path condition are split), calls to functions under contract are
replaced by their contract, other repository functions are inlined, loops over
sequences of unknown length are cut by an inductive invariant, and each
obligation is a validity query to z3 (cvc5 as a second back end).
"""
import functools
import ast
import os
import time
import z3
from values import *


class Unsupported(Exception):
    pass


class PathDead(Exception):
    pass


class PyExc(Exception):
    def __init__(self, cls, value=None, any_=None):
        self.cls, self.value, self.any_ = cls, value, any_

    def __str__(self):
        return f"PyExc({self.cls})"


class Ret(Exception):
    def __init__(self, value):
        self.value = value


class Brk(Exception):
    pass


class Cont(Exception):
    pass


EXC_BASES = {
    "TypeError": "Exception", "KeyError": "LookupError", "IndexError": "LookupError",
    "LookupError": "Exception", "AttributeError": "Exception", "AssertionError": "Exception",
    "ImportError": "Exception", "ModuleNotFoundError": "ImportError", "ValueError": "Exception",
    "NameError": "Exception", "UnboundLocalError": "NameError",
    "NotImplementedError": "RuntimeError", "RuntimeError": "Exception",
    "StopIteration": "Exception", "ZeroDivisionError": "ArithmeticError",
    "ArithmeticError": "Exception", "OSError": "Exception", "UnicodeError": "ValueError",
    "Exception": "BaseException", "BaseException": None, "RecursionError": "RuntimeError",
}


def exc_isa(name, base):
    while name is not None:
        if name == base:
            return True
        name = EXC_BASES.get(name, "Exception" if name != "BaseException" else None)
    return False


class Rec:
    __slots__ = ("kind", "data")

    def __init__(self, kind, data):
        self.kind, self.data = kind, data


class Dec:
    def __init__(self, choices):
        self.choices, self.pos, self.alts = list(choices), 0, []


class Oblig:
    def __init__(self, name):
        self.name, self.status, self.backend, self.time, self.count, self.detail = name, "proved", "z3", 0.0, 0, ""


class LoopView:
    """What an invariant template may talk about."""

    def __init__(self, eng, k, n, it, entry, cur, frame, mods):
        self.eng, self.k, self.n, self.it = eng, k, n, it
        self.entry, self.cur, self.frame, self.mods = entry, cur, frame, mods

    def _vals(self, heap):
        return heap[self.frame].data

    def vars(self):
        """(name, entry value, current value) of the locals of the frame."""
        e, c = self._vals(self.entry), self._vals(self.cur)
        return [(x, e.get(x), c[x]) for x in c]

    def modvars(self):
        return [(x, a, b) for x, a, b in self.vars() if ("v", self.frame, x) in self.mods]

    def sets(self):
        """(name, entry term or None, current term) of set-valued locals."""
        out = []
        for x, a, b in self.vars():
            if isinstance(b, Ref) and self.cur[b.id].kind == "set":
                ta = self.entry[a.id].data if isinstance(a, Ref) and a.id in self.entry and self.entry[a.id].kind == "set" else None
                out.append((x, ta, self.cur[b.id].data))
        return out

    @staticmethod
    def _pair(eng, d):
        if d[0] == "s":
            return d[1], d[2]
        has, get = EMPTY, z3.K(V, V.N)
        for k, v in d[1]:
            has = z3.Store(has, eng.to_V(k), z3.BoolVal(True))
            get = z3.Store(get, eng.to_V(k), eng.to_V(v))
        return has, get

    def lists(self):
        """(name, term at entry or None, term now) of lists a loop changes."""
        out = []
        for x, a, b in self.vars():
            if isinstance(b, Ref) and self.cur[b.id].kind == "list":
                if ("r", b.id) not in self.mods and ("v", self.frame, x) not in self.mods:
                    continue
                ta = None
                if isinstance(a, Ref) and a.id in self.entry and self.entry[a.id].kind == "list":
                    ta = self.eng.tup_term(self.entry[a.id].data)
                out.append((x, ta, self.eng.tup_term(self.cur[b.id].data)))
        return out

    def dicts(self):
        """(name, (has, get) at entry or None, (has, get) now) of dict-valued locals."""
        out = []
        for x, a, b in self.vars():
            if isinstance(b, Ref) and self.cur[b.id].kind == "dict":
                d = self.cur[b.id].data
                if ("r", b.id) not in self.mods and ("v", self.frame, x) not in self.mods:
                    continue
                e = None
                if isinstance(a, Ref) and a.id in self.entry and self.entry[a.id].kind == "dict":
                    e = self._pair(self.eng, self.entry[a.id].data)
                out.append((x, e, self._pair(self.eng, d)))
        return out

    def ghost(self, name):
        return self.entry["ghost"].data.get(name), self.cur["ghost"].data.get(name)


@functools.lru_cache(None)
def monoid():
    a, b, c = z3.Consts("a!cat b!cat c!cat", TupS)
    v, i = z3.Const("v!cat", V), z3.Int("i!cat")
    fa = z3.ForAll
    return (fa([a, b], tlen(tcat(a, b)) == tlen(a) + tlen(b), patterns=[tcat(a, b)]),
            fa([a, b, i], z3.Implies(z3.And(0 <= i, i < tlen(a) + tlen(b)), tat(tcat(a, b), i) == z3.If(i < tlen(a), tat(a, i), tat(b, i - tlen(a)))), patterns=[tat(tcat(a, b), i)]),
            fa([a, b, c], tcat(a, tcat(b, c)) == tcat(tcat(a, b), c), patterns=[tcat(a, tcat(b, c))]),
            fa([a], z3.And(tcat(a, EMPTYT) == a, tcat(EMPTYT, a) == a), patterns=[tcat(a, EMPTYT), tcat(EMPTYT, a)]),
            fa([v], z3.And(tlen(tunit(v)) == 1, tat(tunit(v), 0) == v), patterns=[tunit(v)]))


@functools.lru_cache(None)
def subtuples():
    b = z3.Const("b!sub", TupS)
    l, m, h, i = z3.Ints("l!sub m!sub h!sub i!sub")
    fa = z3.ForAll
    inb = lambda *x: z3.And(0 <= x[0], *[p <= q for p, q in zip(x, x[1:])], x[-1] <= tlen(b))
    m2, v = z3.Int("m2!sub"), z3.Const("v!sub", V)
    return (fa([b, l, h], z3.Implies(inb(l, h), tlen(tsub(b, l, h)) == h - l), patterns=[tsub(b, l, h)]),
            fa([b, l, h, i], z3.Implies(z3.And(inb(l, h), 0 <= i, i < h - l), tat(tsub(b, l, h), i) == tat(b, l + i)), patterns=[tat(tsub(b, l, h), i)]),
            fa([b, l, h], z3.Implies(z3.And(inb(l, h), l == h), tsub(b, l, h) == EMPTYT), patterns=[tsub(b, l, h)]),
            fa([b, l, h], z3.Implies(z3.And(l == 0, h == tlen(b)), tsub(b, l, h) == b), patterns=[tsub(b, l, h)]),
            fa([b, l, m, m2, h], z3.Implies(z3.And(m == m2, inb(l, m, h)), tcat(tsub(b, l, m), tsub(b, m2, h)) == tsub(b, l, h)), patterns=[tcat(tsub(b, l, m), tsub(b, m2, h))]),
            fa([b, l, m, v], z3.Implies(z3.And(inb(l, m), m < tlen(b), v == tat(b, m)), tcat(tsub(b, l, m), tunit(v)) == tsub(b, l, m + 1)), patterns=[tcat(tsub(b, l, m), tunit(v))]))


@functools.lru_cache(None)
def sub_lemmas():
    """Consequences of associativity and of the facts above, in the shape in which they are needed (proved by c_shape.SliceLemma)."""
    b, x = z3.Consts("b!sub x!sub", TupS)
    l, m, m2, h = z3.Ints("l!sub m!sub m2!sub h!sub")
    v = z3.Const("v!sub", V)
    fa = z3.ForAll
    inb = lambda *x: z3.And(0 <= x[0], *[p <= q for p, q in zip(x, x[1:])], x[-1] <= tlen(b))
    return (fa([x, b, l, m, m2, h], z3.Implies(z3.And(m == m2, inb(l, m, h)), tcat(tcat(x, tsub(b, l, m)), tsub(b, m2, h)) == tcat(x, tsub(b, l, h))),
               patterns=[tcat(tcat(x, tsub(b, l, m)), tsub(b, m2, h))]),
            fa([x, b, l, m, v], z3.Implies(z3.And(inb(l, m), m < tlen(b), v == tat(b, m)), tcat(tcat(x, tsub(b, l, m)), tunit(v)) == tcat(x, tsub(b, l, m + 1))),
               patterns=[tcat(tcat(x, tsub(b, l, m)), tunit(v))]))


class Eng:
    def __init__(self, world, timeout_ms=8000, branch_ms=1500):
        self.world = world
        self.timeout_ms, self.branch_ms = timeout_ms, branch_ms
        self.obligs = {}
        self.contracts = world.contracts
        self.solver_time = 0.0
        self.queries = 0
        self.reset_cache()
        self.suppress = 0
        self.active = []          # qualnames of functions being inlined
        self.used_contracts = set()
        self.used_externals = set()
        self.inlined = set()
        self.loopviews = 0
        self.tmpl = []            # loop templates in force
        self.subtuple_ground = self.subs = False
        self.axioms = {}
        self.paths = 0
        self.deadline = None
        self.lemmas_done = {}
        self.monoid = False
        self.exploratory = 0      # loops are being explored for what they change
        self.renew = False        # queries the incremental solver gives up on go to a new solver
        self.xid = self.nxid = 0

    def reset_cache(self):
        self.loop_cache = {}

    # ----------------------------------------------------------- state
    def start(self):
        self.solver = z3.Solver()
        self.solver.set("random_seed", 1)
        self.solver.set("smt.mbqi", False)
        tq = z3.Const("t!len", TupS)
        self.solver.add(tlen(EMPTYT) == 0)
        self.solver.add(z3.ForAll([tq], tlen(tq) >= 0, patterns=[tlen(tq)]))
        self.heap = dict(self.world.base_heap)
        self.nid = self.world.base_nid
        self.nfresh = 0
        self.npc = 0
        self.frames = []

    def assume(self, f):
        if f is True:
            return
        if f is False:
            raise PathDead()
        self.solver.add(f)

    def axiom(self, f):
        """A fact that holds everywhere, not only on this path."""
        self.axioms[f.get_id()] = f
        self.solver.add(f)

    def fresh(self, sort, hint="v"):
        self.nfresh += 1
        return z3.Const(f"{hint}!{self.nfresh}", sort)

    def freshV(self, hint="v"):
        return Sym(self.fresh(V, hint))

    def freshS(self):
        return Sym(V.S(self.fresh(StrS, "str")))

    def alloc(self, kind, data):
        self.nid += 1
        i = self.nid
        self.heap[i] = Rec(kind, data)
        return Ref(i)

    def rec(self, ref):
        return self.heap[ref.id]

    def put(self, ref, data):
        self.heap[ref.id] = Rec(self.heap[ref.id].kind, data)

    def ghost_get(self, name):
        return self.heap["ghost"].data.get(name)

    def ghost_set(self, name, val):
        d = dict(self.heap["ghost"].data)
        d[name] = val
        self.heap["ghost"] = Rec("ghost", d)

    # ----------------------------------------------------------- solving
    def check(self, *fs, ms=None):
        self.queries += 1
        if self.deadline and time.time() > self.deadline:
            raise Unsupported("time budget of the verification exhausted")
        self.solver.set("timeout", ms or self.branch_ms)
        t = time.time()
        r = self.solver.check(*fs)
        self.solver_time += time.time() - t
        return r

    def again(self, fs, ms):
        """New solvers without the history of this one, with a few different search orders."""
        for rel, seed in ((2, 1), (0, 1), (0, 2), (0, 3), (0, 4), (1, 5))[:6 if ms > 500 else 3]:
            s = z3.SimpleSolver()
            s.set("smt.relevancy", rel)
            s.set("smt.mbqi", False)
            s.set("random_seed", seed)
            s.set("timeout", min(ms, 1500))
            for a in self.solver.assertions():
                s.add(a)
            s.add(*fs)
            r = s.check()
            if r != z3.unknown:
                break
        return r

    def valid(self, f, ms=None, insist=True):
        """unsat / sat / unknown for the negation of f under the path."""
        f = z3.simplify(f) if not isinstance(f, bool) else z3.BoolVal(f)
        if z3.is_true(f):
            return "unsat"
        self.solver.push()
        try:
            self.solver.add(z3.Not(f))
            r = self.check(ms=ms or self.timeout_ms)
            if r == z3.unknown and self.renew and insist:
                t = time.time()
                r = self.again((), ms or self.timeout_ms)
                self.solver_time += time.time() - t
            return str(r)
        finally:
            self.solver.pop()

    def hint(self, f):
        """An intermediate fact: used from here on if it can be proved here."""
        if self.exploratory:
            return False
        ok = self.valid(f, ms=500) == "unsat"
        if ok:
            self.assume(f)
        return ok

    def oblige(self, name, f, detail=""):
        if self.suppress:
            return True
        o = self.obligs.setdefault(name, Oblig(name))
        o.count += 1
        if o.status != "proved":
            return False          # it has failed on another path already
        t = time.time()
        r = self.valid(f)
        be = "z3"
        if r == "unknown":
            r2 = self.retry(f)
            if r2:
                r, be = r2
        o.time += time.time() - t
        if r == "unsat":
            if be != "z3":
                o.backend = be
            return True
        if o.status == "proved":
            o.status = "refuted" if r == "sat" else "unknown"
            o.detail = detail + " " + self.model_text(f)
        return False

    def retry(self, f):
        """Unknown: fresh z3 with another configuration, then the newer z3, then cvc5."""
        s = z3.Solver()
        for a in self.solver.assertions():
            s.add(a)
        s.add(z3.Not(f))
        s.set("timeout", self.timeout_ms)
        s.set("random_seed", 7)
        r = s.check()
        if r != z3.unknown:
            return str(r), "z3(mbqi)"
        from backend import cvc5_unsat, z3new
        r = z3new(s, self.timeout_ms * 2)
        if r is not None:
            return r, "z3-new"
        if cvc5_unsat(s, self.timeout_ms * 2):
            return "unsat", "cvc5"
        return None

    def model_text(self, f):
        try:
            self.solver.push()
            self.solver.add(z3.Not(f))
            self.solver.set("timeout", 3000)
            r = self.solver.check()
            txt = f"solver: {r}"
            if r == z3.sat:
                m = self.solver.model()
                txt += "; model: " + ", ".join(f"{d.name()}={str(m[d])[:60]}" for d in m.decls() if d.arity() == 0)[:800]
            return txt
        except z3.Z3Exception as e:
            return str(e)
        finally:
            self.solver.pop()

    # ----------------------------------------------------------- branching
    def branch(self, c):
        if isinstance(c, bool):
            return c
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        d = self.dec
        if d.pos < len(d.choices):
            ch = d.choices[d.pos]
            d.pos += 1
            self.assume(c if ch else z3.Not(c))
            return ch
        rt = self.check(c)
        rf = self.check(z3.Not(c)) if rt != z3.unsat else z3.sat
        if rt == z3.unsat and rf == z3.unsat:
            raise PathDead()
        if rt == z3.unsat:
            ch = False
        elif rf == z3.unsat:
            ch = True
        else:
            ch = True
            d.alts.append(d.choices[: d.pos] + [False])
        d.choices.append(ch)
        d.pos += 1
        self.assume(c if ch else z3.Not(c))
        return ch

    def choose(self, n):
        """Nondeterministic choice among n alternatives (all explored)."""
        d = self.dec
        if d.pos < len(d.choices):
            ch = d.choices[d.pos]
            d.pos += 1
            return ch
        for a in range(1, n):
            d.alts.append(d.choices[: d.pos] + [a])
        d.choices.append(0)
        d.pos += 1
        return 0

    def explore(self, fn, on_path, limit=6000):
        """Run fn on every path; on_path(outcome) is called inside each path."""
        stack = [[]]
        outer, outer_xid = getattr(self, "dec", None), self.xid
        self.nxid += 1
        mine = self.nxid
        count = 0
        while stack:
            prefix = stack.pop()
            count += 1
            self.paths += 1
            if count > limit:
                raise Unsupported("too many paths")
            snap = self.snapshot()
            self.dec, self.xid = Dec(prefix), mine     # what is learnt of a loop holds within one exploration
            self.solver.push()
            try:
                try:
                    out = ("ok", fn())
                except PathDead:
                    out = None
                except Ret as e:
                    out = ("ret", e.value)
                except PyExc as e:
                    out = ("exc", e)
                except Brk:
                    out = ("brk", None)
                except Cont:
                    out = ("cont", None)
                if out is not None:
                    on_path(out)
                stack.extend(reversed(self.dec.alts))
            finally:
                self.solver.pop()
                self.restore(snap)
                self.dec, self.xid = outer, outer_xid

    def snapshot(self):
        return (dict(self.heap), self.nid, self.nfresh, list(self.frames), list(self.active), list(self.tmpl), {k: list(v) for k, v in self.hooks.items()})

    def restore(self, s):
        self.heap, self.nid, self.nfresh = dict(s[0]), s[1], s[2]
        self.frames, self.active, self.tmpl = list(s[3]), list(s[4]), list(s[5])
        self.hooks = {k: list(v) for k, v in s[6].items()}

    # ----------------------------------------------------------- conversions
    def to_V(self, v):
        if isinstance(v, Sym):
            return v.t
        if v is None:
            return V.N
        if v is Ellipsis:
            return V.E
        if isinstance(v, bool):
            return V.B(z3.BoolVal(v))
        if isinstance(v, int):
            return V.I(z3.IntVal(v))
        if isinstance(v, str):
            return V.S(str_const(v))
        if isinstance(v, SInt):
            return V.I(v.t)
        if isinstance(v, SBool):
            return V.B(v.t)
        if isinstance(v, Tup) and not v.items:
            return V.T(EMPTYT)
        if isinstance(v, Tup) and self.monoid:
            return V.T(self.tup_term(v))
        if isinstance(v, Tup):
            b = self.fresh(TupS, "tup")
            self.assume(tlen(b) == len(v.items))
            for i, x in enumerate(v.items):
                self.assume(tat(b, i) == self.to_V(x))
            return V.T(b)
        if isinstance(v, Seq):
            if z3.is_int_value(v.lo) and v.lo.as_long() == 0 and z3.eq(z3.simplify(v.n), tlen(v.base)):
                return V.T(v.base)
            if self.subs:
                return V.T(tsub(v.base, z3.simplify(v.lo), z3.simplify(v.lo + v.n)))
            b = self.fresh(TupS, "slice")
            i = z3.Int("i!q")
            self.assume(tlen(b) == v.n)
            self.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < v.n), tat(b, i) == tat(v.base, v.lo + i)), patterns=[tat(b, i)]))
            return V.T(b)
        if isinstance(v, Ref):
            return V.O(obj_const(f"heap#{v.id}"))
        if isinstance(v, (Ext, ModV)):
            return V.O(obj_const("ext:" + (v.path if isinstance(v, Ext) else v.name)))
        if isinstance(v, Func):
            n = f"fn:{v.qual}:{v.closure}"
            self.world.objvals[n] = v
            return V.O(obj_const(n))
        if isinstance(v, NativeFn):
            self.world.objvals["native:" + v.name] = v
            return V.O(obj_const(f"native:{v.name}"))
        if isinstance(v, Bound):
            return V.O(self.fresh(ObjS, "bound"))
        if isinstance(v, float):
            return V.O(obj_const(f"float:{v}"))
        raise Unsupported(f"no term for {type(v).__name__}")

    def from_V(self, t):
        t = z3.simplify(t)
        d = t.decl().name() if z3.is_app(t) else ""
        if d == "I":
            a = t.arg(0)
            return a.as_long() if z3.is_int_value(a) else SInt(a)
        if d == "B":
            a = t.arg(0)
            return True if z3.is_true(a) else False if z3.is_false(a) else SBool(a)
        if d == "N":
            return None
        if d == "E":
            return Ellipsis
        if d == "T":
            b = t.arg(0)
            return Seq(b, z3.IntVal(0), tlen(b))
        if d == "O":
            n = obj_of(t.arg(0))
            if n is not None:
                if n.startswith("heap#"):
                    return Ref(int(n[5:]))
                if n.startswith("ext:"):
                    return self.world.ext_value(n[4:])
                if n in self.world.objvals:
                    return self.world.objvals[n]
        if d == "S":
            n = str_of(t.arg(0))
            if n is not None:
                return n
        return Sym(t)

    def as_int(self, v):
        """An Int term (or python int) for a value known to be an integer."""
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, int):
            return v
        if isinstance(v, SInt):
            return v.t
        if isinstance(v, SBool):
            return z3.If(v.t, z3.IntVal(1), z3.IntVal(0))
        if isinstance(v, Sym):
            if self.branch(isnum(v.t)):
                return num(v.t)
            raise PyExc("TypeError")
        raise PyExc("TypeError")

    def as_seq(self, v):
        """Seq or Tup for a tuple value."""
        if isinstance(v, (Tup, Seq)):
            return v
        if isinstance(v, Sym):
            b = V.tval(v.t)
            return Seq(z3.simplify(b), z3.IntVal(0), tlen(z3.simplify(b)))
        raise Unsupported("not a tuple")

    def settle(self, v, kinds=("I", "B", "N", "E", "S", "T", "X", "O")):
        """Split on the kind of a symbolic value; returns a value whose kind is known."""
        if not isinstance(v, Sym):
            return v
        t = z3.simplify(v.t)
        r = self.from_V(t)
        if not isinstance(r, Sym):
            return r
        if z3.is_app(t) and t.decl().name() in kinds and t.num_args() == 1:
            return r
        for k in kinds[:-1]:
            if self.branch(is_(k, t)):
                return self.with_kind(t, k)
        self.assume(is_(kinds[-1], t))
        return self.with_kind(t, kinds[-1])

    def with_kind(self, t, k):
        if k == "I":
            return SInt(V.ival(t))
        if k == "B":
            return SBool(V.bval(t))
        if k == "N":
            return None
        if k == "E":
            return Ellipsis
        if k == "T":
            b = V.tval(t)
            return Seq(b, z3.IntVal(0), tlen(b))
        return Sym(t)

    kinds = ("X", "O", "S", "T")  # the order in which kinds are tried

    def kind_of(self, v):
        """Kind letter when it is known without splitting, else None."""
        if isinstance(v, Sym):
            t = z3.simplify(v.t)
            if z3.is_app(t) and t.decl().name() in ("I", "B", "N", "E", "S", "T", "X", "O"):
                return t.decl().name()
            for k in self.kinds:
                if self.check(z3.Not(is_(k, t))) == z3.unsat:
                    return k
            return None
        return None

    # ----------------------------------------------------------- truth, equality
    def truth(self, v):
        """Python truthiness as bool or Bool term."""
        if isinstance(v, (bool, int, str)) or v is None:
            return bool(v)
        if v is Ellipsis or isinstance(v, (Ext, Func, ModV, NativeFn, Bound)):
            return True
        if isinstance(v, SBool):
            return v.t
        if isinstance(v, SInt):
            return v.t != 0
        if isinstance(v, Tup):
            return len(v.items) > 0
        if isinstance(v, Seq):
            return v.n > 0
        if isinstance(v, Ref):
            r = self.rec(v)
            if r.kind == "list":
                return self.truth(self.list_tuple(v))
            if r.kind == "set":
                return r.data != EMPTY
            if r.kind == "dict":
                if r.data[0] == "c":
                    return len(r.data[1]) > 0
                return r.data[1] != EMPTY
            if r.kind == "inst":
                return True
            return True
        if isinstance(v, Sym):
            t = v.t
            return z3.If(isnum(t), num(t) != 0,
                   z3.If(is_("B", t), V.bval(t),
                   z3.If(is_("N", t), False,
                   z3.If(is_("E", t), True,
                   z3.If(is_("S", t), strue(V.sval(t)),
                   z3.If(is_("T", t), tlen(V.tval(t)) > 0,
                   z3.If(is_("X", t), xtruth(V.xval(t)), otruth(V.oval(t)))))))))
        raise Unsupported(f"truth of {v}")

    def istrue(self, v):
        return self.branch(self.truth(v))

    def mkbool(self, f):
        if isinstance(f, bool):
            return f
        f = z3.simplify(f)
        if z3.is_true(f):
            return True
        if z3.is_false(f):
            return False
        return SBool(f)

    def eq(self, a, b):
        """Python == as bool / Bool term."""
        prim = (bool, int, str)
        if isinstance(a, prim) and isinstance(b, prim):
            return a == b
        if a is None or b is None or a is Ellipsis or b is Ellipsis:
            if not isinstance(a, Sym) and not isinstance(b, Sym):
                return a is b
        if isinstance(a, (Ext, ModV)) or isinstance(b, (Ext, ModV)):
            if isinstance(a, Sym) or isinstance(b, Sym):
                return self.to_V(a) == self.to_V(b)
            return a == b
        if isinstance(a, Func) and isinstance(b, Func):
            return a is b or (a.node is b.node and a.closure == b.closure)
        ta, tb = isinstance(a, (Tup, Seq)), isinstance(b, (Tup, Seq))
        if ta and tb:
            return self.seq_eq(a, b)
        if ta or tb:
            t, o = (a, b) if ta else (b, a)
            if isinstance(o, Sym):
                body = self.seq_eq(t, Seq(V.tval(o.t), z3.IntVal(0), tlen(V.tval(o.t))))
                return z3.If(is_("T", o.t), body, z3.If(is_("O", o.t), pyeq_u(o.t, self.to_V(t)), False))
            return False
        if isinstance(a, Ref) and isinstance(b, Ref):
            if a == b:
                return True
            ra, rb = self.rec(a), self.rec(b)
            if ra.kind == "set" and rb.kind == "set":
                return ra.data == rb.data
            if ra.kind == "list" and rb.kind == "list":
                return self.seq_eq(self.list_tuple(a), self.list_tuple(b))
            if ra.kind == "dict" and rb.kind == "dict" and ra.data[0] == rb.data[0] == "c" and not ra.data[1] and not rb.data[1]:
                return True
            if ra.kind != rb.kind:
                return False
            if ra.kind in ("inst", "class"):
                m = self.lookup_special(a, "__eq__")
                if m is not None:
                    return self.truth(self.call(m, [b], {}))
                return False
            return self.fresh(Bool, "eq")
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Ref):
                if isinstance(y, Sym):
                    if self.rec(x).kind in ("inst", "class"):
                        m = self.lookup_special(x, "__eq__")
                        if m is not None:
                            return self.truth(self.call(m, [y], {}))
                        return self.to_V(x) == y.t
                    return veq(self.to_V(x), y.t)
                return False
        return veq(self.to_V(a), self.to_V(b))

    def seq_len(self, s):
        return len(s.items) if isinstance(s, Tup) else s.n

    def seq_at(self, s, i):
        """V term of element i (python int or Int term) of a Tup/Seq."""
        if isinstance(s, Tup):
            if isinstance(i, int):
                return self.to_V(s.items[i])
            i = z3.simplify(i)
            if z3.is_int_value(i):
                return self.to_V(s.items[i.as_long()])
            if not s.items:
                return V.N
            t = self.to_V(s.items[-1])
            for k in range(len(s.items) - 2, -1, -1):
                t = z3.If(i == k, self.to_V(s.items[k]), t)
            return t
        return tat(s.base, z3.simplify(s.lo + i))

    def seq_eq(self, a, b):
        la, lb = self.seq_len(a), self.seq_len(b)
        if isinstance(a, Tup) and isinstance(b, Tup):
            if la != lb:
                return False
            fs = [self.eq(x, y) for x, y in zip(a.items, b.items)]
            if any(f is False for f in fs):
                return False
            return z3.And([f for f in fs if f is not True]) if any(f is not True for f in fs) else True
        if isinstance(b, Tup):
            a, b, la, lb = b, a, lb, la
        if isinstance(a, Tup):
            fs = [lb == la]
            for i, x in enumerate(a.items):
                e = self.from_V(self.seq_at(b, i))
                f = self.eq(x, e)
                fs.append(z3.BoolVal(f) if isinstance(f, bool) else f)
            return z3.And(fs)
        if z3.eq(a.base, b.base) and z3.eq(z3.simplify(a.lo), z3.simplify(b.lo)):
            return a.n == b.n
        # general case: equal lengths and elements
        i = z3.Int("i!eq")
        body = z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < a.n), veq(tat(a.base, a.lo + i), tat(b.base, b.lo + i))))
        return z3.And(a.n == b.n, body)

    def is_same(self, a, b):
        if isinstance(a, Sym) or isinstance(b, Sym):
            if isinstance(a, (Tup, Seq)) or isinstance(b, (Tup, Seq)):
                t, o = (a, b) if isinstance(a, (Tup, Seq)) else (b, a)
                same = self.fresh(Bool, "same")
                if isinstance(o, Sym):
                    self.assume(z3.Implies(same, z3.And(is_("T", o.t), self.seq_eq(t, Seq(V.tval(o.t), z3.IntVal(0), tlen(V.tval(o.t)))))))
                return same
            return self.to_V(a) == self.to_V(b)
        if isinstance(a, (SInt, SBool)) or isinstance(b, (SInt, SBool)):
            if isinstance(a, SBool) or isinstance(b, SBool):
                if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
                    return self.to_V(a) == self.to_V(b)
                return False
            if isinstance(a, (int, SInt)) and isinstance(b, (int, SInt)):
                return self.fresh(Bool, "same")
            return False
        if isinstance(a, (Tup, Seq)) or isinstance(b, (Tup, Seq)):
            if type(a) is type(b):
                return a is b
            return False
        if isinstance(a, Func) and isinstance(b, Func):
            return a is b or (a.node is b.node and a.closure == b.closure)
        if type(a) is not type(b):
            return False
        if isinstance(a, (Ref, Ext, ModV)):
            return a == b
        if a is None or a is Ellipsis or isinstance(a, bool):
            return a is b
        return a is b or a == b

    def contains(self, x, c):
        if isinstance(c, Sym):
            if self.kind_of(c) == "O" and self.check(z3.Not(inst(c.t, self.to_V(Ext("builtins.dict"))))) == z3.unsat:
                return mhas(V.oval(c.t), self.to_V(x))
            c = self.settle_container(c)
        if isinstance(c, Tup):
            fs = []
            for y in c.items:
                f = self.eq(y, x)
                if f is True:
                    return True
                s = self.is_same(y, x)
                if s is True:
                    return True
                f = z3.BoolVal(f) if isinstance(f, bool) else f
                fs.append(f if isinstance(s, bool) else z3.Or(f, s))
            return z3.simplify(z3.Or(fs)) if fs else False
        if isinstance(c, Seq):
            i = z3.Int("i!in")
            e = tat(c.base, i)
            if isinstance(x, Tup) and not x.items:
                f = z3.And(is_("T", e), tlen(V.tval(e)) == 0)
            elif isinstance(x, Ref) and self.rec(x).kind in ("class", "inst"):
                f = e == self.to_V(x)
            else:
                xv = self.to_V(x)
                f = z3.Or(e == xv, veq(e, xv))
            return z3.Exists([i], z3.And(c.lo <= i, i < c.lo + c.n, f))
        if isinstance(c, Ref):
            r = self.rec(c)
            if r.kind == "list":
                return self.contains(x, self.list_tuple(c))
            if r.kind == "set":
                return self.set_has(r.data, x)
            if r.kind == "dict":
                return self.dict_has(c, x)
        if isinstance(c, str) and isinstance(x, str):
            return x in c
        if type(c).__name__ == "InstDict":
            r = self.world.hook("in_instdict", self, x, c)
            return r[0] if r is not None else x in self.rec(c.ref).data[1]
        if type(c).__name__ == "ClassDict":
            return x in self.rec(c.ref).data[2]
        r = self.world.hook("contains", self, x, c)
        if r is not None:
            return r[0]
        if isinstance(c, Iter):
            if isinstance(c.n, int):
                return self.contains(x, Tup([c.at(i) for i in range(c.n)]))
        raise Unsupported(f"in {c}")

    def settle_container(self, c):
        k = self.kind_of(c)
        if k == "T":
            return self.as_seq(c)
        if k == "O":
            o = V.oval(c.t)
            return Seq(seqof(o), z3.IntVal(0), tlen(seqof(o)))
        c2 = self.settle(c)
        if isinstance(c2, Sym) and self.kind_of(c2) == "O":
            return self.settle_container(c2)
        if isinstance(c2, Seq):
            return c2
        raise PyExc("TypeError")

    def set_has(self, s, x):
        if isinstance(x, int) and not isinstance(x, bool):
            return z3.Or(z3.Select(s, V.I(x)), z3.Select(s, V.X(xint(z3.IntVal(x)))))
        return z3.Select(s, self.to_V(x))

    # ----------------------------------------------------------- lists, dicts
    def list_tuple(self, ref):
        d = self.rec(ref).data
        return Tup(d) if isinstance(d, tuple) else d

    def new_list(self, content):
        if isinstance(content, Tup):
            content = tuple(content.items)
        elif isinstance(content, list):
            content = tuple(content)
        return self.alloc("list", content)

    def concat(self, a, b):
        """Concatenation of two Tup/Seq."""
        if isinstance(a, Tup) and isinstance(b, Tup):
            return Tup(a.items + b.items)
        if isinstance(a, Tup) and not a.items:
            return b
        if isinstance(b, Tup) and not b.items:
            return a
        if self.monoid:
            base = self.tup_term(a)
            for x in self.units(b):
                base = tcat(base, x)
            return Seq(base, z3.IntVal(0), tlen(base))
        la, lb = self.seq_len(a), self.seq_len(b)
        base = self.fresh(TupS, "cat")
        self.assume(tlen(base) == la + lb)
        i = z3.Int("i!cat")
        if isinstance(a, Tup):
            for k in range(la):
                self.assume(tat(base, k) == self.seq_at(a, k))
        else:
            self.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < la), tat(base, i) == tat(a.base, a.lo + i)), patterns=[tat(base, i)]))
        if isinstance(b, Tup):
            for k in range(lb):
                self.assume(tat(base, la + k) == self.seq_at(b, k))
        else:
            self.assume(z3.ForAll([i], z3.Implies(z3.And(la <= i, i < la + lb), tat(base, i) == tat(b.base, b.lo + i - la)), patterns=[tat(base, i)]))
        return Seq(base, z3.IntVal(0), tlen(base))

    def use_monoid(self):
        """Concatenation as a function of its operands: tuples are the free monoid over values."""
        self.monoid = True
        for f in monoid():
            self.axiom(f)

    def use_sub(self):
        """Slices as a function of the tuple and the two positions."""
        self.subs = True
        for f in subtuples() + (sub_lemmas() if self.monoid else ()):
            self.axiom(f)

    def units(self, q):
        """TupS terms whose concatenation is q."""
        if isinstance(q, Tup):
            return [tunit(self.to_V(x)) for x in q.items]
        if z3.is_int_value(q.lo) and q.lo.as_long() == 0 and z3.simplify(q.n).eq(z3.simplify(tlen(q.base))):
            return [q.base]
        return [V.tval(self.to_V(q))]

    def tup_term(self, q):
        """The term of a tuple or of the content of a list."""
        if isinstance(q, tuple):
            q = Tup(list(q))
        us = self.units(q)
        if not us:
            return EMPTYT
        t = us[0]
        for x in us[1:]:
            t = tcat(t, x)
        return t

    def slice(self, s, lo, hi):
        n = self.seq_len(s)
        if isinstance(s, Tup) and (lo is None or isinstance(lo, int)) and (hi is None or isinstance(hi, int)):
            return Tup(s.items[lo:hi])

        def norm(x, default):
            if x is None:
                return default
            x = self.as_int(x)
            if isinstance(x, int) and isinstance(n, int):
                return min(max(x + n if x < 0 else x, 0), n)
            xx = z3.IntVal(x) if isinstance(x, int) else x
            nn = z3.IntVal(n) if isinstance(n, int) else n
            if isinstance(x, int):
                y = xx if x >= 0 else xx + nn
                if self.check(z3.Not(z3.And(0 <= y, y <= nn)), ms=500) == z3.unsat:
                    return z3.simplify(y)
            if self.subs:
                xx = self.named(xx)
                if self.valid(z3.And(0 <= xx, xx <= nn), ms=1000) == "unsat":
                    return z3.simplify(xx)
            y = z3.If(xx < 0, xx + nn, xx)
            return z3.simplify(z3.If(y < 0, z3.IntVal(0), z3.If(y > nn, nn, y)))
        l, h = norm(lo, 0), norm(hi, n)
        if isinstance(l, int) and isinstance(h, int) and isinstance(s, Tup):
            return Tup(s.items[l:h])
        if isinstance(s, Tup):
            s = self.as_seq(Sym(self.to_V(s)))
        l = z3.IntVal(l) if isinstance(l, int) else l
        h = z3.IntVal(h) if isinstance(h, int) else h
        if lo is None or hi is None:
            ln = z3.simplify(h - l)
        else:
            ln = z3.simplify(z3.If(h >= l, h - l, z3.IntVal(0)))
            if self.subs and self.valid(h >= l, ms=1000) == "unsat":
                ln = z3.simplify(h - l)
        return Seq(s.base, z3.simplify(s.lo + l), ln)

    def named(self, t):
        """A constant for a position that is computed by cases."""
        work = [t]
        while work:
            x = work.pop()
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE:
                c = self.fresh(Int, "position")
                self.assume(c == t)
                return c
            if z3.is_app(x) and x.decl().kind() != z3.Z3_OP_UNINTERPRETED:
                work += x.children()
        return t

    def index(self, s, i):
        n = self.seq_len(s)
        if isinstance(s, Tup) and isinstance(i, int) and not isinstance(i, bool):
            if -n <= i < n:
                return s.items[i]
            raise PyExc("IndexError")
        ii = self.as_int(i)
        ii = z3.IntVal(ii) if isinstance(ii, int) else ii
        nn = z3.IntVal(n) if isinstance(n, int) else n
        if not self.branch(z3.And(-nn <= ii, ii < nn)):
            raise PyExc("IndexError")
        j = z3.simplify(z3.If(ii < 0, ii + nn, ii))
        if z3.is_app_of(j, z3.Z3_OP_ITE):
            j = ii + nn if self.branch(ii < 0) else ii
        if isinstance(s, Tup):
            for k in range(n):
                if k == n - 1 or self.branch(j == k):
                    return s.items[k]
        return self.from_V(self.seq_at(s, j))

    def dict_has(self, ref, k):
        d = self.rec(ref).data
        if d[0] == "c":
            fs = []
            for kk, _ in d[1]:
                f = self.is_same(kk, k) if not isinstance(kk, (str, int)) else self.eq(kk, k)
                if f is True:
                    return True
                if f is not False:
                    fs.append(f)
            return z3.Or(fs) if fs else False
        return z3.Select(d[1], self.to_V(k))

    def dict_symbolic(self, ref):
        """Turn a dict with concrete keys into the array form."""
        d = self.rec(ref).data
        if d[0] == "s":
            return d
        has, get = EMPTY, z3.K(V, V.N)
        for k, v in d[1]:
            has = z3.Store(has, self.to_V(k), z3.BoolVal(True))
            get = z3.Store(get, self.to_V(k), self.to_V(v))
        nd = ("s", has, get, Tup([k for k, _ in d[1]]))
        self.put(ref, nd)
        return nd

    def dict_get(self, ref, k):
        """Value under a key known to be present."""
        d = self.rec(ref).data
        if d[0] == "c":
            items = d[1]
            for n, (kk, v) in enumerate(items):
                f = self.is_same(kk, k) if not isinstance(kk, (str, int)) else self.eq(kk, k)
                if f is True or (f is not False and self.branch(f)):
                    return v
            raise PyExc("KeyError")
        return self.from_V(z3.Select(d[2], self.to_V(k)))

    def dict_set(self, ref, k, v):
        d = self.rec(ref).data
        if d[0] == "c":
            conc = isinstance(k, (str, int, Ext, Ref)) or k is None
            if conc and all(self.key_conc(kk) for kk, _ in d[1]):
                out, done = [], False
                for kk, vv in d[1]:
                    if (kk == k and type(kk) is type(k)):
                        out.append((kk, v))
                        done = True
                    else:
                        out.append((kk, vv))
                if not done:
                    out.append((k, v))
                self.put(ref, ("c", tuple(out)))
                return
            d = self.dict_symbolic(ref)
        kt, vt = self.to_V(k), self.to_V(v)
        self.put(ref, ("s", z3.Store(d[1], kt, z3.BoolVal(True)), z3.Store(d[2], kt, vt), None))

    def key_conc(self, k):
        return isinstance(k, (str, int, Ext, Ref)) or k is None

    def dict_keys(self, ref):
        """Keys in order, as Tup or Seq."""
        d = self.rec(ref).data
        if d[0] == "c":
            return Tup([k for k, _ in d[1]])
        if d[3] is not None:
            return d[3]
        s = self.enumeration(d[1])
        self.put(ref, ("s", d[1], d[2], s))
        return s

    def enumeration(self, has):
        """An arbitrary enumeration without repetition of a set term."""
        ks = self.fresh(TupS, "enum")
        idx = z3.Function(f"idx!{self.nfresh}", V, Int)
        i, k = z3.Int("i!en"), z3.Const("k!en", V)
        n = tlen(ks)
        self.assume(n >= 0)
        self.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(z3.Select(has, tat(ks, i)), idx(tat(ks, i)) == i)), patterns=[tat(ks, i)]))
        self.assume(z3.ForAll([k], z3.Implies(z3.Select(has, k), z3.And(0 <= idx(k), idx(k) < n, tat(ks, idx(k)) == k)), patterns=[idx(k)]))
        try:
            self.assume(z3.ForAll([k], z3.Implies(z3.Select(has, k), z3.And(0 <= idx(k), idx(k) < n, tat(ks, idx(k)) == k)), patterns=[z3.Select(has, k)]))
        except z3.Z3Exception:
            pass
        self.assume((n == 0) == (has == EMPTY))
        return Seq(ks, z3.IntVal(0), n)

    # ----------------------------------------------------------- iteration
    def iterate(self, v):
        """Iter for an iterable value."""
        if isinstance(v, Iter):
            return v
        if isinstance(v, Tup):
            return Iter(len(v.items), lambda k, v=v: v.items[k] if isinstance(k, int) else self.from_V(self.seq_at(v, k)), v)
        if isinstance(v, Seq):
            n = z3.simplify(v.n)
            if z3.is_int_value(n):
                n = n.as_long()
            return Iter(n, lambda k, v=v: self.from_V(self.seq_at(v, k)), v)
        if isinstance(v, Ref):
            r = self.rec(v)
            if r.kind == "list":
                return self.iterate(self.list_tuple(v))
            if r.kind == "dict":
                return self.iterate(self.dict_keys(v))
            if r.kind == "set":
                return self.iterate(self.enumeration(r.data))
            if r.kind == "inst":
                m = self.lookup_special(v, "__iter__")
                if m is not None:
                    return self.iterate(self.call(m, [], {}))
        if isinstance(v, Sym):
            h = self.world.hook("iterate", self, v)
            if h is not None:
                return self.iterate(h)
            k = self.kind_of(v)
            if k == "T":
                return self.iterate(self.as_seq(v))
            if k == "O":
                o = V.oval(v.t)
                return self.iterate(Seq(seqof(o), z3.IntVal(0), tlen(seqof(o))))
            w = self.settle(v)
            if isinstance(w, Sym) and self.kind_of(w) in ("O", "T"):
                return self.iterate(w)
            if isinstance(w, Seq):
                return self.iterate(w)
            raise PyExc("TypeError")
        if type(v).__name__ == "GenList":
            return self.iterate(v.ref)
        if type(v).__name__ == "GenSym":
            return self.iterate(self.sym_comp(v.e, v.cf, "list", v.g, v.it, v.n))
        if isinstance(v, str):
            return self.iterate(Tup(list(v)))
        if v is None or isinstance(v, (int, SInt, SBool)) or v is Ellipsis:
            raise PyExc("TypeError")
        raise Unsupported(f"iterate {v}")

    def materialise(self, it):
        """Tup/Seq with the elements of an iterable."""
        it = self.iterate(it)
        if it.seq is not None:
            return it.seq
        if isinstance(it.n, int):
            return Tup([it.at(i) for i in range(it.n)])
        base = self.fresh(TupS, "mat")
        i = z3.Int("i!mat")
        e = it.at(i)
        self.assume(tlen(base) == it.n)
        self.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < it.n), tat(base, i) == self.to_V(e)), patterns=[tat(base, i)]))
        return Seq(base, z3.IntVal(0), tlen(base))

    # ----------------------------------------------------------- special lookups
    def lookup_special(self, v, name):
        """A method of the class of v, bound to v, or None."""
        if not isinstance(v, Ref):
            return None
        r = self.rec(v)
        if r.kind == "inst":
            f = self.class_attr(r.data[0], name)
            if f is MISSING:
                return None
            return self.bind(f, v, r.data[0])
        if r.kind == "class":
            meta = r.data[3]
            if meta is None or isinstance(meta, Ext):
                return None
            f = self.class_attr(meta, name)
            if f is MISSING:
                return None
            return self.bind(f, v, meta)
        return None

    def mro(self, cls):
        """Linearised bases (repository classes only, Ext bases kept as leaves)."""
        out = []

        def c3(c):
            if isinstance(c, Ext):
                return [c]
            r = self.rec(c)
            seqs = [c3(b) for b in r.data[1]] + [list(r.data[1])]
            res = [c]
            while any(seqs):
                seqs = [s for s in seqs if s]
                for s in seqs:
                    h = s[0]
                    if not any(h in t[1:] for t in seqs):
                        break
                else:
                    raise Unsupported("mro")
                res.append(h)
                for s in seqs:
                    if s and s[0] == h:
                        s.pop(0)
            return res
        return c3(cls)

    def class_attr(self, cls, name):
        if isinstance(cls, Ext):
            return MISSING
        for c in self.mro(cls):
            if isinstance(c, Ext):
                h = self.world.ext_class_attr(self, c, name)
                if h is not MISSING:
                    return h
                continue
            ns = self.rec(c).data[2]
            if name in ns:
                return ns[name]
        return MISSING

    def bind(self, f, self_, cls):
        if isinstance(f, Wrapped):
            if f.kind == "staticmethod":
                return f.func
            if f.kind == "classmethod":
                return Bound(f.func, cls)
            raise Unsupported("property")
        if isinstance(f, (Func, NativeFn)):
            return Bound(f, self_)
        return f

    def find_class_with(self, cls, name):
        for c in self.mro(cls):
            if not isinstance(c, Ext) and name in self.rec(c).data[2]:
                return c
        return None


class _Missing:
    def __repr__(self):
        return "MISSING"


MISSING = _Missing()
