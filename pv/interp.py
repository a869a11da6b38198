"""Symbolic interpreter: statements, expressions, calls, loops."""
import ast
import z3
from values import *
from engine import *
from engine import MISSING


def local_names(fn):
    """Names local to a function body (parameters included), nonlocals, globals."""
    loc, non, glo = set(), set(), set()
    a = fn.args
    for x in a.posonlyargs + a.args + a.kwonlyargs + ([a.vararg] if a.vararg else []) + ([a.kwarg] if a.kwarg else []):
        loc.add(x.arg)

    def visit(n):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            loc.add(n.name)
            return
        if isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for c in ast.walk(n):
                if isinstance(c, ast.NamedExpr):
                    loc.add(c.target.id)
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            loc.add(n.id)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                loc.add((al.asname or al.name).split(".")[0])
        if isinstance(n, ast.ExceptHandler) and n.name:
            loc.add(n.name)
        if isinstance(n, ast.Nonlocal):
            non.update(n.names)
        if isinstance(n, ast.Global):
            glo.update(n.names)
        for c in ast.iter_child_nodes(n):
            visit(c)
    body = fn.body if isinstance(fn.body, list) else [fn.body]
    for s in body:
        visit(s)
    return loc - non - glo, non, glo


def has_yield(fn):
    stack = list(fn.body) if isinstance(fn.body, list) else [fn.body]
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))
    return False


class KindOf:
    """A sample of a havocked variable: a record of this kind (the record itself may be gone)."""

    def __init__(self, kind):
        self.kind = kind


class Segment:
    """Some slice of a tuple."""

    def __init__(self, base):
        self.base = base


def kind_of(v, heap):
    if isinstance(v, Ref) and heap.get(v.id) is not None and heap[v.id].kind in ("set", "list", "dict"):
        return KindOf(heap[v.id].kind)
    return v


class Interp(Eng):
    MAXUNROLL = 64
    MAXDEPTH = 40

    # ----------------------------------------------------------- frames
    def new_frame(self, module, parent, func=None, locs=None, kind="fn"):
        self.nid += 1
        i = f"f{self.nid}"
        self.heap[i] = Rec("frame", {})
        self.frameinfo[i] = (module, parent, func, locs, kind)
        return i

    def start(self):
        super().start()
        self.frameinfo = dict(self.world.base_frameinfo)
        self.yields = []
        self.hooks = {}
        self.tmpl = []
        self.active = []
        self.evts = []
        self.kmemo = {}

    def events(self, e):
        """An observable effect: handled by the contract being verified."""
        for h in self.hooks.get("event", ()):
            h(self, e)

    def fget(self, fr, name):
        return self.heap[fr].data.get(name, MISSING)

    def fset(self, fr, name, val):
        d = dict(self.heap[fr].data)
        d[name] = val
        self.heap[fr] = Rec("frame", d)

    def fdel(self, fr, name):
        d = dict(self.heap[fr].data)
        d.pop(name, None)
        self.heap[fr] = Rec("frame", d)

    def lookup(self, fr, name):
        f = fr
        first = True
        while f is not None:
            module, parent, func, locs, kind = self.frameinfo[f]
            if kind == "class" and not first:
                f = parent
                continue
            v = self.fget(f, name)
            if v is not MISSING:
                return v
            if locs is not None and name in locs and kind == "fn":
                raise PyExc("UnboundLocalError")
            first = False
            f = parent
        module = self.frameinfo[fr][0]
        v = self.world.module_get(self, module, name)
        if v is not MISSING:
            return v
        v = self.world.builtin(name)
        if v is not MISSING:
            return v
        raise PyExc("NameError", name)

    def store(self, fr, name, val):
        module, parent, func, locs, kind = self.frameinfo[fr]
        if kind == "module":
            self.world.module_set(self, module, name, val)
            return
        if isinstance(func, Func):
            _, non, glo = self.world.names_of(func)
            if name in glo:
                self.world.module_set(self, module, name, val)
                return
            if name in non:
                f = parent
                while f is not None:
                    if self.frameinfo[f][3] is not None and name in self.frameinfo[f][3]:
                        self.fset(f, name, val)
                        return
                    f = self.frameinfo[f][1]
        self.fset(fr, name, val)

    # ----------------------------------------------------------- statements
    def block(self, stmts, fr):
        for s in stmts:
            self.stmt(s, fr)

    def stmt(self, s, fr):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(s).__name__} at line {s.lineno}")
        m(s, fr)

    def s_Expr(self, s, fr):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value, fr)

    def s_Pass(self, s, fr):
        pass

    def s_Assign(self, s, fr):
        v = self.ev(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def s_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, fr), fr)
        elif self.frameinfo[fr][4] == "class" and isinstance(s.target, ast.Name):
            pass

    def s_AugAssign(self, s, fr):
        if isinstance(s.target, ast.Name):
            cur = self.lookup(fr, s.target.id)
            v = self.augop(s.op, cur, self.ev(s.value, fr))
            self.store(fr, s.target.id, v)
        elif isinstance(s.target, ast.Attribute):
            o = self.ev(s.target.value, fr)
            an = self.mangle(s.target.attr, fr)
            v = self.augop(s.op, self.getattr(o, an), self.ev(s.value, fr))
            self.setattr(o, an, v)
        elif isinstance(s.target, ast.Subscript):
            o = self.ev(s.target.value, fr)
            k = self.ev(s.target.slice, fr)
            v = self.augop(s.op, self.getitem(o, k), self.ev(s.value, fr))
            self.setitem(o, k, v)

    def augop(self, op, a, b):
        if isinstance(a, Ref) and self.rec(a).kind == "set" and isinstance(op, (ast.BitOr, ast.Sub, ast.BitAnd)):
            r = self.binop(op, a, b)
            self.put(a, self.rec(r).data)
            return a
        if isinstance(a, Ref) and self.rec(a).kind == "list" and isinstance(op, ast.Add):
            self.put_list(a, self.concat(self.list_tuple(a), self.materialise(b)))
            return a
        return self.binop(op, a, b)

    def put_list(self, ref, seq):
        self.put(ref, tuple(seq.items) if isinstance(seq, Tup) else seq)

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.store(fr, t.id, v)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, fr), self.mangle(t.attr, fr), v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value, fr), self.ev(t.slice, fr), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            it = self.iterate(v)
            starred = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            n = len(t.elts)
            if not starred:
                if isinstance(it.n, int):
                    if it.n != n:
                        raise PyExc("ValueError")
                elif not self.branch(it.n == n):
                    raise PyExc("ValueError")
                for i, x in enumerate(t.elts):
                    self.assign(x, it.at(i), fr)
                return
            seq = self.materialise(v)
            k = starred[0]
            ln = self.seq_len(seq)
            if isinstance(ln, int):
                if ln < n - 1:
                    raise PyExc("ValueError")
            elif not self.branch(ln >= n - 1):
                raise PyExc("ValueError")
            for i in range(k):
                self.assign(t.elts[i], self.index(seq, i), fr)
            self.assign(t.elts[k].value, self.new_list(self.slice(seq, k, None if k == n - 1 else -(n - 1 - k))), fr)
            for i in range(k + 1, n):
                self.assign(t.elts[i], self.index(seq, i - n), fr)
        else:
            raise Unsupported("assignment target")

    def s_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                if self.fget(fr, t.id) is MISSING:
                    raise PyExc("UnboundLocalError")
                self.fdel(fr, t.id)
            elif isinstance(t, ast.Subscript):
                o, k = self.ev(t.value, fr), self.ev(t.slice, fr)
                self.call(self.getattr(o, "pop"), [k], {})
            else:
                raise Unsupported("del")

    def s_If(self, s, fr):
        if self.istrue(self.ev(s.test, fr)):
            self.block(s.body, fr)
        else:
            self.block(s.orelse, fr)

    def s_Return(self, s, fr):
        raise Ret(None if s.value is None else self.ev(s.value, fr))

    def s_Break(self, s, fr):
        raise Brk()

    def s_Continue(self, s, fr):
        raise Cont()

    def s_Assert(self, s, fr):
        if not self.istrue(self.ev(s.test, fr)):
            raise PyExc("AssertionError")

    def s_Raise(self, s, fr):
        if s.exc is None:
            if self.handling:
                raise self.handling[-1]
            raise PyExc("RuntimeError")
        e = self.ev(s.exc, fr)
        raise self.exc_of(e)

    handling = []

    def exc_of(self, e):
        if isinstance(e, Ext) and e.path.startswith("builtins."):
            return PyExc(e.path[9:])
        if isinstance(e, ExcV):
            return PyExc(e.cls, e)
        raise Unsupported(f"raise {e}")

    def s_Try(self, s, fr):
        def body():
            try:
                self.block(s.body, fr)
            except PyExc as e:
                for h in s.handlers:
                    if self.exc_matches(e, h.type, fr):
                        if h.name:
                            self.store(fr, h.name, e.value if e.value is not None else ExcV(e.cls, []))
                        self.handling = self.handling + [e]
                        try:
                            self.block(h.body, fr)
                        finally:
                            self.handling = self.handling[:-1]
                        return
                raise
            self.block(s.orelse, fr)
        if not s.finalbody:
            body()
            return
        try:
            body()
        except (PyExc, Ret, Brk, Cont) as e:
            self.block(s.finalbody, fr)
            raise e
        self.block(s.finalbody, fr)

    def exc_matches(self, e, typ, fr):
        if typ is None:
            return True
        t = self.ev(typ, fr)
        names = [x for x in (t.items if isinstance(t, Tup) else [t])]
        for n in names:
            if not (isinstance(n, Ext) and n.path.startswith("builtins.")):
                raise Unsupported("except clause")
            nm = n.path[9:]
            if e.cls == "?":
                if nm == "BaseException":
                    return True
                if self.branch(e.any_(nm)):
                    return True
            elif exc_isa(e.cls, nm):
                return True
        return False

    def s_With(self, s, fr):
        for item in s.items:
            v = self.ev(item.context_expr, fr)
            r = self.world.hook("enter", self, v)
            if r is None:
                raise Unsupported("with")
            if item.optional_vars is not None:
                self.assign(item.optional_vars, r, fr)
        self.block(s.body, fr)

    def s_Import(self, s, fr):
        for al in s.names:
            v = self.world.import_module(self, al.name)
            if al.asname:
                self.store(fr, al.asname, v)
            else:
                self.store(fr, al.name.split(".")[0], self.world.import_module(self, al.name.split(".")[0]))

    def s_ImportFrom(self, s, fr):
        for al in s.names:
            self.store(fr, al.asname or al.name, self.world.import_from(self, s.module, al.name))

    def s_Global(self, s, fr):
        pass

    s_Nonlocal = s_Global

    def make_func(self, s, fr):
        module = self.frameinfo[fr][0]
        kind = self.frameinfo[fr][4]
        prefix = self.qual_of(fr)
        name = s.name if isinstance(s, ast.FunctionDef) else "<lambda>"
        qual = prefix + "." + name
        closure = fr if kind in ("fn", "comp") else self.frameinfo[fr][1] if kind == "class" else None
        defs = [self.ev(d, fr) for d in s.args.defaults]
        kwd = {a.arg: self.ev(d, fr) for a, d in zip(s.args.kwonlyargs, s.args.kw_defaults) if d is not None}
        return Func(qual, s, module, closure, tuple(defs), kwd)

    def qual_of(self, fr):
        module, parent, func, locs, kind = self.frameinfo[fr]
        if kind == "class":
            return func
        if kind in ("fn",):
            return func.qual
        if kind == "comp":
            return self.qual_of(parent)
        return module

    def s_FunctionDef(self, s, fr):
        f = self.make_func(s, fr)
        v = f
        for d in reversed(s.decorator_list):
            dv = self.ev(d, fr)
            if isinstance(dv, Ext) and dv.path in ("builtins.staticmethod", "builtins.classmethod", "builtins.property"):
                v = Wrapped(dv.path[9:], v)
            elif isinstance(dv, Ext) and dv.path in ("abc.abstractmethod", "functools.wraps"):
                pass
            else:
                v = self.call(dv, [v], {})
        self.store(fr, s.name, v)

    def s_ClassDef(self, s, fr):
        bases, meta = [], None
        for b in s.bases:
            v = self.ev(b, fr)
            if isinstance(v, (Ext, Ref)):
                bases.append(v)
            else:
                bases.append(Ext("?base"))
        for k in s.keywords:
            if k.arg == "metaclass":
                meta = self.ev(k.value, fr)
        if meta is None:
            for b in bases:
                if isinstance(b, Ref) and self.rec(b).data[3] is not None:
                    meta = self.rec(b).data[3]
                    break
        module = self.frameinfo[fr][0]
        cf = self.new_frame(module, fr if self.frameinfo[fr][4] != "module" else None, None, None, "class")
        qual = self.qual_of(fr) + "." + s.name
        self.frameinfo[cf] = (module, self.frameinfo[cf][1], qual, None, "class")
        self.block(s.body, cf)
        ns = dict(self.heap[cf].data)
        ns.setdefault("__module__", module)
        ns.setdefault("__qualname__", qual[len(module) + 1:])
        ref = self.alloc("class", (s.name, tuple(bases), ns, meta))
        self.world.class_qual[ref.id] = qual
        # __init_subclass__ of a repository base, metaclass __init__
        v = ref
        for b in bases:
            if isinstance(b, Ref):
                f = self.class_attr(b, "__init_subclass__")
                if f is not MISSING:
                    self.call(Bound(f.func if isinstance(f, Wrapped) else f, ref), [], {})
                    break
        if isinstance(meta, Ref):
            f = self.class_attr(meta, "__init__")
            if isinstance(f, Func):
                self.call(Bound(f, ref), [s.name, Tup(bases), self.alloc("dict", ("c", ()))], {})
        for d in reversed(s.decorator_list):
            v = self.call(self.ev(d, fr), [v], {})
        self.store(fr, s.name, v)

    # ----------------------------------------------------------- loops
    def s_For(self, s, fr):
        it = self.iterate(self.ev(s.iter, fr))
        n = it.n
        if not isinstance(n, int):
            n = z3.simplify(n)
            if z3.is_int_value(n):
                n = n.as_long()
        if isinstance(n, int) and n <= self.MAXUNROLL:
            for i in range(n):
                self.assign(s.target, it.at(i), fr)
                try:
                    self.block(s.body, fr)
                except Brk:
                    return
                except Cont:
                    continue
            self.block(s.orelse, fr)
            return
        if isinstance(n, int):
            n = z3.IntVal(n)

        def setup(k):
            self.assign(s.target, it.at(k), fr)
        self.sym_loop(s, fr, n, it, setup)

    def s_While(self, s, fr):
        # concrete unrolling while the condition is decided
        for _ in range(self.MAXUNROLL):
            c = self.truth(self.ev(s.test, fr))
            if not isinstance(c, bool):
                c2 = z3.simplify(c)
                if z3.is_true(c2):
                    c = True
                elif z3.is_false(c2):
                    c = False
                else:
                    break
            if not c:
                self.block(s.orelse, fr)
                return
            try:
                self.block(s.body, fr)
            except Brk:
                return
            except Cont:
                continue
        self.sym_loop(s, fr, None, None, None)

    def havoc_like(self, entry_vals, name):
        """A fresh value covering every value the variable had."""
        ks = set()
        for v in entry_vals:
            if isinstance(v, (bool, SBool)):
                ks.add("bool")
            elif isinstance(v, (int, SInt)):
                ks.add("int")
            elif isinstance(v, (Tup, Seq)):
                ks.add("tuple")
            elif isinstance(v, Segment):
                ks.add("segment" if all(isinstance(x, Segment) and z3.eq(x.base, v.base) for x in entry_vals) else "tuple")
            elif isinstance(v, KindOf):
                ks.add(v.kind)
            elif isinstance(v, Ref) and self.heap.get(v.id) is not None:
                ks.add(self.rec(v).kind)
            elif isinstance(v, str):
                ks.add("str")
            elif isinstance(v, Sym):
                d = z3.simplify(v.t).decl().name() if z3.is_app(v.t) else ""
                x = {"I": "int", "B": "bool", "S": "str", "T": "tuple", "X": "expr"}.get(d, "any")
                if x == "any":
                    # decided once per loop: the value at entry, under the path to the loop
                    m = (self.loop_key, v.t.get_id())
                    if m not in self.kmemo:
                        self.kmemo[m] = self.check(z3.Not(is_("X", v.t)), ms=300) == z3.unsat
                    x = "expr" if self.kmemo[m] else x
                ks.add(x)
            else:
                ks.add("any")
        if ks == {"bool"}:
            return SBool(self.fresh(Bool, name))
        if ks == {"int"}:
            return SInt(self.fresh(Int, name))
        if ks == {"str"}:
            return Sym(V.S(self.fresh(StrS, name)))
        if ks == {"expr"}:
            return Sym(V.X(self.fresh(ExprS, name)))
        if ks == {"segment"}:
            # every iteration leaves a slice of the same tuple
            lo, n = self.fresh(Int, name + "_lo"), self.fresh(Int, name + "_n")
            self.assume(z3.And(lo >= 0, n >= 0))
            return Seq(entry_vals[0].base, lo, n)
        if ks == {"tuple"} or ks == {"tuple", "segment"}:
            b = self.fresh(TupS, name)
            self.assume(tlen(b) >= 0)
            return Seq(b, z3.IntVal(0), tlen(b))
        if ks == {"set"}:
            return self.alloc("set", self.fresh(SetS, name))
        if ks == {"list"}:
            b = self.fresh(TupS, name)
            self.assume(tlen(b) >= 0)
            return self.alloc("list", Seq(b, z3.IntVal(0), tlen(b)))
        if ks == {"dict"}:
            return self.alloc("dict", ("s", self.fresh(SetS, name + "h"), self.fresh(MapS, name + "g"), None))
        return self.freshV(name)

    def havoc_rec(self, id, seen):
        r = self.heap[id]
        if r.kind == "set":
            self.heap[id] = Rec("set", self.fresh(SetS, "hset"))
        elif r.kind == "list":
            b = self.fresh(TupS, "hlist")
            self.assume(tlen(b) >= 0)
            self.heap[id] = Rec("list", Seq(b, z3.IntVal(0), tlen(b)))
        elif r.kind == "dict":
            self.heap[id] = Rec("dict", ("s", self.fresh(SetS, "hdh"), self.fresh(MapS, "hdg"), None))
        else:
            raise Unsupported(f"loop changes a {r.kind}")

    loop_key = None
    kmemo = {}

    def do_havoc(self, mods, samples):
        for m in sorted(mods, key=str):
            if m[0] == "v":
                _, f, x = m
                vals = [v for v in samples.get(m, []) if v is not MISSING]
                if any(v is MISSING for v in samples.get(m, [])):
                    # not bound on every path into the loop: unbound at entry
                    pass
                self.fset(f, x, self.havoc_like(vals, x))
            elif m[0] == "r":
                self.havoc_rec(m[1], samples)
            elif m[0] == "a":
                _, i, x = m
                r = self.heap[i]
                d = dict(r.data[1]) if r.kind == "inst" else None
                if d is None:
                    raise Unsupported("loop changes a class")
                d[x] = self.havoc_like(samples[m], x)
                self.heap[i] = Rec("inst", (r.data[0], d))
            elif m[0] == "g":
                v = samples[m][0]
                self.ghost_set(m[1], self.fresh(v.sort() if not isinstance(v, bool) else Bool, "gh_" + m[1]))

    def diff(self, before, after, samples, target_names, entry):
        """Locations changed between two heaps (only pre-existing ones)."""
        mods = set()
        for i, r in before.items():
            r2 = after.get(i)
            if r2 is r:
                continue
            if r.kind == "frame":
                for x in set(r.data) | set(r2.data):
                    a, b = r.data.get(x, MISSING), r2.data.get(x, MISSING)
                    if a is b:
                        continue
                    if self.same_val(a, b):
                        continue
                    m = ("v", i, x)
                    mods.add(m)
                    samples.setdefault(m, [])
                    for v, h in ((a, before), (b, after)):
                        samples[m].append(kind_of(v, h))
                    if isinstance(a, Seq) and isinstance(b, Seq) and z3.eq(a.base, b.base):
                        samples[m][-2:] = [Segment(a.base)]
                    if isinstance(b, Sym) and not (z3.is_app(b.t) and b.t.decl().name() in "IBSTX") and entry.get(i, r).data.get(x, MISSING) is not MISSING and x not in (target_names or ()) and self.kind_of(b) == "X":
                        samples[m][-1] = KindOf("expr")
            elif r.kind == "ghost":
                for x in set(r.data) | set(r2.data):
                    a, b = r.data.get(x), r2.data.get(x)
                    if a is b or (not isinstance(a, bool) and not isinstance(b, bool) and z3.eq(a, b)) or (isinstance(a, bool) and isinstance(b, bool) and a == b):
                        continue
                    m = ("g", x)
                    mods.add(m)
                    samples.setdefault(m, [a if not isinstance(a, bool) else z3.BoolVal(a)])
            elif r.kind == "inst":
                for x in set(r.data[1]) | set(r2.data[1]):
                    a, b = r.data[1].get(x, MISSING), r2.data[1].get(x, MISSING)
                    if a is b or self.same_val(a, b):
                        continue
                    m = ("a", i, x)
                    mods.add(m)
                    samples.setdefault(m, []).extend([kind_of(v, h) for v, h in ((a, before), (b, after)) if v is not MISSING])
            elif r.kind in ("set",):
                if not z3.eq(r.data, r2.data):
                    mods.add(("r", i))
            elif r.kind == "dict":
                if r.data[0] == "c" and r2.data[0] == "s":
                    mods.add(("r", i))
                elif r.data[0] == "s" and r2.data[0] == "s":
                    if not (z3.eq(r.data[1], r2.data[1]) and z3.eq(r.data[2], r2.data[2])):
                        mods.add(("r", i))
                else:
                    mods.add(("r", i))
            else:
                mods.add(("r", i))
        return mods

    def same_val(self, a, b):
        if a is MISSING or b is MISSING:
            return False
        if type(a) is not type(b):
            return False
        if isinstance(a, (SInt, SBool, Sym)):
            return z3.eq(a.t, b.t)
        if isinstance(a, Ref):
            return a == b
        if isinstance(a, Seq):
            return z3.eq(a.base, b.base) and z3.eq(a.lo, b.lo) and z3.eq(a.n, b.n)
        if isinstance(a, Tup):
            return len(a.items) == len(b.items) and all(self.same_val(x, y) for x, y in zip(a.items, b.items))
        if isinstance(a, (int, str, bool)) or a is None:
            return a == b
        return a is b

    def sym_loop(self, s, fr, n, it, setup):
        key = (id(s), fr, self.xid, tuple(map(str, self.dec.choices[: self.dec.pos])), self.loop_ctx())
        entry = dict(self.heap)
        while_ = n is None
        targets = {x.id for y in ast.walk(s) if isinstance(y, ast.For) for x in ast.walk(y.target) if isinstance(x, ast.Name)}

        def prelude(k, inv, at_exit):
            """Arbitrary iteration k: havoc, then assume the invariant."""
            self.loop_key = key
            self.do_havoc(mods, samples)
            self.loop_key = None
            self.assume(k >= 0)
            if not while_:
                self.assume(k <= n if at_exit else k < n)
            lv = LoopView(self, k, n, it, entry, dict(self.heap), fr, mods)
            self.loop_defs(lv)
            for c in inv:
                f = self.cand(c, lv)
                if f is not None:
                    self.assume(f)

        def body(k):
            if while_:
                if not self.istrue(self.ev(s.test, fr)):
                    raise PathDead()
            else:
                setup(k)
            self.block(s.body, fr)

        if key in self.loop_cache:
            mods, samples, inv = self.loop_cache[key]
        else:
            self.suppress += 1
            snap0 = self.snapshot()
            try:
                mods, samples = set(), {}
                for _round in range(8):
                    new = set()

                    def run():
                        k = self.fresh(Int, "k")
                        prelude(k, [], False)
                        run.before = dict(self.heap)
                        # compare with the state before the loop for variables not havocked
                        body(k)

                    def onp(out):
                        if out[0] in ("ok", "cont", "brk"):
                            # records made to stand for a havocked variable are fresh every time
                            new.update(m for m in self.diff(run.before, self.heap, samples, targets, entry) if m[0] not in "ra" or m[1] in entry)
                    self.exploratory += 1
                    try:
                        self.explore(run, onp)
                    finally:
                        self.exploratory -= 1
                    if new <= mods:
                        break
                    mods |= new
                else:
                    raise Unsupported("loop frame did not stabilise")
                # candidates
                lv0 = LoopView(self, z3.IntVal(0), n, it, entry, entry, fr, mods)
                # an enclosing loop that only looks for what changes needs no invariant of this one
                cands = self.loop_candidates(lv0, fr, mods, samples) if not self.exploratory else []
                inv = []
                self.solver.push()
                if not while_:
                    self.assume(n >= 0)
                self.loop_defs(lv0)
                for c in cands:
                    f = self.cand(c, lv0)
                    if f is not None and self.valid(f, ms=3000, insist=c[0] is not generic_templates) == "unsat":
                        inv.append(c)
                self.solver.pop()
                for _round in range(20) if cands else ():
                    bad = set()

                    def run2():
                        k = self.fresh(Int, "k")
                        run2.k = k
                        prelude(k, inv, False)
                        body(k)

                    def onp2(out):
                        if out[0] not in ("ok", "cont"):
                            return
                        lv = LoopView(self, run2.k + 1, n, it, entry, dict(self.heap), fr, mods)
                        self.loop_defs(lv)
                        for c in inv:
                            if c in bad:
                                continue
                            f = self.cand(c, lv)
                            if f is None or self.valid(f, ms=self.timeout_ms if c[0] is not generic_templates or not self.renew else 1000, insist=c[0] is not generic_templates) != "unsat":
                                bad.add(c)
                    self.explore(run2, onp2)
                    if not bad:
                        break
                    inv = [c for c in inv if c not in bad]
            finally:
                self.suppress -= 1
                self.restore(snap0)
            self.loop_cache[key] = (mods, samples, inv)
        mods, samples, inv = self.loop_cache[key]
        if self.choose(2) == 0:
            k = self.fresh(Int, "kx")
            if while_:
                prelude(k, inv, True)
                if self.istrue(self.ev(s.test, fr)):
                    raise PathDead()
            else:
                prelude(n, inv, True)
            self.unbind(fr, mods, samples, n)
            self.block(s.orelse, fr)
            return
        k = self.fresh(Int, "ki")
        prelude(k, inv, False)
        try:
            body(k)
        except Brk:
            return
        except Cont:
            raise PathDead()
        raise PathDead()

    def unbind(self, fr, mods, samples, n):
        pass

    def loop_ctx(self):
        return tuple(self.frames)

    def cand(self, c, lv):
        """Value of a candidate invariant in a state (None: not expressible)."""
        tmpl, key = c
        cache = lv.__dict__.setdefault("cache", {})
        if tmpl not in cache:
            cache[tmpl] = dict(tmpl(lv))
        return cache[tmpl].get(key)

    def loop_defs(self, lv):
        for t in self.tmpl:
            d = getattr(t, "defs", None)
            if d:
                for f in d(lv):
                    self.assume(f)

    def loop_candidates(self, lv, fr, mods, samples):
        out = []
        for t in self.tmpl + [generic_templates]:
            fn = t if not hasattr(t, "invs") else t.invs
            for key, f in fn(lv):
                out.append((fn, key))
        # templates may depend on variables that only appear in havocked states
        return out

    # ----------------------------------------------------------- expressions
    def ev(self, e, fr):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(e).__name__} at line {e.lineno}")
        return m(e, fr)

    def e_Constant(self, e, fr):
        if isinstance(e.value, (int, bool, str, type(None), type(Ellipsis), float)):
            return e.value
        if isinstance(e.value, bytes):
            return self.freshS()
        raise Unsupported("constant")

    def e_Name(self, e, fr):
        return self.lookup(fr, e.id)

    def e_NamedExpr(self, e, fr):
        v = self.ev(e.value, fr)
        f = fr
        while self.frameinfo[f][4] == "comp":
            f = self.frameinfo[f][1]
        self.store(f, e.target.id, v)
        return v

    def e_Tuple(self, e, fr):
        return self.display(e.elts, fr)

    def display(self, elts, fr):
        acc = Tup([])
        for x in elts:
            if isinstance(x, ast.Starred):
                acc = self.concat(acc, self.materialise(self.ev(x.value, fr)))
            else:
                acc = self.concat(acc, Tup([self.ev(x, fr)]))
        return acc

    def e_List(self, e, fr):
        return self.new_list(self.display(e.elts, fr))

    def e_Set(self, e, fr):
        s = EMPTY
        for x in e.elts:
            s = z3.Store(s, self.to_V(self.ev(x, fr)), z3.BoolVal(True))
        return self.alloc("set", s)

    def e_Dict(self, e, fr):
        d = self.alloc("dict", ("c", ()))
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.dict_update(d, self.ev(v, fr))
            else:
                kv = self.ev(k, fr)
                self.dict_set(d, kv, self.ev(v, fr))
        return d

    def dict_update(self, d, o):
        if isinstance(o, Sym):
            o = self.opaque_dict(o)
        if isinstance(o, (ClassDict, InstDict)):
            o = self.plain_dict(o)
        if not isinstance(o, Ref):
            raise Unsupported("update from non-dict")
        r = self.rec(o)
        if r.kind != "dict":
            raise Unsupported("update from non-dict")
        if r.data[0] == "c":
            for k, v in r.data[1]:
                self.dict_set(d, k, v)
            return
        a = self.dict_symbolic(d)
        b = r.data
        k = z3.Const("k!up", V)
        has = union(a[1], b[1])
        if z3.eq(a[1], EMPTY):
            self.put(d, ("s", b[1], b[2], b[3]))
            return
        get = z3.Lambda([k], z3.If(z3.Select(b[1], k), z3.Select(b[2], k), z3.Select(a[2], k)))
        g = self.fresh(MapS, "upd")
        self.assume(z3.ForAll([k], z3.Select(g, k) == z3.If(z3.Select(b[1], k), z3.Select(b[2], k), z3.Select(a[2], k)), patterns=[z3.Select(g, k)]))
        self.put(d, ("s", has, g, None))

    def plain_dict(self, v):
        """A dict record with the entries of the namespace of a class or an instance."""
        d = self.rec(v.ref).data
        ns = d[2] if isinstance(v, ClassDict) else d[1]
        return self.alloc("dict", ("c", tuple(ns.items())))

    def opaque_dict(self, v):
        """A dict record with the contents of an opaque mapping."""
        o = V.oval(v.t)
        has, get = self.fresh(SetS, "ohas"), self.fresh(MapS, "oget")
        k = z3.Const("k!od", V)
        self.assume(z3.ForAll([k], z3.And(z3.Select(has, k) == mhas(o, k)), patterns=[z3.Select(has, k)]))
        self.assume(z3.ForAll([k], z3.Select(get, k) == mget(o, k), patterns=[z3.Select(get, k)]))
        return self.alloc("dict", ("s", has, get, Seq(keysof(o), z3.IntVal(0), tlen(keysof(o)))))

    def e_JoinedStr(self, e, fr):
        conc = []
        for p in e.values:
            if isinstance(p, ast.Constant):
                conc.append(p.value)
            else:
                v = self.ev(p.value, fr)
                plain = p.conversion == -1 and p.format_spec is None and (isinstance(v, str) or isinstance(v, Sym) and self.kind_of(v) == "S")
                conc.append(v if plain else None)
        if any(c is None for c in conc):
            return self.freshS()
        out = ""
        for c in conc:
            out = self.str_concat(out, c)
        return out

    def str_concat(self, a, b):
        if isinstance(a, str) and isinstance(b, str):
            return a + b
        if a == "" and isinstance(a, str):
            return b
        if b == "" and isinstance(b, str):
            return a
        return Sym(V.S(str_cat(V.sval(self.to_V(a)), V.sval(self.to_V(b)))))

    def e_IfExp(self, e, fr):
        return self.ev(e.body if self.istrue(self.ev(e.test, fr)) else e.orelse, fr)

    def e_BoolOp(self, e, fr):
        v = None
        for i, x in enumerate(e.values):
            v = self.ev(x, fr)
            if i == len(e.values) - 1:
                return v
            t = self.istrue(v)
            if isinstance(e.op, ast.And) and not t:
                return self.decided(v, False)
            if isinstance(e.op, ast.Or) and t:
                return self.decided(v, True)
        return v

    def decided(self, v, val):
        if isinstance(v, (SBool, bool)):
            return val
        return v

    def e_UnaryOp(self, e, fr):
        v = self.ev(e.operand, fr)
        if isinstance(e.op, ast.Not):
            t = self.truth(v)
            return (not t) if isinstance(t, bool) else self.mkbool(z3.Not(t))
        if isinstance(v, int) and isinstance(e.op, ast.USub):
            return -v
        if isinstance(v, float) and isinstance(e.op, ast.USub):
            return -v
        if isinstance(e.op, ast.USub):
            i = self.as_int(v)
            return SInt(-i) if not isinstance(i, int) else -i
        if isinstance(e.op, ast.UAdd):
            return v
        raise Unsupported("unary operator")

    def e_BinOp(self, e, fr):
        a = self.ev(e.left, fr)
        b = self.ev(e.right, fr)
        return self.binop(e.op, a, b)

    def known_set(self, a, b):
        """An opaque (frozen) set next to a set, as a set."""
        if isinstance(a, Sym) and self.kind_of(a) == "O" and (isinstance(b, Ref) and self.rec(b).kind == "set" or isinstance(b, Sym)):
            c = [inst(a.t, self.to_V(Ext("builtins." + x))) for x in ("set", "frozenset")]
            if self.check(z3.Not(z3.Or(c))) == z3.unsat:
                return self.world.mkset(self, [a])
        return a

    def binop(self, op, a, b):
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            import operator as O
            fn = {ast.Add: O.add, ast.Sub: O.sub, ast.Mult: O.mul, ast.FloorDiv: O.floordiv, ast.Mod: O.mod, ast.Pow: O.pow, ast.Div: O.truediv,
                  ast.BitOr: O.or_, ast.BitAnd: O.and_, ast.BitXor: O.xor}.get(type(op))
            if fn:
                return fn(a, b)
        if isinstance(a, str) and isinstance(b, str) and isinstance(op, ast.Add):
            return a + b
        if isinstance(a, str) and isinstance(b, int) and isinstance(op, ast.Mult):
            return a * b
        if isinstance(a, Sym):
            a = self.settle_op(a)
        if isinstance(b, Sym):
            b = self.settle_op(b)
        ka, kb = self.kind_of(a), self.kind_of(b)
        if isinstance(op, ast.Add):
            if (isinstance(a, str) or ka == "S") and (isinstance(b, str) or kb == "S"):
                return self.str_concat(a, b)
            if isinstance(a, (Tup, Seq)) and isinstance(b, (Tup, Seq)):
                return self.concat(a, b)
            if isinstance(a, Ref) and isinstance(b, Ref) and self.rec(a).kind == self.rec(b).kind == "list":
                return self.new_list(self.concat(self.list_tuple(a), self.list_tuple(b)))
        if isinstance(op, ast.Mult):
            if (isinstance(a, str) or ka == "S") or (isinstance(b, str) or kb == "S"):
                return self.freshS()
        if isinstance(op, (ast.BitOr, ast.BitAnd, ast.Sub)):
            a, b = self.known_set(a, b), self.known_set(b, a)
        if isinstance(a, Ref) and self.rec(a).kind == "set" and isinstance(b, Ref) and self.rec(b).kind == "set":
            x, y = self.rec(a).data, self.rec(b).data
            if isinstance(op, ast.BitOr):
                return self.alloc("set", union(x, y))
            if isinstance(op, ast.BitAnd):
                return self.alloc("set", z3.SetIntersect(x, y))
            if isinstance(op, ast.Sub):
                return self.alloc("set", z3.SetDifference(x, y))
        nums = (bool, int, SInt, SBool)
        if isinstance(a, nums) and isinstance(b, nums):
            x, y = self.as_int(a), self.as_int(b)
            if isinstance(op, ast.Add):
                return SInt(z3.simplify(x + y))
            if isinstance(op, ast.Sub):
                return SInt(z3.simplify(x - y))
            if isinstance(op, ast.Mult):
                return SInt(x * y)
            if isinstance(op, (ast.FloorDiv, ast.Mod)) and isinstance(y, int) and y > 0:
                return SInt(x / y if isinstance(op, ast.FloorDiv) else x % y)
        if isinstance(op, ast.Sub) and ka == "X":
            r = self.world.hook("xsub", self, a, b)
            if r is not None:
                return r
            return Sym(V.X(xsub(V.xval(a.t), self.to_V(b))))
        if isinstance(a, Ref) and self.rec(a).kind == "inst" and isinstance(op, ast.Add):
            m = self.lookup_special(a, "__add__")
            if m is not None:
                return self.call(m, [b], {})
        if isinstance(b, Ref) and self.rec(b).kind == "inst" and isinstance(op, ast.Add):
            m = self.lookup_special(b, "__radd__")
            if m is not None:
                return self.call(m, [a], {})
        if isinstance(op, (ast.Add, ast.Sub)) and (self.isprim(a) or self.isprim(b)):
            if not any(k in ("X", "O") for k in (ka, kb)):
                raise PyExc("TypeError")
        raise Unsupported(f"operator {type(op).__name__} on {a} and {b}")

    def isprim(self, v):
        return v is None or v is Ellipsis or isinstance(v, (bool, int, str, SInt, SBool, Tup, Seq, Ref))

    def settle_op(self, v):
        return self.settle(v)

    def e_Compare(self, e, fr):
        left = self.ev(e.left, fr)
        res = True
        for i, (op, rx) in enumerate(zip(e.ops, e.comparators)):
            right = self.ev(rx, fr)
            f = self.compare(op, left, right)
            if i == len(e.ops) - 1:
                r = self.mkbool(f) if not isinstance(f, bool) else f
                return r
            if not self.branch(f):
                return False
            left = right
        return res

    def compare(self, op, a, b):
        def neg(f):
            return (not f) if isinstance(f, bool) else z3.Not(f)
        if isinstance(op, ast.Eq):
            return self.eq(a, b)
        if isinstance(op, ast.NotEq):
            return neg(self.eq(a, b))
        if isinstance(op, ast.Is):
            return self.is_same(a, b)
        if isinstance(op, ast.IsNot):
            return neg(self.is_same(a, b))
        if isinstance(op, ast.In):
            return self.contains(a, b)
        if isinstance(op, ast.NotIn):
            return neg(self.contains(a, b))
        if isinstance(a, Ref) and isinstance(b, Ref) and self.rec(a).kind == self.rec(b).kind == "set":
            x, y = self.rec(a).data, self.rec(b).data
            if isinstance(op, ast.LtE):
                return z3.IsSubset(x, y)
            if isinstance(op, ast.GtE):
                return z3.IsSubset(y, x)
            if isinstance(op, ast.Lt):
                return z3.And(z3.IsSubset(x, y), x != y)
            if isinstance(op, ast.Gt):
                return z3.And(z3.IsSubset(y, x), x != y)
        x, y = self.as_int(a), self.as_int(b)
        if isinstance(op, ast.Lt):
            return x < y
        if isinstance(op, ast.LtE):
            return x <= y
        if isinstance(op, ast.Gt):
            return x > y
        if isinstance(op, ast.GtE):
            return x >= y
        raise Unsupported("comparison")

    def e_Subscript(self, e, fr):
        o = self.ev(e.value, fr)
        if isinstance(e.slice, ast.Slice):
            if e.slice.step is not None:
                st = self.ev(e.slice.step, fr)
                if st == -1 and e.slice.lower is None and e.slice.upper is None:
                    return self.reverse(o)
                raise Unsupported("slice step")
            lo = self.ev(e.slice.lower, fr) if e.slice.lower is not None else None
            hi = self.ev(e.slice.upper, fr) if e.slice.upper is not None else None
            return self.getslice(o, lo, hi)
        return self.getitem(o, self.ev(e.slice, fr))

    def reverse(self, o):
        t = self.materialise(o)
        if isinstance(t, Tup):
            r = Tup(list(reversed(t.items)))
            return self.new_list(r) if isinstance(o, Ref) else r
        raise Unsupported("reverse")

    def getslice(self, o, lo, hi):
        if isinstance(o, str) and all(x is None or isinstance(x, int) for x in (lo, hi)):
            return o[lo:hi]
        if isinstance(o, (Tup, Seq)):
            return self.slice(o, lo, hi)
        if isinstance(o, Ref) and self.rec(o).kind == "list":
            return self.new_list(self.slice(self.list_tuple(o), lo, hi))
        if isinstance(o, Sym):
            h = self.world.hook("slice", self, o, lo, hi)
            if h is not None:
                return h
            k = self.kind_of(o)
            if k == "T":
                return self.slice(self.as_seq(o), lo, hi)
            if k == "O":
                b = seqof(V.oval(o.t))
                return self.slice(Seq(b, z3.IntVal(0), tlen(b)), lo, hi)
            if k == "S":
                return self.freshS()
            w = self.settle(o)
            if not isinstance(w, Sym) or self.kind_of(w) in ("O", "S"):
                return self.getslice(w, lo, hi)
        raise PyExc("TypeError")

    def getitem(self, o, k):
        if isinstance(o, (Tup, Seq)):
            return self.index(o, k)
        if isinstance(o, Ref):
            r = self.rec(o)
            if r.kind == "list":
                return self.index(self.list_tuple(o), k)
            if r.kind == "dict":
                if not self.branch(self.dict_has(o, k)):
                    raise PyExc("KeyError")
                return self.dict_get(o, k)
            m = self.lookup_special(o, "__getitem__")
            if m is not None:
                return self.call(m, [k], {})
        if isinstance(o, Ext):
            h = self.world.hook("ext_getitem", self, o, k)
            return h if h is not None else Ext(o.path + "[]")
        if isinstance(o, Sym):
            h = self.world.hook("getitem", self, o, k)
            if h is not None:
                return h
            kk = self.kind_of(o)
            if kk == "T":
                return self.index(self.as_seq(o), k)
            if kk == "O":
                ob = V.oval(o.t)
                if self.branch(inst(o.t, self.to_V(Ext("builtins.dict")))):
                    if not self.branch(mhas(ob, self.to_V(k))):
                        raise PyExc("KeyError")
                    return self.from_V(mget(ob, self.to_V(k)))
                return self.index(Seq(seqof(ob), z3.IntVal(0), tlen(seqof(ob))), k)
            w = self.settle(o)
            if not isinstance(w, Sym) or self.kind_of(w) == "O":
                return self.getitem(w, k)
        raise PyExc("TypeError")

    def setitem(self, o, k, v):
        if isinstance(o, Ref):
            r = self.rec(o)
            if r.kind == "dict":
                self.dict_set(o, k, v)
                return
            if r.kind == "list":
                s = self.list_tuple(o)
                if isinstance(s, Tup) and isinstance(k, int):
                    it = list(s.items)
                    it[k] = v
                    self.put(o, tuple(it))
                    return
        h = self.world.hook("setitem", self, o, k, v)
        if h is None:
            raise Unsupported("item assignment")

    def e_Attribute(self, e, fr):
        return self.getattr(self.ev(e.value, fr), self.mangle(e.attr, fr))

    def mangle(self, name, fr):
        if not name.startswith("__") or name.endswith("__"):
            return name
        f = fr
        while f is not None:
            func = self.frameinfo[f][2]
            if isinstance(func, Func):
                parts = func.qual[len(func.module) + 1:].split(".")
                if len(parts) > 1 and self.world.base_class(func.module, parts[:-1]):
                    return "_" + parts[-2].lstrip("_") + name
            elif isinstance(func, str):
                return "_" + func.rsplit(".", 1)[-1].lstrip("_") + name
            f = self.frameinfo[f][1]
        return name

    def e_Lambda(self, e, fr):
        return self.make_func(e, fr)

    def e_Starred(self, e, fr):
        raise Unsupported("starred")

    # comprehensions
    def e_GeneratorExp(self, e, fr):
        return self.comp(e, fr, "gen")

    def e_ListComp(self, e, fr):
        return self.comp(e, fr, "list")

    def e_SetComp(self, e, fr):
        return self.comp(e, fr, "set")

    def e_DictComp(self, e, fr):
        return self.comp(e, fr, "dict")

    def comp(self, e, fr, kind):
        cf = self.new_frame(self.frameinfo[fr][0], fr, None, None, "comp")
        out = []
        g0 = e.generators[0]
        it0 = self.iterate(self.ev(g0.iter, fr))
        n0 = it0.n if isinstance(it0.n, int) else z3.simplify(it0.n)
        if not isinstance(n0, int) and z3.is_int_value(n0):
            n0 = n0.as_long()
        if not isinstance(n0, int):
            if len(e.generators) != 1:
                raise Unsupported("nested comprehension over a symbolic iterable")
            return self.sym_comp(e, cf, kind, g0, it0, n0)

        def rec(gi, fr2):
            if gi == len(e.generators):
                if kind == "dict":
                    out.append((self.ev(e.key, cf), self.ev(e.value, cf)))
                else:
                    out.append(self.ev(e.elt, cf))
                return
            g = e.generators[gi]
            it = it0 if gi == 0 else self.iterate(self.ev(g.iter, cf))
            if not isinstance(it.n, int):
                raise Unsupported("nested comprehension over a symbolic iterable")
            for i in range(it.n):
                self.assign(g.target, it.at(i), cf)
                if all(self.istrue(self.ev(c, cf)) for c in g.ifs):
                    rec(gi + 1, cf)
        if kind == "gen":
            # lazily evaluated: any/all stop early
            def thunk():
                g = g0
                for i in range(n0):
                    self.assign(g.target, it0.at(i), cf)
                    if all(self.istrue(self.ev(c, cf)) for c in g.ifs):
                        if len(e.generators) == 1:
                            yield self.ev(e.elt, cf)
                        else:
                            sub = len(out)
                            rec(1, cf)
                            for x in out[sub:]:
                                yield x
            return GenV(thunk, self)
        rec(0, cf)
        if kind == "list":
            return self.new_list(out)
        if kind == "set":
            s = EMPTY
            for x in out:
                s = z3.Store(s, self.to_V(x), z3.BoolVal(True))
            return self.alloc("set", s)
        d = self.alloc("dict", ("c", ()))
        for k, v in out:
            self.dict_set(d, k, v)
        return d

    def generic_elem(self, g, cf, it, elts):
        """Evaluate filters and element at a generic index, merging paths.

        Returns (index constant, [(condition, kept, [V terms])]); raising
        elements are reported as (condition, "exc", exception)."""
        j = self.fresh(Int, "j")
        res = []
        self.suppress += 1
        base = len(self.solver.assertions())
        axioms = {}

        def run():
            self.assume(z3.And(j >= 0, j < it.n))
            self.assign(g.target, it.at(j), cf)
            for c in g.ifs:
                if not self.istrue(self.ev(c, cf)):
                    return None
            return [self.to_V(self.ev(x, cf)) for x in elts]

        def onp(out):
            new = list(self.solver.assertions())[base + 1:]
            for f in new:
                if f.get_id() in self.axioms:
                    axioms[f.get_id()] = f
            new = [f for f in new if f.get_id() not in self.axioms]
            cond = z3.And(new) if new else z3.BoolVal(True)
            if out[0] == "ok":
                res.append((cond, out[1] is not None, out[1]))
            elif out[0] == "exc":
                res.append((cond, "exc", out[1]))
            else:
                raise Unsupported("control flow in a comprehension")
        try:
            self.explore(run, onp)
        finally:
            self.suppress -= 1
        for f in axioms.values():
            self.axiom(z3.ForAll([j], f) if self.mentions(f, j) else f)
        return j, res

    def skolem(self, j, cond, terms):
        """Constants introduced while evaluating at index j become functions of j."""
        return cond, terms

    def sym_comp(self, e, cf, kind, g, it, n):
        elts = [e.key, e.value] if kind == "dict" else [e.elt]
        if kind == "gen":
            return GenSym(self, e, cf, g, it, n)
        j, res = self.generic_elem(g, cf, it, elts)
        self.check_comp_exc(res)
        self.no_new_consts(res, j)
        if kind == "list" and not g.ifs:
            b = self.fresh(TupS, "comp")
            self.assume(tlen(b) == n)
            for cond, kept, ts in res:
                self.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n, cond), tat(b, j) == ts[0]), patterns=[tat(b, j)]))
            return self.alloc("list", Seq(b, z3.IntVal(0), tlen(b)))
        if kind == "list":
            # filtered: order-preserving selection, described by membership only
            b = self.fresh(TupS, "comp")
            self.assume(z3.And(tlen(b) >= 0, tlen(b) <= n))
            pos = z3.Function(f"pos!{self.nfresh}", Int, Int)
            i = z3.Int("i!c")
            alls = []
            for cond, kept, ts in res:
                if kept:
                    alls.append(z3.And(z3.substitute(cond, (j, pos(i))), tat(b, i) == z3.substitute(ts[0], (j, pos(i)))))
            self.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < tlen(b)), z3.And(0 <= pos(i), pos(i) < n, z3.Or(alls))), patterns=[tat(b, i)]))
            inv = z3.Function(f"inv!{self.nfresh}", Int, Int)
            for cond, kept, ts in res:
                if kept:
                    self.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n, cond), z3.And(0 <= inv(j), inv(j) < tlen(b), pos(inv(j)) == j)), patterns=[inv(j)]))
            return self.alloc("list", Seq(b, z3.IntVal(0), tlen(b)))
        if kind == "set":
            s = self.fresh(SetS, "compset")
            x = z3.Const("x!c", V)
            alls = [z3.And(cond, ts[0] == x) for cond, kept, ts in res if kept]
            self.assume(z3.ForAll([x], z3.Select(s, x) == z3.Exists([j], z3.And(0 <= j, j < n, z3.Or(alls)))))
            return self.alloc("set", s)
        # dict: later keys win
        has, get = self.fresh(SetS, "comph"), self.fresh(MapS, "compg")
        last = z3.Function(f"last!{self.nfresh}", V, Int)
        x = z3.Const("x!c", V)
        key = lambda jj: z3.Or([z3.And(z3.substitute(c, (j, jj)), z3.substitute(ts[0], (j, jj)) == x) for c, k, ts in res if k])
        val = lambda jj: z3.And([z3.Implies(z3.substitute(c, (j, jj)), z3.Select(get, x) == z3.substitute(ts[1], (j, jj))) for c, k, ts in res if k])
        self.assume(z3.ForAll([x], z3.Implies(z3.Select(has, x), z3.And(0 <= last(x), last(x) < n, key(last(x)), val(last(x)))), patterns=[z3.Select(has, x)]))
        for c, k, ts in res:
            if k:
                self.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n, c), z3.And(z3.Select(has, ts[0]), last(ts[0]) >= j)), patterns=[ts[0]] if not z3.is_const(ts[0]) and self.mentions(ts[0], j) else []))
        return self.alloc("dict", ("s", has, get, None))

    def mentions(self, t, c):
        seen = set()
        st = [t]
        while st:
            x = st.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.eq(x, c):
                return True
            st.extend(x.children())
        return False

    def check_comp_exc(self, res):
        for cond, kept, v in res:
            if kept == "exc":
                raise Unsupported(f"comprehension element may raise {v}")

    def no_new_consts(self, res, j):
        """Constants created while evaluating the generic element would have to
        depend on the index; refuse instead of being unsound."""
        jn = int(j.decl().name().split("!")[-1])
        for cond, kept, ts in res:
            for t in [cond] + list(ts or []):
                st, seen = [t], set()
                while st:
                    x = st.pop()
                    if x.get_id() in seen:
                        continue
                    seen.add(x.get_id())
                    if z3.is_quantifier(x):
                        st.append(x.body())
                        continue
                    if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and not z3.eq(x, j):
                        nm = x.decl().name()
                        if "!" in nm and nm.split("!")[-1].isdigit() and int(nm.split("!")[-1]) > jn:
                            raise Unsupported("fresh value inside a comprehension over a symbolic iterable")
                    st.extend(x.children())

    def quantify(self, gen, forall):
        """all(...) / any(...) over a generator of symbolic length, as a Bool."""
        j, res = self.generic_elem(gen.g, gen.cf, gen.it, [gen.e.elt])
        self.no_new_consts(res, j)
        excs = [r for r in res if r[1] == "exc"]
        conds = []
        for cond, kept, ts in res:
            if kept == "exc":
                continue
            if kept:
                tr = self.truth(self.from_V(ts[0]))
                tr = z3.BoolVal(tr) if isinstance(tr, bool) else tr
                conds.append((cond, tr))
        rng = z3.And(j >= 0, j < gen.n)
        if excs:
            stop = z3.Exists([j], z3.And(rng, z3.Or([c for c, _, _ in excs])))
            if self.branch(stop):
                raise Unsupported("generator element may raise")
        if forall:
            body = z3.And([z3.Implies(c, t) for c, t in conds]) if conds else z3.BoolVal(True)
            return self.mkbool(z3.ForAll([j], z3.Implies(rng, body)))
        body = z3.Or([z3.And(c, t) for c, t in conds]) if conds else z3.BoolVal(False)
        return self.mkbool(z3.Exists([j], z3.And(rng, body)))

    def e_Yield(self, e, fr):
        v = None if e.value is None else self.ev(e.value, fr)
        f = fr
        y = self.fget(f, "$yield")
        if y is MISSING:
            raise Unsupported("yield")
        self.put_list(y, self.concat(self.list_tuple(y), Tup([v])))
        return None

    def e_YieldFrom(self, e, fr):
        y = self.fget(fr, "$yield")
        self.put_list(y, self.concat(self.list_tuple(y), self.materialise(self.ev(e.value, fr))))
        return None

    # ----------------------------------------------------------- calls
    def e_Call(self, e, fr):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            f = fr
            while self.frameinfo[f][4] == "comp":
                f = self.frameinfo[f][1]
            func = self.frameinfo[f][2]
            first = func.node.args.args[0].arg
            return SuperV(func.qual.rsplit(".", 1)[0], self.fget(f, first))
        fv = self.ev(e.func, fr)
        args = Tup([])
        for a in e.args:
            if isinstance(a, ast.Starred):
                args = self.concat(args, self.materialise(self.ev(a.value, fr)))
            else:
                args = self.concat(args, Tup([self.ev(a, fr)]))
        kwargs = {}
        star = None
        for k in e.keywords:
            v = self.ev(k.value, fr)
            if k.arg is None:
                if isinstance(v, Ref) and self.rec(v).data[0] == "c" and all(isinstance(x, str) for x, _ in self.rec(v).data[1]):
                    for x, y in self.rec(v).data[1]:
                        kwargs[x] = y
                else:
                    if star is not None:
                        raise Unsupported("several ** arguments")
                    star = v
            else:
                kwargs[k.arg] = v
        if isinstance(args, Tup) and star is None:
            return self.call(fv, args.items, kwargs)
        if isinstance(fv, (Func, Bound)):
            f = fv.func if isinstance(fv, Bound) else fv
            if isinstance(f, Func) and f.node.args.vararg and not f.node.args.args and isinstance(args, Seq):
                return self.call(fv, [StarArgs(args)], dict(kwargs, **({"**": star} if star is not None else {})))
        r = self.world.hook("call_star", self, fv, args, kwargs, star)
        if r is not None:
            return r[0]
        if isinstance(args, Seq):
            raise Unsupported("call with an unknown number of arguments")
        return self.call(fv, args.items, dict(kwargs, **{"**": star}))

    def call(self, f, args, kwargs):
        if isinstance(f, Func):
            return self.call_func(f, args, kwargs)
        if isinstance(f, Bound):
            if isinstance(f.func, NativeFn):
                return f.func.fn(self, [f.self_] + list(args), kwargs)
            return self.call(f.func, [f.self_] + list(args), kwargs)
        if isinstance(f, NativeFn):
            return f.fn(self, list(args), kwargs)
        if isinstance(f, Wrapped) and f.kind in ("staticmethod", "classmethod"):
            return self.call(f.func, args, kwargs)
        if isinstance(f, Ext):
            r = self.world.ext_call(self, f, list(args), kwargs)
            if r is MISSING:
                raise Unsupported(f"external function {f.path}")
            return r
        if isinstance(f, Ref):
            r = self.rec(f)
            if r.kind == "class":
                return self.instantiate(f, args, kwargs)
            m = self.lookup_special(f, "__call__")
            if m is not None:
                return self.call(m, args, kwargs)
            raise PyExc("TypeError")
        if isinstance(f, Sym):
            r = self.world.hook("call_opaque", self, f, args, kwargs)
            if r is not None:
                return r[0]
            raise Unsupported("call of an unknown object")
        if isinstance(f, ExcV):
            raise PyExc("TypeError")
        raise Unsupported(f"call of {f}")

    def instantiate(self, cls, args, kwargs):
        r = self.rec(cls)
        new = self.class_attr(cls, "__new__")
        if isinstance(new, (Func, Wrapped)):
            fn = new.func if isinstance(new, Wrapped) else new
            self.call(fn, [cls] + list(args), kwargs)
            raise Unsupported("__new__")
        for b in self.mro(cls):
            if isinstance(b, Ext) and b.path.startswith("builtins.") and exc_isa(b.path[9:], "Exception"):
                return ExcV(b.path[9:], args)
        inst_ = self.alloc("inst", (cls, {}))
        init = self.class_attr(cls, "__init__")
        if init is not MISSING and isinstance(init, (Func, NativeFn)):
            self.call(Bound(init, inst_), args, kwargs)
        return inst_

    def call_func(self, f, args, kwargs):
        c = self.contracts.get(f.qual)
        if c is not None and c.usable(self, f, args, kwargs):
            self.used_contracts.add(f.qual)
            bound = self.bind_args(f, args, kwargs)
            return c.apply(self, bound)
        return self.inline(f, args, kwargs)

    def bind_args(self, f, args, kwargs):
        """name -> value by Python's rules (TypeError when the call does not fit)."""
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        out = {}
        kwargs = dict(kwargs)
        starkw = kwargs.pop("**", None)
        if len(args) == 1 and isinstance(args[0], StarArgs):
            if names or not a.vararg:
                raise Unsupported("unknown number of positional arguments")
            out[a.vararg.arg] = args[0].seq
            args = []
            extra_done = True
        else:
            extra_done = False
        for i, v in enumerate(args):
            if i < len(names):
                out[names[i]] = v
            elif not a.vararg:
                raise PyExc("TypeError")
        if a.vararg and not extra_done:
            out[a.vararg.arg] = Tup(list(args[len(names):]))
        kwextra = {}
        allowed = set(x.arg for x in a.args + a.kwonlyargs)
        for k, v in kwargs.items():
            if k in allowed:
                if k in out:
                    raise PyExc("TypeError")
                out[k] = v
            elif a.kwarg:
                kwextra[k] = v
            else:
                raise PyExc("TypeError")
        if starkw is not None and not a.kwarg:
            raise Unsupported("** to a function without **")
        if a.kwarg:
            if starkw is not None:
                if kwextra:
                    raise Unsupported("** with keywords")
                if isinstance(starkw, Sym):
                    starkw = self.opaque_dict(starkw)
                out[a.kwarg.arg] = self.alloc("dict", self.rec(starkw).data)
            else:
                out[a.kwarg.arg] = self.alloc("dict", ("c", tuple(kwextra.items())))
        nd = len(f.defaults)
        for i, n in enumerate(names):
            if n not in out:
                j = i - (len(names) - nd)
                if j < 0:
                    raise PyExc("TypeError")
                out[n] = f.defaults[j]
        for x in a.kwonlyargs:
            if x.arg not in out:
                if x.arg not in f.kwdefaults:
                    raise PyExc("TypeError")
                out[x.arg] = f.kwdefaults[x.arg]
        return out

    def inline(self, f, args, kwargs):
        if self.active.count(f.qual) >= 1 and not self.world.may_recurse(f.qual):
            raise Unsupported(f"recursion in {f.qual} without a contract")
        if len(self.active) > self.MAXDEPTH:
            raise Unsupported("call depth")
        bound = self.bind_args(f, args, kwargs)
        self.inlined.add(f.qual)
        return self.run_body(f, bound)

    def run_body(self, f, bound):
        locs = self.world.names_of(f)[0]
        fr = self.new_frame(f.module, f.closure, f, locs, "fn")
        self.heap[fr] = Rec("frame", dict(bound))
        self.active = self.active + [f.qual]
        self.frames = self.frames + [f.qual]
        depth = len(self.active)
        try:
            if isinstance(f.node, ast.Lambda):
                return self.ev(f.node.body, fr)
            gen = self.world.is_gen(f)
            if gen:
                y = self.new_list([])
                self.fset(fr, "$yield", y)
            try:
                self.block(f.node.body, fr)
                r = None
            except Ret as e:
                r = e.value
            if gen:
                return GenList(y)
            return r
        finally:
            self.active = self.active[: depth - 1]
            self.frames = self.frames[: depth - 1]

    # ----------------------------------------------------------- attributes
    def getattr(self, o, name, default=MISSING):
        try:
            return self.getattr_(o, name)
        except PyExc as e:
            if default is not MISSING and exc_isa(e.cls, "AttributeError"):
                return default
            raise

    def getattr_(self, o, name):
        h = self.world.hook("getattr", self, o, name)
        if h is not None:
            return h[0]
        if isinstance(o, ModV):
            v = self.world.module_get(self, o.name, name)
            if v is not MISSING:
                return v
            raise PyExc("AttributeError", name)
        if isinstance(o, Ext):
            v = self.world.ext_attr(self, o, name)
            if v is MISSING:
                raise PyExc("AttributeError", name)
            return v
        if isinstance(o, SuperV):
            return self.super_attr(o, name)
        if isinstance(o, (ClassDict, InstDict)):
            if name in ("items", "keys", "values", "get", "copy"):
                return self.getattr_(self.plain_dict(o), name)
            raise Unsupported(f"attribute {name} of a namespace")
        if isinstance(o, Ref):
            r = self.rec(o)
            if r.kind == "inst":
                return self.inst_attr(o, r, name)
            if r.kind == "class":
                return self.cls_attr(o, r, name)
            m = self.world.method(r.kind, name)
            if m is not None:
                return Bound(m, o)
            self.lacks(name, set, frozenset, list, dict)
            raise PyExc("AttributeError", name)
        if name == "__class__":
            if isinstance(o, Sym) and self.kind_of(o) is None:
                w = self.settle(o)
                if not isinstance(w, Sym):
                    return self.getattr_(w, name)
                o = w
            return self.type_of(o)
        if isinstance(o, (str,)) or (isinstance(o, Sym) and self.kind_of(o) == "S"):
            m = self.world.method("str", name)
            if m is not None:
                return Bound(m, o)
        if isinstance(o, (Tup, Seq)):
            m = self.world.method("tuple", name)
            if m is not None:
                return Bound(m, o)
            self.lacks(name, tuple)
            raise PyExc("AttributeError", name)
        if isinstance(o, Func):
            v = self.world.func_attr(self, o, name)
            if v is not MISSING:
                return v
            if name == "__name__":
                return o.qual.rsplit(".", 1)[-1]
            if name == "__module__":
                return o.module
            if name == "__qualname__":
                return o.qual[len(o.module) + 1:]
            self.lacks(name, type(lambda: 0))
            raise PyExc("AttributeError", name)
        if isinstance(o, Wrapped):
            if name == "__func__":
                return o.func
        if isinstance(o, Sym):
            return self.opaque_attr(o, name)
        if o is None or isinstance(o, (bool, int, SInt, SBool)) or o is Ellipsis:
            if name == "__class__":
                return self.type_of(o)
            self.lacks(name, type(None), bool, int, type(Ellipsis))
            raise PyExc("AttributeError", name)
        if isinstance(o, Bound) and name in ("__func__",):
            return o.func
        if isinstance(o, ExcV):
            return self.freshV("excattr")
        if isinstance(o, GenList):
            raise PyExc("AttributeError", name)
        raise Unsupported(f"attribute {name} of {o}")

    def lacks(self, name, *types):
        """A builtin attribute that exists but is not modelled is outside the subset, not an AttributeError."""
        if any(hasattr(t, name) for t in types):
            raise Unsupported(f"attribute {name} of a {types[0].__name__}")

    def opaque_attr(self, o, name):
        t = o.t
        k = self.kind_of(o)
        if k == "X":
            v = self.world.expr_attr(self, o, name)
            if v is not MISSING:
                return v
        if k is None:
            # a known method of some kind of value?
            w = self.settle(o)
            if not isinstance(w, Sym):
                return self.getattr_(w, name)
            o, t = w, w.t
            k = self.kind_of(o)
            if k in ("X", "S"):
                return self.getattr_(o, name)
        if k == "T":
            w = self.as_seq(o)
            if self.world.method("tuple", name) is not None:
                return Bound(self.world.method("tuple", name), w)
        if k == "O":
            v = self.world.obj_attr(self, o, name)
            if v is not MISSING:
                return v
        if not self.branch(has_attr(t, str_const(name))):
            raise PyExc("AttributeError", name)
        return self.from_V(get_attr(t, str_const(name)))

    def inst_attr(self, o, r, name):
        cls, attrs = r.data
        if name == "__class__":
            return cls
        if name == "__dict__":
            return InstDict(o)
        if name in attrs:
            return attrs[name]
        f = self.class_attr(cls, name)
        if f is not MISSING:
            if isinstance(f, Wrapped) and f.kind == "property":
                return self.call(f.func, [o], {})
            return self.bind(f, o, cls)
        ga = self.class_attr(cls, "__getattr__")
        if ga is not MISSING:
            return self.call(Bound(ga, o), [name], {})
        v = self.world.hook("inst_attr", self, o, name)
        if v is not None:
            return v[0]
        if isinstance(cls, Ext):
            rc = real_attr(cls.path, name)
            if rc:
                raise Unsupported(f"attribute {name} of a {cls.path}")
        raise PyExc("AttributeError", name)

    def cls_attr(self, o, r, name):
        if name == "__name__":
            return r.data[0]
        if name == "__bases__":
            return Tup(list(r.data[1]))
        if name == "__dict__":
            return ClassDict(o)
        if name == "__mro__":
            return Tup(self.mro(o))
        meta = r.data[3]
        f = self.class_attr(o, name)
        if f is not MISSING:
            if isinstance(f, Wrapped):
                if f.kind == "staticmethod":
                    return f.func
                if f.kind == "classmethod":
                    return Bound(f.func, o)
            return f
        if isinstance(meta, Ref):
            f = self.class_attr(meta, name)
            if f is not MISSING:
                return self.bind(f, o, meta)
        raise PyExc("AttributeError", name)

    def super_attr(self, s, name):
        o = s.obj
        if isinstance(o, Ref):
            r = self.rec(o)
            cls = r.data[0] if r.kind == "inst" else None
            order = None
            if cls is not None:
                order = self.mro(cls)
            else:
                # a class: method of the metaclass, or a classmethod of the class
                meta = r.data[3]
                for cand in ([meta] if isinstance(meta, Ref) else []) + [o]:
                    m = self.mro(cand)
                    if any(not isinstance(c, Ext) and self.world.class_qual.get(c.id) == s.qual for c in m):
                        order = m
                        break
            if order is not None:
                seen = False
                for c in order:
                    if seen:
                        if isinstance(c, Ext):
                            v = self.world.ext_super(self, c, name, o)
                            if v is not None:
                                return v
                            continue
                        if name in self.rec(c).data[2]:
                            return self.bind(self.rec(c).data[2][name], o, c)
                    elif not isinstance(c, Ext) and self.world.class_qual.get(c.id) == s.qual:
                        seen = True
                v = self.world.object_super(self, o, name)
                if v is not None:
                    return v
        if isinstance(o, Sym):
            v = self.world.opaque_super(self, s, name)
            if v is not None:
                return v
        raise Unsupported(f"super().{name}")

    def setattr(self, o, name, v):
        h = self.world.hook("setattr", self, o, name, v)
        if h is not None:
            return
        if isinstance(o, Ref):
            r = self.rec(o)
            if r.kind == "inst":
                f = self.class_attr(r.data[0], "__setattr__")
                if f is not MISSING:
                    self.call(Bound(f, o), [name, v], {})
                    return
                self.raw_setattr(o, name, v)
                return
            if r.kind == "class":
                n, b, ns, meta = r.data
                ns = dict(ns)
                ns[name] = v
                self.put(o, (n, b, ns, meta))
                return
        if isinstance(o, ModV):
            self.world.module_set(self, o.name, name, v)
            return
        if isinstance(o, Func):
            d = dict(self.heap["fattrs"].data)
            d[(o.qual, o.closure, name)] = v
            self.heap["fattrs"] = Rec("fattrs", d)
            return
        raise Unsupported(f"attribute assignment on {o}")

    def raw_setattr(self, o, name, v):
        r = self.rec(o)
        d = dict(r.data[1])
        d[name] = v
        self.put(o, (r.data[0], d))

    def type_of(self, v):
        if isinstance(v, bool) or isinstance(v, SBool):
            return Ext("builtins.bool")
        if isinstance(v, (int, SInt)):
            return Ext("builtins.int")
        if v is None:
            return Ext("types.NoneType")
        if v is Ellipsis:
            return Ext("types.EllipsisType")
        if isinstance(v, str):
            return Ext("builtins.str")
        if isinstance(v, Tup) or isinstance(v, Seq) and v.plain:
            return Ext("builtins.tuple")
        if isinstance(v, Seq):
            self.axiom(is_("O", typeof(self.to_V(v))))
            return Sym(typeof(self.to_V(v)))
        if isinstance(v, Ref):
            r = self.rec(v)
            if r.kind == "inst":
                return r.data[0]
            if r.kind == "class":
                return r.data[3] if r.data[3] is not None else Ext("builtins.type")
            return Ext("builtins." + r.kind)
        if isinstance(v, ModV):
            return Ext("types.ModuleType")
        if isinstance(v, Ext):
            t = self.world.ext_type(v)
            if t is not None:
                return t
            return Sym(typeof(self.to_V(v)))
        if isinstance(v, Func):
            return Ext("types.FunctionType")
        if isinstance(v, Wrapped):
            return Ext("builtins." + v.kind)
        if isinstance(v, Sym):
            w = self.settle(v) if self.kind_of(v) is None else v
            if not isinstance(w, Sym):
                return self.type_of(w)
            self.axiom(is_("O", typeof(w.t)))
            return Sym(typeof(w.t))
        raise Unsupported(f"type of {v}")


class SuperV(Val):
    def __init__(self, qual, obj):
        self.qual, self.obj = qual, obj


class ExcV(Val):
    def __init__(self, cls, args):
        self.cls, self.args = cls, args


class StarArgs(Val):
    def __init__(self, seq):
        self.seq = seq


class InstDict(Val):
    def __init__(self, ref):
        self.ref = ref


class ClassDict(Val):
    def __init__(self, ref):
        self.ref = ref


def real_attr(path, name):
    from world import real, MISSING as M
    r = real(path)
    return r is not M and hasattr(r, name)


class GenList(Val):
    """The (eagerly collected) values of a generator."""

    def __init__(self, ref):
        self.ref = ref


class GenV(Val):
    """Generator expression over an iterable of known length."""

    def __init__(self, thunk, eng):
        self.thunk = thunk


class GenSym(Val):
    def __init__(self, eng, e, cf, g, it, n):
        self.e, self.cf, self.g, self.it, self.n = e, cf, g, it, n


def generic_templates(lv):
    """Candidates that make sense for any loop."""
    out = []
    for x, a, b in lv.modvars():
        if isinstance(a, bool) and isinstance(b, SBool):
            out.append((("const", x), b.t == a))
        if isinstance(a, int) and not isinstance(a, bool) and isinstance(b, SInt):
            out.append((("isk", x), b.t == lv.k))
            out.append((("ent+k", x), b.t == a + lv.k))
        if isinstance(a, int) and not isinstance(a, bool) and isinstance(b, int):
            out.append((("isk", x), z3.IntVal(b) == lv.k))
            out.append((("ent+k", x), z3.IntVal(b) == a + lv.k))
        if isinstance(a, bool) and isinstance(b, bool):
            out.append((("const", x), z3.BoolVal(a == b)))
    return out
