"""Models of builtins and of the library functions the verified code calls."""
import z3
from values import *
from engine import *
from engine import MISSING
from interp import *

callable_u = z3.Function("callable_u", V, Bool)
hash_u = z3.Function("hash_u", V, Int)
strlit = z3.Function("str_starts", StrS, StrS, Bool)


def pybool(eng, f):
    return eng.mkbool(f)


def install(w):
    H = w.ext_handlers
    M = w.meths

    def ext(path):
        def deco(fn):
            H[path] = fn
            return fn
        return deco

    def meth(*kinds):
        def deco(fn):
            name = fn.__name__.rstrip("_")
            for k in kinds:
                M[(k, name)] = NativeFn(f"{k}.{name}", fn)
            return fn
        return deco

    # ------------------------------------------------------------ builtins
    @ext("builtins.isinstance")
    def _(eng, a, k):
        return eng.mkbool(w.isinst(eng, a[0], a[1]))

    @ext("builtins.issubclass")
    def _(eng, a, k):
        r = w.hook("issubclass", eng, a[0], a[1])
        if r is not None:
            return r[0]
        return eng.mkbool(w.issub(eng, a[0], a[1]))

    @ext("builtins.len")
    def _(eng, a, k):
        v = a[0]
        if isinstance(v, Sym):
            h = w.hook("len", eng, v)
            if h is not None:
                return h[0]
            kk = eng.kind_of(v)
            if kk is None:
                v = eng.settle(v)
                kk = eng.kind_of(v)
            if kk == "O":
                ob = V.oval(v.t)
                # a mapping's length is that of its keys
                if eng.branch(w.oinst(eng, v.t, Ext("builtins.dict"))):
                    return SInt(tlen(keysof(ob)))
                eng.assume(tlen(seqof(ob)) >= 0)
                return SInt(tlen(seqof(ob)))
            if kk == "T":
                v = eng.as_seq(v)
            if kk == "S":
                n = eng.fresh(Int, "strlen")
                eng.assume(n >= 0)
                return SInt(n)
        if isinstance(v, str):
            return len(v)
        if isinstance(v, (Tup, Seq)):
            n = eng.seq_len(v)
            return n if isinstance(n, int) else eng.from_V(V.I(n))
        if isinstance(v, Ref):
            r = eng.rec(v)
            if r.kind == "list":
                return H["builtins.len"](eng, [eng.list_tuple(v)], {})
            if r.kind == "dict":
                if r.data[0] == "c" and all(eng.key_conc(x) for x, _ in r.data[1]):
                    return len(r.data[1])
                d = eng.dict_symbolic(v)
                c = card(d[1])
                eng.assume(c >= 0)
                return SInt(c)
            if r.kind == "set":
                c = card(r.data)
                eng.assume(z3.And(c >= 0, (c == 0) == (r.data == EMPTY)))
                return SInt(c)
            m = eng.lookup_special(v, "__len__")
            if m is not None:
                return eng.call(m, [], {})
        if v is None or isinstance(v, (int, SInt, SBool)) or v is Ellipsis:
            raise PyExc("TypeError")
        raise Unsupported(f"len of {v}")

    @ext("builtins.range")
    def _(eng, a, k):
        xs = [eng.as_int(x) for x in a]
        if len(xs) == 1:
            xs = [0] + xs
        if len(xs) == 3:
            if all(isinstance(x, int) for x in xs):
                return Tup(list(range(*xs)))
            raise Unsupported("range with a step")
        lo, hi = xs
        if isinstance(lo, int) and isinstance(hi, int):
            return Iter(max(hi - lo, 0), lambda i: lo + i)
        n = z3.simplify(z3.If(hi > lo, hi - lo, z3.IntVal(0)))
        return Iter(n, lambda i: eng.from_V(V.I(z3.simplify((z3.IntVal(lo) if isinstance(lo, int) else lo) + i))))

    @ext("builtins.enumerate")
    def _(eng, a, k):
        it = eng.iterate(a[0])
        st = a[1] if len(a) > 1 else k.get("start", 0)
        if not isinstance(st, int):
            raise Unsupported("enumerate start")

        def at(i):
            kx = i + st if isinstance(i, int) else eng.from_V(V.I(z3.simplify(i + st)))
            return Tup([kx, it.at(i)])
        return Iter(it.n, at)

    @ext("builtins.zip")
    def _(eng, a, k):
        its = [eng.iterate(x) for x in a]
        ns = [i.n for i in its]
        if all(isinstance(n, int) for n in ns):
            n = min(ns) if ns else 0
        else:
            n = ns[0] if not isinstance(ns[0], int) else z3.IntVal(ns[0])
            for m in ns[1:]:
                m = z3.IntVal(m) if isinstance(m, int) else m
                if z3.eq(z3.simplify(m), z3.simplify(n)):
                    continue
                n = m if eng.branch(m <= n) else n
            n = z3.simplify(n)
        return Iter(n, lambda i: Tup([x.at(i) for x in its]))

    @ext("builtins.reversed")
    def _(eng, a, k):
        it = eng.iterate(a[0])
        if isinstance(it.n, int):
            return Iter(it.n, lambda i: it.at(it.n - 1 - i) if isinstance(i, int) else it.at(z3.simplify(it.n - 1 - i)))
        return Iter(it.n, lambda i: it.at(z3.simplify(it.n - 1 - i)))

    @ext("builtins.tuple")
    def _(eng, a, k):
        if not a:
            return Tup([])
        v = a[0]
        if not isinstance(v, (Tup, Seq)):
            v = eng.list_tuple(v) if isinstance(v, Ref) and eng.rec(v).kind == "list" else eng.materialise(v)
        return Seq(v.base, v.lo, v.n, True) if isinstance(v, Seq) else v

    @ext("builtins.list")
    def _(eng, a, k):
        return eng.new_list(eng.materialise(a[0]) if a else [])

    def mkset(eng, a, kind="set"):
        if not a:
            return eng.alloc("set", EMPTY)
        v = a[0]
        if isinstance(v, Ref) and eng.rec(v).kind == "set":
            return eng.alloc("set", eng.rec(v).data)
        if isinstance(v, Ref) and eng.rec(v).kind == "dict":
            return eng.alloc("set", eng.dict_symbolic(v)[1] if eng.rec(v).data[0] == "s" else conc_keys(eng, v))
        if isinstance(v, Sym) and eng.kind_of(v) == "O":
            # the elements of an opaque collection (keys for a mapping)
            ob = V.oval(v.t)
            s = eng.fresh(SetS, "oset")
            kx = z3.Const("k!os", V)
            if eng.branch(inst(v.t, eng.to_V(Ext("builtins.dict")))):
                eng.assume(z3.ForAll([kx], z3.Select(s, kx) == mhas(ob, kx), patterns=[z3.Select(s, kx)]))
                eng.assume(z3.ForAll([kx], z3.Select(s, kx) == mhas(ob, kx), patterns=[mhas(ob, kx)]))
                return eng.alloc("set", s)
            v = Seq(seqof(ob), z3.IntVal(0), tlen(seqof(ob)))
        q = eng.materialise(v)
        if isinstance(q, Tup):
            s = EMPTY
            for x in q.items:
                s = z3.Store(s, eng.to_V(x), z3.BoolVal(True))
            return eng.alloc("set", s)
        s = eng.fresh(SetS, "setof")
        x, i = z3.Const("x!so", V), z3.Int("i!so")
        ix = z3.Function(f"at!{eng.nfresh}", V, Int)
        # positions in the whole base tuple: the patterns then match whatever the segment
        hi = z3.simplify(q.lo + q.n)
        eng.assume(z3.ForAll([x], z3.Implies(z3.Select(s, x), z3.And(q.lo <= ix(x), ix(x) < hi, tat(q.base, ix(x)) == x)), patterns=[z3.Select(s, x)]))
        eng.assume(z3.ForAll([i], z3.Implies(z3.And(q.lo <= i, i < hi), z3.Select(s, tat(q.base, i))), patterns=[tat(q.base, i)]))
        return eng.alloc("set", s)

    def conc_keys(eng, v):
        s = EMPTY
        for x, _ in eng.rec(v).data[1]:
            s = z3.Store(s, eng.to_V(x), z3.BoolVal(True))
        return s
    w.mkset = mkset
    H["builtins.set"] = lambda eng, a, k: mkset(eng, a)
    H["builtins.frozenset"] = lambda eng, a, k: mkset(eng, a)

    @ext("builtins.dict")
    def _(eng, a, k):
        d = eng.alloc("dict", ("c", ()))
        if a:
            eng.dict_update(d, a[0])
        for kk, vv in k.items():
            if kk == "**":
                eng.dict_update(d, vv)
            else:
                eng.dict_set(d, kk, vv)
        return d
    H["collections.OrderedDict"] = H["builtins.dict"]

    @ext("builtins.hasattr")
    def _(eng, a, k):
        o, n = a
        if not isinstance(n, str):
            raise Unsupported("hasattr with a computed name")
        if isinstance(o, Sym) and eng.kind_of(o) == "O" and not eng.hooks.get("getattr") and w.obj_attr(eng, o, n) is MISSING:
            return eng.mkbool(has_attr(o.t, str_const(n)))
        try:
            eng.getattr(o, n)
            return True
        except PyExc as e:
            if exc_isa(e.cls, "AttributeError"):
                return False
            raise

    @ext("builtins.getattr")
    def _(eng, a, k):
        o, n = a[0], a[1]
        if not isinstance(n, str):
            r = w.hook("getattr_dyn", eng, o, n, a[2] if len(a) > 2 else MISSING)
            if r is not None:
                return r[0]
            n2 = eng.from_V(eng.to_V(n))
            if isinstance(n2, str):
                n = n2
            elif isinstance(o, Sym) and isinstance(n2, Sym) and eng.kind_of(n2) == "S":
                t, s = o.t, V.sval(n2.t)
                if eng.branch(has_attr(t, s)):
                    return eng.from_V(get_attr(t, s))
                if len(a) > 2:
                    return a[2]
                raise PyExc("AttributeError")
            else:
                raise Unsupported("getattr with a computed name")
        return eng.getattr(o, n, a[2] if len(a) > 2 else MISSING)

    @ext("builtins.setattr")
    def _(eng, a, k):
        r = w.hook("setattr_dyn", eng, a[0], a[1], a[2])
        if r is not None:
            return None
        if not isinstance(a[1], str):
            raise Unsupported("setattr with a computed name")
        eng.setattr(a[0], a[1], a[2])

    @ext("builtins.callable")
    def _(eng, a, k):
        v = a[0]
        if isinstance(v, (Func, Bound, NativeFn)):
            return True
        if isinstance(v, Ext):
            return eng.mkbool(callable_u(eng.to_V(v)))
        if isinstance(v, Ref):
            r = eng.rec(v)
            return r.kind == "class" or eng.lookup_special(v, "__call__") is not None
        if isinstance(v, Sym):
            return eng.mkbool(z3.And(is_("O", v.t), callable_u(v.t)))
        return False

    @ext("builtins.type")
    def _(eng, a, k):
        if len(a) == 1:
            r = w.hook("type", eng, a[0])
            if r is not None:
                return r[0]
            return eng.type_of(a[0])
        r = w.hook("newtype", eng, a)
        if r is not None:
            return r[0]
        return make_class(eng, a[0], a[1], a[2])

    def make_class(eng, name, bases, body):
        """type(name, bases, body): the metaclass of the bases is used."""
        bs = eng.materialise(bases)
        if not isinstance(bs, Tup):
            raise Unsupported("type() with unknown bases")
        d = eng.rec(body).data
        if d[0] != "c":
            raise Unsupported("type() with an unknown body")
        ns = {kk: vv for kk, vv in d[1]}
        meta = None
        for b in bs.items:
            if isinstance(b, Ref) and eng.rec(b).data[3] is not None:
                meta = eng.rec(b).data[3]
                break
        ref = eng.alloc("class", (name, tuple(bs.items), ns, meta))
        for b in bs.items:
            if isinstance(b, Ref):
                f = eng.class_attr(b, "__init_subclass__")
                if f is not MISSING:
                    eng.call(Bound(f.func if isinstance(f, Wrapped) else f, ref), [], {})
                    break
        if isinstance(meta, Ref):
            f = eng.class_attr(meta, "__init__")
            if isinstance(f, Func):
                eng.call(Bound(f, ref), [name, bs, body], {})
        return ref
    w.make_class = make_class

    @ext("builtins.hash")
    def _(eng, a, k):
        v = a[0]
        if isinstance(v, Ref):
            m = eng.lookup_special(v, "__hash__")
            if m is not None:
                return eng.call(m, [], {})
            if eng.rec(v).kind in ("list", "dict", "set"):
                raise PyExc("TypeError")
        return SInt(hash_v(eng, v))

    def hash_v(eng, v):
        if isinstance(v, Tup):
            h = z3.IntVal(len(v.items))
            f = z3.Function("hashmix", Int, Int, Int)
            for x in v.items:
                h = f(h, hash_v(eng, x))
            return h
        if isinstance(v, str):
            return z3.Function("hash_s", StrS, Int)(str_const(v))
        return hash_u(eng.to_V(v))

    @ext("builtins.id")
    def _(eng, a, k):
        return SInt(z3.Function("idhash", V, Int)(eng.to_V(a[0])))

    @ext("builtins.repr")
    def _(eng, a, k):
        v = a[0]
        if isinstance(v, Ref):
            m = eng.lookup_special(v, "__repr__")
            if m is not None and isinstance(m, Bound) and eng.rec(v).kind == "class":
                return eng.call(m, [], {})
        return eng.freshS()

    @ext("builtins.str")
    def _(eng, a, k):
        if not a:
            return ""
        if isinstance(a[0], str):
            return a[0]
        if isinstance(a[0], int) and not isinstance(a[0], bool):
            return str(a[0])
        if isinstance(a[0], Sym) and eng.kind_of(a[0]) == "S":
            return a[0]
        return eng.freshS()
    H["builtins.format"] = lambda eng, a, k: eng.freshS()

    @ext("builtins.print")
    def _(eng, a, k):
        eng.events(("print", list(a)))

    @ext("builtins.all")
    def _(eng, a, k):
        return anyall(eng, a[0], True)

    @ext("builtins.any")
    def _(eng, a, k):
        return anyall(eng, a[0], False)

    def anyall(eng, v, forall):
        if isinstance(v, GenSym):
            return eng.quantify(v, forall)
        if isinstance(v, GenV):
            for x in v.thunk():
                if eng.istrue(x) != forall:
                    return not forall
            return forall
        it = eng.iterate(v)
        if isinstance(it.n, int):
            for i in range(it.n):
                if eng.istrue(it.at(i)) != forall:
                    return not forall
            return forall
        j = z3.Int("i!aa")
        t = eng.truth(it.at(j))
        t = z3.BoolVal(t) if isinstance(t, bool) else t
        rng = z3.And(j >= 0, j < it.n)
        return eng.mkbool(z3.ForAll([j], z3.Implies(rng, t)) if forall else z3.Exists([j], z3.And(rng, t)))

    def maxmin(eng, a, k, mx):
        xs = list(a)
        if len(xs) == 1:
            xs = eng.materialise(xs[0])
            if not isinstance(xs, Tup):
                raise Unsupported("max of a sequence")
            xs = xs.items
        m = xs[0]
        for x in xs[1:]:
            i, j = eng.as_int(m), eng.as_int(x)
            if isinstance(i, int) and isinstance(j, int):
                m = (max if mx else min)(i, j)
            else:
                m = eng.from_V(V.I(z3.simplify(z3.If((j > i) if mx else (j < i), j if not isinstance(j, int) else z3.IntVal(j), i if not isinstance(i, int) else z3.IntVal(i)))))
        return m
    H["builtins.max"] = lambda eng, a, k: maxmin(eng, a, k, True)
    H["builtins.min"] = lambda eng, a, k: maxmin(eng, a, k, False)

    @ext("builtins.abs")
    def _(eng, a, k):
        i = eng.as_int(a[0])
        return abs(i) if isinstance(i, int) else SInt(z3.If(i < 0, -i, i))

    @ext("builtins.sum")
    def _(eng, a, k):
        q = eng.materialise(a[0])
        if isinstance(q, Tup):
            acc = 0
            for x in q.items:
                acc = eng.binop(ast.Add(), acc, x)
            return acc
        raise Unsupported("sum of a sequence")

    @ext("builtins.int")
    def _(eng, a, k):
        if not a:
            return 0
        v = a[0]
        if isinstance(v, Sym):
            kk = eng.kind_of(v)
            if kk == "X":
                x = V.xval(v.t)
                return eng.from_V(V.I(z3.Function("xtoint", ExprS, Int)(x)))
        i = eng.as_int(v)
        return i if isinstance(i, int) else SInt(i)

    @ext("builtins.bool")
    def _(eng, a, k):
        if not a:
            return False
        t = eng.truth(a[0])
        return eng.mkbool(t) if not isinstance(t, bool) else t

    @ext("builtins.object")
    def _(eng, a, k):
        return eng.alloc("inst", (Ext("builtins.object"), {}))

    @ext("builtins.iter")
    def _(eng, a, k):
        return a[0]

    @ext("builtins.next")
    def _(eng, a, k):
        v = a[0]
        if isinstance(v, GenList):
            q = eng.list_tuple(v.ref)
        elif isinstance(v, GenV):
            for x in v.thunk():
                return x
            if len(a) > 1:
                return a[1]
            raise PyExc("StopIteration")
        else:
            q = eng.materialise(v)
        n = eng.seq_len(q)
        e = n > 0
        if eng.branch(e):
            return eng.index(q, 0)
        if len(a) > 1:
            return a[1]
        raise PyExc("StopIteration")

    @ext("builtins.globals")
    def _(eng, a, k):
        m = eng.world.curmodule(eng)
        d = eng.heap["m:" + m].data
        return eng.alloc("dict", ("c", tuple(d.items())))

    def curmodule(eng):
        q = eng.frames[-1]
        parts = q.split(".")
        for i in range(len(parts), 0, -1):
            if "m:" + ".".join(parts[:i]) in eng.heap:
                return ".".join(parts[:i])
        raise Unsupported("globals()")
    w.curmodule = curmodule

    @ext("builtins.super")
    def _(eng, a, k):
        raise Unsupported("super with arguments")

    @ext("builtins.sorted")
    def _(eng, a, k):
        q = eng.materialise(a[0])
        if isinstance(q, Tup) and all(isinstance(x, (int, str)) for x in q.items) and not k:
            return eng.new_list(sorted(q.items))
        raise Unsupported("sorted")

    @ext("functools.reduce")
    def _(eng, a, k):
        q = eng.materialise(a[1])
        r = w.hook("reduce", eng, a[0], q)
        if r is not None:
            return r[0]
        if isinstance(q, Tup):
            xs = list(q.items)
            acc = a[2] if len(a) > 2 else (xs.pop(0) if xs else None)
            if not q.items and len(a) < 3:
                raise PyExc("TypeError")
            for x in xs:
                acc = eng.call(a[0], [acc, x], {})
            return acc
        raise Unsupported("reduce over an unknown number of elements")

    H["functools.wraps"] = lambda eng, a, k: NativeFn("wraps", lambda e, b, kk: b[0])

    # ------------------------------------------------------------ lists
    @meth("list")
    def append(eng, a, k):
        eng.put_list(a[0], eng.concat(eng.list_tuple(a[0]), Tup([a[1]])))

    @meth("list")
    def extend(eng, a, k):
        eng.put_list(a[0], eng.concat(eng.list_tuple(a[0]), eng.materialise(a[1])))

    @meth("list")
    def insert(eng, a, k):
        q = eng.list_tuple(a[0])
        if isinstance(a[1], int) and a[1] >= 0:
            eng.put_list(a[0], eng.concat(eng.concat(eng.slice(q, 0, a[1]), Tup([a[2]])), eng.slice(q, a[1], None)))
            return None
        raise Unsupported("list.insert")

    @meth("list")
    def pop(eng, a, k):
        q = eng.list_tuple(a[0])
        i = a[1] if len(a) > 1 else -1
        v = eng.index(q, i)
        if i == 0 and isinstance(i, int):
            eng.put_list(a[0], eng.slice(q, 1, None))
        elif i == -1 and isinstance(i, int):
            eng.put_list(a[0], eng.slice(q, None, -1))
        elif isinstance(q, Tup) and isinstance(i, int):
            it = list(q.items)
            it.pop(i)
            eng.put_list(a[0], Tup(it))
        else:
            raise Unsupported("list.pop")
        return v

    @meth("list")
    def copy(eng, a, k):
        return eng.new_list(eng.list_tuple(a[0]))

    @meth("list")
    def clear(eng, a, k):
        eng.put_list(a[0], Tup([]))

    @meth("list", "tuple")
    def count(eng, a, k):
        q = eng.list_tuple(a[0]) if isinstance(a[0], Ref) else a[0]
        if isinstance(q, Tup):
            acc = z3.IntVal(0)
            for x in q.items:
                f = eng.eq(x, a[1])
                acc = acc + z3.If(f if not isinstance(f, bool) else z3.BoolVal(f), z3.IntVal(1), z3.IntVal(0))
            return eng.from_V(V.I(z3.simplify(acc)))
        raise Unsupported("count")

    @meth("tuple", "list")
    def index(eng, a, k):
        q = eng.list_tuple(a[0]) if isinstance(a[0], Ref) else a[0]
        if isinstance(q, Tup):
            for i, x in enumerate(q.items):
                f = eng.eq(x, a[1])
                if eng.branch(f):
                    return i
            raise PyExc("ValueError")
        i = eng.fresh(Int, "idx")
        j = z3.Int("j!ix")
        if not eng.branch(eng.contains(a[1], q)):
            raise PyExc("ValueError")
        e = lambda x: (lambda f: z3.BoolVal(f) if isinstance(f, bool) else f)(eng.eq(eng.from_V(eng.seq_at(q, x)), a[1]))
        eng.assume(z3.And(0 <= i, i < q.n, e(i)))
        eng.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < i), z3.Not(e(j)))))
        return SInt(i)

    # ------------------------------------------------------------ sets
    def setterm(eng, v):
        if isinstance(v, Ref) and eng.rec(v).kind == "set":
            return eng.rec(v).data
        if isinstance(v, Ref) and eng.rec(v).kind in ("dict", "list") or isinstance(v, (Tup, Seq, Iter, GenV)):
            return eng.rec(mkset(eng, [v])).data
        if isinstance(v, Sym):
            return eng.rec(mkset(eng, [v])).data
        raise Unsupported("set operand")

    @meth("set")
    def union_(eng, a, k):
        s = eng.rec(a[0]).data
        for o in a[1:]:
            s = union(s, setterm(eng, o))
        return eng.alloc("set", s)
    M[("set", "union")] = NativeFn("set.union", union_)

    @meth("set")
    def update(eng, a, k):
        s = eng.rec(a[0]).data
        for o in a[1:]:
            s = union(s, setterm(eng, o))
        eng.put(a[0], s)

    @meth("set")
    def intersection(eng, a, k):
        return eng.alloc("set", z3.SetIntersect(eng.rec(a[0]).data, setterm(eng, a[1])))

    @meth("set")
    def difference(eng, a, k):
        return eng.alloc("set", z3.SetDifference(eng.rec(a[0]).data, setterm(eng, a[1])))

    @meth("set")
    def issubset(eng, a, k):
        return eng.mkbool(z3.IsSubset(eng.rec(a[0]).data, setterm(eng, a[1])))

    @meth("set")
    def issuperset(eng, a, k):
        return eng.mkbool(z3.IsSubset(setterm(eng, a[1]), eng.rec(a[0]).data))

    @meth("set")
    def add(eng, a, k):
        eng.put(a[0], z3.Store(eng.rec(a[0]).data, eng.to_V(a[1]), z3.BoolVal(True)))

    def remove_from(eng, s, x):
        s = z3.Store(s, eng.to_V(x), z3.BoolVal(False))
        if isinstance(x, int) and not isinstance(x, bool):
            s = z3.Store(s, V.X(xint(z3.IntVal(x))), z3.BoolVal(False))
        return s

    @meth("set")
    def discard(eng, a, k):
        eng.put(a[0], remove_from(eng, eng.rec(a[0]).data, a[1]))

    @meth("set")
    def remove(eng, a, k):
        if not eng.branch(eng.contains(a[1], a[0])):
            raise PyExc("KeyError")
        eng.put(a[0], remove_from(eng, eng.rec(a[0]).data, a[1]))

    @meth("set")
    def copy(eng, a, k):
        return eng.alloc("set", eng.rec(a[0]).data)
    M[("set", "copy")] = NativeFn("set.copy", copy)
    M[("list", "copy")] = NativeFn("list.copy", lambda eng, a, k: eng.new_list(eng.list_tuple(a[0])))

    M[("set", "clear")] = NativeFn("set.clear", lambda eng, a, k: eng.put(a[0], EMPTY))

    @meth("set")
    def difference_update(eng, a, k):
        s = eng.rec(a[0]).data
        for o in a[1:]:
            s = z3.SetDifference(s, setterm(eng, o))
        eng.put(a[0], s)

    @meth("set")
    def intersection_update(eng, a, k):
        s = eng.rec(a[0]).data
        for o in a[1:]:
            s = z3.SetIntersect(s, setterm(eng, o))
        eng.put(a[0], s)

    @meth("set")
    def symmetric_difference(eng, a, k):
        s, t = eng.rec(a[0]).data, setterm(eng, a[1])
        return eng.alloc("set", union(z3.SetDifference(s, t), z3.SetDifference(t, s)))

    @meth("set")
    def isdisjoint(eng, a, k):
        return eng.mkbool(z3.SetIntersect(eng.rec(a[0]).data, setterm(eng, a[1])) == EMPTY)

    # ------------------------------------------------------------ dicts
    M[("dict", "clear")] = NativeFn("dict.clear", lambda eng, a, k: eng.put(a[0], ("c", ())))

    @meth("dict")
    def items(eng, a, k):
        d = a[0]
        rd = eng.rec(d).data
        if rd[0] == "c":
            return Tup([Tup([x, y]) for x, y in rd[1]])
        ks = eng.dict_keys(d)
        rd = eng.rec(d).data
        return Iter(eng.seq_len(ks), lambda i: (lambda kt: Tup([eng.from_V(kt), eng.from_V(z3.Select(rd[2], kt))]))(eng.seq_at(ks, i)))

    @meth("dict")
    def keys(eng, a, k):
        return eng.dict_keys(a[0])

    @meth("dict")
    def values(eng, a, k):
        d = a[0]
        rd = eng.rec(d).data
        if rd[0] == "c":
            return Tup([y for x, y in rd[1]])
        ks = eng.dict_keys(d)
        rd = eng.rec(d).data
        return Iter(eng.seq_len(ks), lambda i: eng.from_V(z3.Select(rd[2], eng.seq_at(ks, i))))

    @meth("dict")
    def get(eng, a, k):
        d = a[0]
        if eng.branch(eng.dict_has(d, a[1])):
            return eng.dict_get(d, a[1])
        return a[2] if len(a) > 2 else None

    @meth("dict")
    def copy(eng, a, k):
        return eng.alloc("dict", eng.rec(a[0]).data)
    M[("dict", "copy")] = NativeFn("dict.copy", lambda eng, a, k: eng.alloc("dict", eng.rec(a[0]).data))
    M[("list", "copy")] = NativeFn("list.copy", lambda eng, a, k: eng.new_list(eng.list_tuple(a[0])))

    @meth("dict")
    def update(eng, a, k):
        for o in a[1:]:
            eng.dict_update(a[0], o)
        for x, y in k.items():
            eng.dict_set(a[0], x, y)
    M[("dict", "update")] = NativeFn("dict.update", update)

    def set_update(eng, a, k):
        s = eng.rec(a[0]).data
        for o in a[1:]:
            s = union(s, setterm(eng, o))
        eng.put(a[0], s)
    M[("set", "update")] = NativeFn("set.update", set_update)

    def dict_pop(eng, a, k):
        d, key = a[0], a[1]
        if not eng.branch(eng.dict_has(d, key)):
            if len(a) > 2:
                return a[2]
            raise PyExc("KeyError")
        v = eng.dict_get(d, key)
        rd = eng.rec(d).data
        if rd[0] == "c" and isinstance(key, (str, int)):
            eng.put(d, ("c", tuple((x, y) for x, y in rd[1] if x != key)))
        else:
            rd = eng.dict_symbolic(d)
            eng.put(d, ("s", z3.Store(rd[1], eng.to_V(key), z3.BoolVal(False)), rd[2], None))
        return v
    M[("dict", "pop")] = NativeFn("dict.pop", dict_pop)

    def setdefault(eng, a, k):
        d, key = a[0], a[1]
        if eng.branch(eng.dict_has(d, key)):
            return eng.dict_get(d, key)
        v = a[2] if len(a) > 2 else None
        eng.dict_set(d, key, v)
        return v
    M[("dict", "setdefault")] = NativeFn("dict.setdefault", setdefault)

    # ------------------------------------------------------------ strings
    def sm(name):
        def deco(fn):
            M[("str", name)] = NativeFn("str." + name, fn)
            return fn
        return deco

    @sm("startswith")
    def _(eng, a, k):
        if isinstance(a[0], str) and isinstance(a[1], str):
            return a[0].startswith(a[1])
        return eng.mkbool(strlit(V.sval(eng.to_V(a[0])), V.sval(eng.to_V(a[1]))))

    @sm("endswith")
    def _(eng, a, k):
        if isinstance(a[0], str) and isinstance(a[1], str):
            return a[0].endswith(a[1])
        return eng.mkbool(z3.Function("str_ends", StrS, StrS, Bool)(V.sval(eng.to_V(a[0])), V.sval(eng.to_V(a[1]))))

    for nm in ("replace", "join", "format", "strip", "lower", "upper", "rsplit", "split", "lstrip", "rstrip"):
        def fn(eng, a, k, nm=nm):
            if all(isinstance(x, str) for x in a) and nm in ("replace", "strip", "lower", "upper", "lstrip", "rstrip"):
                return getattr(a[0], nm)(*a[1:])
            if nm in ("rsplit", "split"):
                raise Unsupported("str." + nm)
            if nm == "replace" and isinstance(a[0], Sym):
                f = z3.Function("str_replace", StrS, StrS, StrS, StrS)
                if all(eng.kind_of(x) == "S" or isinstance(x, str) for x in a[:3]):
                    return Sym(V.S(f(*[V.sval(eng.to_V(x)) for x in a[:3]])))
            return eng.freshS()
        M[("str", nm)] = NativeFn("str." + nm, fn)

    # ------------------------------------------------------------ inspect
    @ext("inspect.isclass")
    def _(eng, a, k):
        r = w.hook("isclass", eng, a[0])
        if r is not None:
            return r[0]
        return eng.mkbool(w.isinst(eng, a[0], Ext("builtins.type")))

    def isf(kind):
        def fn(eng, a, k):
            return eng.mkbool(w.isinst(eng, a[0], Ext(kind)))
        return fn
    H["inspect.isfunction"] = isf("types.FunctionType")
    H["inspect.ismethod"] = isf("types.MethodType")

    # ------------------------------------------------------------ opaque mappings and sequences
    def opaque_dict_method(name):
        def get_(eng, o):
            ob = V.oval(o.t)

            def fn(e, a, k):
                ks = keysof(ob)
                e.assume(tlen(ks) >= 0)
                if name == "items":
                    return Iter(tlen(ks), lambda i: Tup([e.from_V(tat(ks, i)), e.from_V(mget(ob, tat(ks, i)))]))
                if name == "keys":
                    return Seq(ks, z3.IntVal(0), tlen(ks))
                if name == "values":
                    return Iter(tlen(ks), lambda i: e.from_V(mget(ob, tat(ks, i))))
                if name == "get":
                    kk = e.to_V(a[0])
                    if e.branch(mhas(ob, kk)):
                        if len(a) > 1 and isinstance(a[1], Ref) and a[1].id > w.base_nid:
                            e.assume(mget(ob, kk) != e.to_V(a[1]))     # made during this call
                        return e.from_V(mget(ob, kk))
                    return a[1] if len(a) > 1 else None
            return NativeFn("mapping." + name, fn)
        return get_
    for n in ("items", "keys", "values", "get"):
        H["O." + n] = opaque_dict_method(n)

    # ------------------------------------------------------------ sympy
    H["sympy.symbols"] = lambda eng, a, k: Sym(V.X(symbol_of(V.sval(eng.to_V(a[0])))))
    free = z3.Function("free_symbols", ExprS, TupS)

    def free_symbols(eng, o):
        """free_symbols as a set; iterated in the order of an unknown enumeration."""
        return eng.from_V(V.O(z3.Function("fsset", ExprS, ObjS)(V.xval(o.t))))
    H["X.free_symbols"] = free_symbols
    H["X.name"] = lambda eng, o: Sym(V.S(ExprS.xname(V.xval(o.t))))

    def x_subs(eng, o):
        def fn(e, a, k):
            return Sym(V.X(z3.Function("xsubs", ExprS, V, V, ExprS)(V.xval(o.t), e.to_V(a[0]), e.to_V(a[1]))))
        return NativeFn("Expr.subs", fn)
    H["X.subs"] = x_subs
    H["sympy.simplify"] = lambda eng, a, k: Sym(V.X(z3.Function("xsimplify", ExprS, ExprS)(V.xval(eng.to_V(a[0])))))

    # dtypes
    H["numpy.dtype"] = lambda eng, a, k: Sym(V.O(z3.Function("np_dtype", V, ObjS)(eng.to_V(a[0]))))
