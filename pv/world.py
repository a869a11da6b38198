"""The environment of the verified code: /repo's modules (executed
symbolically once), models of builtins, and models of the libraries used."""
import ast
import builtins as pybuiltins
import importlib
import os
import z3
from values import *
from engine import *
from engine import MISSING, _Missing
from interp import *

REPO = os.environ.get("ASTA_REPO", "/repo")

ALIAS = {
    "sympy.core.expr.Expr": "sympy.Expr",
    "sympy.core.symbol.Symbol": "sympy.Symbol",
    "sympy.core.numbers.Number": "sympy.Number",
    "sympy.core.numbers.Integer": "sympy.Integer",
    "tensorflow.double": "tensorflow.float64",
    "tensorflow.half": "tensorflow.float16",
    "tensorflow.DType": "tensorflow.dtypes.DType",
    "numpy.float": "builtins.float",
    "types.BuiltinFunctionType": "types.BuiltinFunctionType",
}
# classes no two of which have a common instance (layout conflict), for opaque objects
SOLID = ["builtins.list", "builtins.dict", "builtins.set", "builtins.frozenset", "numpy.ndarray", "torch.Tensor",
         "tensorflow.Tensor", "builtins.type", "numpy.dtype", "torch.dtype", "tensorflow.dtypes.DType",
         "builtins.float", "builtins.complex", "builtins.bytes", "types.FunctionType", "types.MethodType",
         "builtins.classmethod", "builtins.staticmethod", "datetime.datetime", "datetime.timedelta",
         "tensorflow.TensorShape", "inspect.Parameter"]
PRIM = {"builtins.int": "I", "builtins.bool": "B", "types.NoneType": "N", "types.EllipsisType": "E",
        "builtins.str": "S", "builtins.tuple": "T"}
BUILTIN_CLASSES = {n for n in dir(pybuiltins) if isinstance(getattr(pybuiltins, n), type)}


def real(path):
    """The real object an external path denotes (standard library only)."""
    if path == "builtins.NoneType":
        path = "types.NoneType"
    if "[" in path or "(" in path or "?" in path:
        return MISSING
    parts = path.split(".")
    if parts[0] not in ("builtins", "types", "typing", "collections", "io", "abc", "inspect", "datetime", "configparser", "os", "functools", "random"):
        return MISSING
    for k in range(len(parts), 0, -1):
        try:
            o = importlib.import_module(".".join(parts[:k]))
        except ImportError:
            continue
        try:
            for p in parts[k:]:
                o = getattr(o, p)
            return o
        except AttributeError:
            return MISSING
    return MISSING


def real_class(path):
    o = real(path)
    return o if isinstance(o, type) else None


class _GetOx:
    """get_ox returns the one configuration object (proved for get_ox itself)."""

    def __init__(self, w):
        self.w = w

    def usable(self, eng, f, args, kwargs):
        return True

    def apply(self, eng, bound):
        return self.w.ox


class World:
    def __init__(self, torch=True, tf=True):
        self.torch, self.tf = torch, tf
        self.contracts = {}
        self.objvals = {}
        self.class_qual = {}
        self.base_heap = {"ghost": Rec("ghost", {}), "fattrs": Rec("fattrs", {})}
        self.base_nid = 0
        self.base_frameinfo = {}
        self.proxies = {}
        self.trees = {}
        self.names_cache, self.gen_cache = {}, {}
        self.recursive = {"asta.parser.verify_dimensions"}
        self.loading = False
        self.ext_handlers = {}
        self.meths = {}
        self.installed = {"numpy", "sympy", "oxentiel", "toml"} | ({"torch"} if torch else set()) | ({"tensorflow"} if tf else set())
        self.stub_get_ox = True
        import models
        models.install(self)
        self.contracts["asta.config.get_ox"] = _GetOx(self)

    # ------------------------------------------------------------ loading
    def tree(self, module):
        if module not in self.trees:
            p = module.replace(".", "/")
            for c in (f"{REPO}/{p}.py", f"{REPO}/{p}/__init__.py"):
                if os.path.isfile(c):
                    with open(c) as f:
                        self.trees[module] = ast.parse(f.read())
                    break
            else:
                self.trees[module] = None
        return self.trees[module]

    def load(self, modules):
        eng = Interp(self)
        eng.start()
        eng.dec = Dec([])
        self.loading = True
        ox = eng.alloc("inst", (Ext("oxentiel.Oxentiel"), {"on": True, "print_passes": True, "raise_errors": True,
                                                          "check_non_asta_types": False, "check_all_sequence_elements": True}))
        self.ox = ox
        for m in modules:
            try:
                self.load_module(eng, m)
            except PyExc as e:
                raise Unsupported(f"loading {m} raises {e.cls} {e.value}")
        self.loading = False
        self.base_heap = dict(eng.heap)
        self.base_nid = eng.nid
        self.base_frameinfo = {k: v for k, v in eng.frameinfo.items()}
        return eng

    def load_module(self, eng, m):
        fr = "m:" + m
        if fr in eng.heap:
            return
        tree = self.tree(m)
        if tree is None:
            raise PyExc("ModuleNotFoundError", m)
        eng.heap[fr] = Rec("frame", {"__name__": m, "__file__": m, "__doc__": "", "__package__": "asta", "__builtins__": Ext("builtins"),
                                     "__spec__": Ext("spec"), "__loader__": Ext("loader"), "__cached__": ""})
        eng.frameinfo[fr] = (m, None, None, None, "module")
        if m == "asta":
            return
        saved, eng.active, eng.frames = (eng.active, eng.frames), [], []
        for s in tree.body:
            if isinstance(s, ast.Assert):
                continue
            eng.stmt(s, fr)
        eng.active, eng.frames = saved

    def module_get(self, eng, module, name):
        fr = "m:" + module
        if fr not in eng.heap:
            self.load_module(eng, module)
        v = eng.heap[fr].data.get(name, MISSING)
        if v is MISSING and not getattr(self, "_in_getattr", False):
            if module == "asta":
                sub = f"asta.{name}"
                if self.tree(sub) is not None:
                    return self.import_module(eng, sub)
        return v

    def module_attr(self, eng, module, name):
        v = self.module_get(eng, module, name)
        if v is MISSING:
            g = eng.heap["m:" + module].data.get("__getattr__", MISSING)
            if isinstance(g, Func):
                return eng.call(g, [name], {})
        return v

    def module_set(self, eng, module, name, val):
        fr = "m:" + module
        d = dict(eng.heap[fr].data)
        d[name] = val
        eng.heap[fr] = Rec("frame", d)

    def import_module(self, eng, name):
        top = name.split(".")[0]
        if top == "asta":
            if name != "asta":
                self.load_module(eng, name)
                if name in self.proxies:
                    return self.proxies[name]
            else:
                self.load_module(eng, "asta")
            return ModV(name)
        if top in ("torch", "tensorflow") and top not in self.installed:
            raise PyExc("ModuleNotFoundError", name)
        return Ext(name)

    def import_from(self, eng, module, name):
        if module.split(".")[0] == "asta":
            if module in ("asta",) or self.tree(f"{module}.{name}") is not None:
                if self.tree(f"{module}.{name}") is not None:
                    return self.import_module(eng, f"{module}.{name}")
            m = self.import_module(eng, module)
            v = eng.getattr(m, name)
            return v
        e = self.import_module(eng, module)
        v = self.ext_attr(eng, e, name)
        if v is MISSING:
            raise PyExc("ImportError")
        return v

    # ------------------------------------------------------------ names
    def names_of(self, f):
        k = id(f.node)
        if k not in self.names_cache:
            self.names_cache[k] = local_names(f.node)
        return self.names_cache[k]

    def base_class(self, module, parts):
        body = self.tree(module).body
        for p in parts:
            c = [n for n in body if isinstance(n, ast.ClassDef) and n.name == p]
            if not c:
                return False
            body = c[0].body
        return True

    def is_gen(self, f):
        k = id(f.node)
        if k not in self.gen_cache:
            self.gen_cache[k] = has_yield(f.node)
        return self.gen_cache[k]

    def may_recurse(self, q):
        return q in self.recursive

    def builtin(self, name):
        if name == "__debug__":
            return True
        if hasattr(pybuiltins, name):
            if name == "Ellipsis":
                return Ellipsis
            if name == "NotImplemented":
                return Ext("builtins.NotImplemented")
            return Ext("builtins." + name)
        return MISSING

    def ext_value(self, path):
        if path == "types.NoneType.None":
            return None
        if path.startswith("asta"):
            return ModV(path)
        return Ext(path)

    # ------------------------------------------------------------ hooks
    def hook(self, kind, eng, *args):
        for h in eng.hooks.get(kind, ()):
            r = h(eng, *args)
            if r is not None:
                return r
        m = getattr(self, "hk_" + kind, None)
        return m(eng, *args) if m else None

    def hk_getattr(self, eng, o, name):
        if isinstance(o, ModV):
            v = self.module_attr(eng, o.name, name)
            if v is MISSING:
                raise PyExc("AttributeError", name)
            return (v,)
        return None

    def hk_setitem(self, eng, o, k, v):
        if isinstance(o, Ext) and o.path == "sys.modules":
            self.proxies[k] = v
            return True
        return None

    # ------------------------------------------------------------ externals
    def ext_attr(self, eng, o, name):
        p = ALIAS.get(o.path + "." + name, o.path + "." + name)
        if o.path.startswith("sympy.") and ("sympy." + name) in ALIAS.values():
            p = "sympy." + name
        if name == "__class__":
            return eng.type_of(o)
        r = real(o.path)
        if r is not MISSING:
            try:
                v = getattr(r, name)
            except AttributeError:
                if name.startswith("__") and "[" not in o.path:
                    return MISSING
                return MISSING
            if v is None:
                return None
            if v is Ellipsis:
                return Ellipsis
            if isinstance(v, (bool, int, str)) and not o.path.startswith("inspect"):
                return v
            if isinstance(v, type):
                cp = f"{v.__module__}.{v.__qualname__}"
                if real(cp) is v:
                    return Ext(ALIAS.get(cp, cp))
                if v is type(None):
                    return Ext("types.NoneType")
            return Ext(p)
        h = self.ext_handlers.get("attr:" + o.path)
        if h:
            return h(eng, o, name)
        if o.path.split(".")[0] in ("numpy", "torch", "tensorflow", "sympy", "oxentiel", "toml", "sys"):
            if name.startswith("__") and name not in ("__name__", "__module__", "__qualname__"):
                return MISSING
            if name == "__name__":
                return o.path.rsplit(".", 1)[-1]
            if name in ("__module__", "__qualname__"):
                return eng.freshS()
            return Ext(p)
        if "[]" in o.path:
            return Ext(p)
        return MISSING

    def ext_call(self, eng, f, args, kwargs):
        h = self.ext_handlers.get(f.path)
        if h is not None:
            return h(eng, args, kwargs)
        if self.loading:
            return Ext(f.path + "()")
        if f.path.startswith("builtins.") and f.path[9:] in BUILTIN_CLASSES and exc_isa_real(f.path[9:]):
            return ExcV(f.path[9:], args)
        return MISSING

    def ext_class_attr(self, eng, c, name):
        if c.path == "builtins.object" or c.path.startswith("builtins.") and exc_isa_real(c.path[9:]):
            return MISSING
        return MISSING

    def ext_type(self, v):
        r = real(v.path)
        if r is not MISSING and not isinstance(r, type):
            t = type(r)
            p = f"{t.__module__}.{t.__qualname__}"
            if real(p) is t:
                return Ext(p)
            return Ext("types." + t.__name__)
        if isinstance(r, type):
            return Ext(f"{type(r).__module__}.{type(r).__qualname__}")
        if v.path in KNOWN_CLASSES:
            return Ext("builtins.type")
        d = dtype_class(v.path)
        if d:
            return Ext(d)
        return None

    def ext_super(self, eng, c, name, o):
        if c.path == "builtins.type":
            if name == "__init__":
                return NativeFn("type.__init__", lambda e, a, k: None)
            if name == "__hash__":
                return NativeFn("type.__hash__", lambda e, a, k: SInt(z3.Function("idhash", V, Int)(e.to_V(o))))
            if name == "__repr__":
                return NativeFn("type.__repr__", lambda e, a, k: e.freshS())
            if name == "__eq__":
                return NativeFn("type.__eq__", lambda e, a, k: e.is_same(o, a[0]))
        return None

    def object_super(self, eng, o, name):
        if name == "__setattr__":
            def setattr_(e, a, k):
                e.raw_setattr(o, a[0], a[1])
            return NativeFn("object.__setattr__", setattr_)
        if name == "__init__":
            return NativeFn("object.__init__", lambda e, a, k: None)
        return None

    def opaque_super(self, eng, s, name):
        return None

    def expr_attr(self, eng, o, name):
        h = self.ext_handlers.get("X." + name)
        return h(eng, o) if h else MISSING

    def obj_attr(self, eng, o, name):
        h = self.ext_handlers.get("O." + name)
        return h(eng, o) if h else MISSING

    def func_attr(self, eng, f, name):
        v = eng.heap["fattrs"].data.get((f.qual, f.closure, name), MISSING)
        return v

    def method(self, kind, name):
        return self.meths.get((kind, name))

    # ------------------------------------------------------------ isinstance
    def isinst(self, eng, x, c):
        """isinstance(x, c) as bool / Bool term."""
        if isinstance(c, Tup):
            fs = []
            for y in c.items:
                f = self.isinst(eng, x, y)
                if f is True:
                    return True
                if f is not False:
                    fs.append(f)
            return z3.Or(fs) if fs else False
        if isinstance(c, Seq):
            k = z3.simplify(c.n)
            if z3.is_int_value(k):
                return self.isinst(eng, x, Tup([eng.index(c, i) for i in range(k.as_long())]))
            r = self.hook("isinstance", eng, x, c)
            if r is not None:
                return r[0]
            raise Unsupported("isinstance with an unknown tuple of classes")
        r = self.hook("isinstance", eng, x, c)
        if r is not None:
            return r[0]
        if isinstance(c, Ref):
            rc = eng.rec(c)
            if rc.kind != "class":
                raise PyExc("TypeError")
            if isinstance(rc.data[3], Ref):
                m = eng.class_attr(rc.data[3], "__instancecheck__")
                if isinstance(m, Func):
                    return eng.truth(eng.call(Bound(m, c), [x], {}))
            if isinstance(x, Ref):
                rx = eng.rec(x)
                if rx.kind == "inst":
                    return c in eng.mro(rx.data[0]) if isinstance(rx.data[0], Ref) else False
                if rx.kind == "class":
                    meta = rx.data[3]
                    return isinstance(meta, Ref) and c in eng.mro(meta)
                return False
            if isinstance(x, Sym):
                t = x.t
                return z3.And(is_("O", t), self.oinst(eng, t, c))
            return False
        if isinstance(c, Ext):
            return self.isinst_ext(eng, x, c)
        if isinstance(c, Sym):
            k = eng.kind_of(c)
            if k == "T":
                return self.isinst(eng, x, eng.as_seq(c))
            if k is None:
                w = eng.settle(c)
                if not isinstance(w, Sym):
                    return self.isinst(eng, x, w)
                c = w
            return inst(eng.to_V(x), c.t)
        raise PyExc("TypeError")

    def oinst(self, eng, t, c):
        f = inst(t, eng.to_V(c))
        p = c.path if isinstance(c, Ext) else None
        if p in SOLID:
            eng.axiom(z3.Implies(z3.And(is_("O", t), f), solid(V.oval(t)) == SOLID.index(p)))
        elif isinstance(c, Ref):
            q = self.class_qual.get(c.id)
            if q == "asta.placeholder.Placeholder":
                eng.axiom(z3.Implies(f, solid(V.oval(t)) == 100))
            elif any(isinstance(b, Ext) and b.path == "builtins.type" for b in eng.mro(c)):
                eng.axiom(z3.Implies(f, solid(V.oval(t)) == SOLID.index("builtins.type")))
                eng.axiom(z3.Implies(f, inst(t, eng.to_V(Ext("builtins.type")))))
        return f

    def isinst_ext(self, eng, x, c):
        p = c.path
        if p == "builtins.object":
            return True
        cls = real_class(p)
        if p.startswith("typing.") and cls is None:
            o = real(p)
            og = getattr(o, "__origin__", None)
            if og is not None:
                q = f"{og.__module__}.{og.__qualname__}"
                return self.isinst_ext(eng, x, Ext(q))

        def prim(pt):
            if cls is not None:
                return issubclass(pt, cls)
            return False
        if isinstance(x, bool):
            return prim(bool)
        if isinstance(x, int):
            return prim(int)
        if isinstance(x, str):
            return prim(str)
        if isinstance(x, float):
            return prim(float)
        if x is None:
            return prim(type(None))
        if x is Ellipsis:
            return prim(type(Ellipsis))
        if isinstance(x, SInt):
            return prim(int)
        if isinstance(x, SBool):
            return prim(bool)
        if isinstance(x, Tup):
            return prim(tuple)
        if isinstance(x, Seq):
            if prim(tuple):
                return True
            if x.plain or p in SOLID or p in PRIM or p.startswith("sympy."):
                return False
            return inst(eng.to_V(x), eng.to_V(c))
        if isinstance(x, Func):
            import types as T
            return prim(T.FunctionType)
        if isinstance(x, (NativeFn,)):
            import types as T
            return prim(T.BuiltinFunctionType)
        if isinstance(x, Wrapped):
            return p == "builtins." + x.kind
        if isinstance(x, Bound):
            import types as T
            return prim(T.MethodType)
        if isinstance(x, (ModV,)):
            import types as T
            return prim(T.ModuleType)
        if isinstance(x, Ext):
            r = real(x.path)
            if r is not MISSING and cls is not None:
                return isinstance(r, cls)
            d = dtype_class(x.path)
            if d:
                return d == p
            if p == "builtins.type":
                return x.path in KNOWN_CLASSES or real_class(x.path) is not None
            if r is not MISSING:
                return False
            if x.path in KNOWN_CLASSES:
                return False
            return False
        if isinstance(x, ExcV):
            return p.startswith("builtins.") and exc_isa(x.cls, p[9:])
        if isinstance(x, Ref):
            r = eng.rec(x)
            if r.kind in ("list", "dict", "set", "frozenset"):
                k = getattr(pybuiltins, r.kind)
                if r.kind == "dict" and False:
                    pass
                return prim(k)
            if r.kind == "inst":
                cl = r.data[0]
                if isinstance(cl, Ext):
                    return cl == c
                return c in eng.mro(cl)
            if r.kind == "class":
                if prim(type):
                    return True
                return False
            return False
        if isinstance(x, Sym):
            t = x.t
            fs = []
            if p in PRIM and p != "builtins.int":
                k = PRIM[p]
                return is_(k, t)
            if p == "builtins.int":
                return z3.Or(is_("I", t), is_("B", t))
            if p == "sympy.Expr":
                return is_("X", t)
            if p == "sympy.Symbol":
                return z3.And(is_("X", t), is_symbol(V.xval(t)))
            if p == "sympy.Integer":
                return z3.And(is_("X", t), z3.Or(ExprS.is_XInt(V.xval(t)), z3.And(ExprS.is_XOther(V.xval(t)), xinteger(V.xval(t)), xnumber(V.xval(t)))))
            if p == "sympy.Number":
                return z3.And(is_("X", t), z3.Or(ExprS.is_XInt(V.xval(t)), z3.And(ExprS.is_XOther(V.xval(t)), xnumber(V.xval(t)))))
            for k, pt in (("I", int), ("B", bool), ("N", type(None)), ("E", type(Ellipsis)), ("S", str), ("T", tuple)):
                if prim(pt):
                    fs.append(is_(k, t))
            if p not in SOLID and not (cls is not None and issubclass(tuple, cls)):
                fs.append(z3.And(is_("T", t), inst(t, eng.to_V(c))))
            self.oinst(eng, t, c)
            fs.append(z3.And(is_("O", t), inst(t, eng.to_V(c))))
            return z3.Or(fs)
        raise Unsupported(f"isinstance of {x}")

    def issub(self, eng, a, c):
        if isinstance(c, Tup):
            fs = [self.issub(eng, a, y) for y in c.items]
            if any(f is True for f in fs):
                return True
            fs = [f for f in fs if f is not False]
            return z3.Or(fs) if fs else False
        if isinstance(a, Ext) and isinstance(c, Ext):
            ra, rc = real(a.path), real(c.path)
            if ra is not MISSING and rc is not MISSING:
                try:
                    return issubclass(ra, rc)
                except TypeError:
                    raise PyExc("TypeError")
            if a == c:
                return True
            if a.path in KNOWN_CLASSES:
                return rc is object
        if isinstance(a, Ref) and eng.rec(a).kind == "class":
            if isinstance(c, Ref):
                return c in eng.mro(a)
            if isinstance(c, Ext):
                rc = real_class(c.path)
                if rc is object:
                    return True
                return any(isinstance(b, Ext) and self.issub(eng, b, c) is True for b in eng.mro(a))
        if isinstance(a, Sym) or isinstance(c, Sym):
            if isinstance(c, Ext) and c.path.startswith("typing.") and real_class(c.path) is None:
                og = getattr(real(c.path), "__origin__", None)
                if og is None:
                    raise Unsupported(f"issubclass of {c}")
                c = Ext(f"{og.__module__}.{og.__qualname__}")
            return subcls(eng.to_V(a), eng.to_V(c))
        if isinstance(a, Ext) and isinstance(c, Ref):
            return False
        raise PyExc("TypeError")

    # -------------------------------------------------- finding the code
    def func(self, qual):
        """The Func for a dotted name in the loaded modules."""
        parts = qual.split(".")
        for k in range(len(parts) - 1, 0, -1):
            m = ".".join(parts[:k])
            if "m:" + m in self.base_heap:
                v = self.base_heap["m:" + m].data.get(parts[k], MISSING)
                for p in parts[k + 1:]:
                    if isinstance(v, Ref) and self.base_heap[v.id].kind == "class":
                        v = self.base_heap[v.id].data[2].get(p, MISSING)
                    else:
                        return None
                if isinstance(v, Wrapped):
                    v = v.func
                return v if isinstance(v, Func) else None
        return None

    def rec_list(self, qual):
        """Elements of a module-level list or tuple."""
        m, n = qual.rsplit(".", 1)
        v = self.base_heap["m:" + m].data[n]
        if isinstance(v, Tup):
            return v.items
        d = self.base_heap[v.id].data
        return list(d.items) if isinstance(d, Tup) else list(d)

    def cls(self, qual):
        m, n = qual.rsplit(".", 1)
        return self.base_heap["m:" + m].data[n]


xinteger = z3.Function("xinteger", ExprS, Bool)
xnumber = z3.Function("xnumber", ExprS, Bool)

KNOWN_CLASSES = {"numpy.ndarray", "numpy.dtype", "torch.Tensor", "torch.Size", "torch.dtype", "tensorflow.Tensor", "tensorflow.TensorShape",
                 "tensorflow.dtypes.DType", "sympy.Expr", "sympy.Symbol", "sympy.Number", "sympy.Integer", "oxentiel.Oxentiel"}


def dtype_class(path):
    m, _, n = path.rpartition(".")
    if path in KNOWN_CLASSES:
        return None
    if m == "torch" and n in ("int32", "float32", "bool", "uint8", "float64", "int64", "int16", "int8"):
        return "torch.dtype"
    if m == "tensorflow" and n in ("bfloat16 bool complex128 complex64 float16 float32 float64 int16 int32 int64 int8 qint16 qint32 qint8 quint16 "
                                   "quint8 resource string uint16 uint32 uint64 uint8 variant").split():
        return "tensorflow.dtypes.DType"
    return None


def exc_isa_real(n):
    c = getattr(pybuiltins, n, None)
    return isinstance(c, type) and issubclass(c, BaseException)
