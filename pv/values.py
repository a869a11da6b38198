"""Sorts, values and term builders shared by the verifier and the contracts."""
import z3

_U = z3.DeclareSort("U")


def _dt(name, *cons):
    d = z3.Datatype(name)
    for c in cons:
        d.declare(*c)
    return d.create()


# Literals are distinct by construction; an unknown string, object or
# expression is a free constant of its sort (it may or may not be a literal).
StrS = _dt("StrS", ("Lit", ("litno", z3.IntSort())), ("Dyn", ("dynno", _U)))
TupS = z3.DeclareSort("TupS")
ExprS = _dt("ExprS", ("XInt", ("xival", z3.IntSort())), ("XSym", ("xname", StrS)), ("XOther", ("xoth", _U)))
ObjS = _dt("ObjS", ("Known", ("objno", z3.IntSort())), ("Unk", ("unk", _U)))
_V = z3.Datatype("V")
_V.declare("I", ("ival", z3.IntSort()))
_V.declare("B", ("bval", z3.BoolSort()))
_V.declare("N")
_V.declare("E")
_V.declare("S", ("sval", StrS))
_V.declare("T", ("tval", TupS))
_V.declare("X", ("xval", ExprS))
_V.declare("O", ("oval", ObjS))
V = _V.create()
Int, Bool = z3.IntSort(), z3.BoolSort()
SetS = z3.ArraySort(V, Bool)
MapS = z3.ArraySort(V, V)

tlen = z3.Function("tlen", TupS, Int)
tat = z3.Function("tat", TupS, Int, V)
xint = ExprS.XInt                               # sympy.Integer(n)
xsub = z3.Function("xsub", ExprS, V, ExprS)     # expression - value
xtruth = z3.Function("xtruth", ExprS, Bool)
otruth = z3.Function("otruth", ObjS, Bool)
pyeq_u = z3.Function("pyeq_u", V, V, Bool)      # == on objects we know nothing of
inst = z3.Function("inst", V, V, Bool)          # isinstance on opaque objects
subcls = z3.Function("subcls", V, V, Bool)      # issubclass
isclass = z3.Function("isclass", V, Bool)
typeof = z3.Function("typeof", V, V)
seqof = z3.Function("seqof", ObjS, TupS)        # elements of an opaque sequence/set
keysof = z3.Function("keysof", ObjS, TupS)      # keys of an opaque mapping, in order
mhas = z3.Function("mhas", ObjS, V, Bool)
mget = z3.Function("mget", ObjS, V, V)
has_attr = z3.Function("has_attr", V, StrS, Bool)
get_attr = z3.Function("get_attr", V, StrS, V)
symbol_of = ExprS.XSym                          # sympy Symbol of a name


str_cat = z3.Function("str_cat", StrS, StrS, StrS)


def is_symbol(x):
    return ExprS.is_XSym(x)


solid = z3.Function("solid", ObjS, Int)         # layout class of an opaque object
card = z3.Function("card", SetS, Int)

tcat = z3.Function("tcat", TupS, TupS, TupS)
tsub = z3.Function("tsub", TupS, Int, Int, TupS)
tunit = z3.Function("tunit", V, TupS)
EMPTYT = z3.Const("emptytup", TupS)
EMPTY = z3.K(V, z3.BoolVal(False))

_strs, _strn = {"": 0}, [""]
_objs, _objn = {}, []
_strt = {}
_isf = {}


def str_const(s):
    if s not in _strs:
        _strs[s] = len(_strn)
        _strn.append(s)
    i = _strs[s]
    if i not in _strt:
        _strt[i] = StrS.Lit(i)
    return _strt[i]


def obj_const(name):
    if name not in _objs:
        _objs[name] = len(_objn)
        _objn.append(name)
    return ObjS.Known(_objs[name])


def str_of(t):
    """The literal a StrS term is, or None."""
    if z3.is_app(t) and t.decl().name() == "Lit" and z3.is_int_value(t.arg(0)):
        return _strn[t.arg(0).as_long()]
    return None


def obj_of(t):
    if z3.is_app(t) and t.decl().name() == "Known" and z3.is_int_value(t.arg(0)):
        return _objn[t.arg(0).as_long()]
    return None


def strue(s):
    return s != StrS.Lit(0)


def is_(kind, t):
    f = _isf.get(kind)
    if f is None:
        f = _isf[kind] = getattr(V, "is_" + kind)
    return f(t)


def union(a, b):
    if a.eq(EMPTY):
        return b
    if b.eq(EMPTY):
        return a
    return z3.SetUnion(a, b)


def isnum(t):
    return z3.Or(is_("I", t), is_("B", t))


def num(t):
    return z3.If(is_("I", t), V.ival(t), z3.If(V.bval(t), z3.IntVal(1), z3.IntVal(0)))


def veq(a, b):
    """Python ``==`` on V terms, as a formula (tuples by identity of TupS or pyeq_u)."""
    return z3.If(
        z3.And(isnum(a), isnum(b)), num(a) == num(b),
        z3.If(z3.And(is_("X", a), is_("I", b)), V.xval(a) == xint(V.ival(b)),
        z3.If(z3.And(is_("I", a), is_("X", b)), V.xval(b) == xint(V.ival(a)),
        z3.If(z3.Or(z3.And(is_("N", a), is_("N", b)), z3.And(is_("E", a), is_("E", b))), True,
        z3.If(z3.And(is_("S", a), is_("S", b)), V.sval(a) == V.sval(b),
        z3.If(z3.And(is_("X", a), is_("X", b)), V.xval(a) == V.xval(b),
        z3.If(z3.And(is_("T", a), is_("T", b)), z3.Or(a == b, pyeq_u(a, b)),
        z3.If(z3.Or(is_("O", a), is_("O", b)), pyeq_u(a, b), False))))))))


class Val:
    pass


class Sym(Val):
    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return f"Sym({self.t})"


class SInt(Val):
    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return f"SInt({self.t})"


class SBool(Val):
    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return f"SBool({self.t})"


class Tup(Val):
    """A tuple whose length is known."""

    def __init__(self, items):
        self.items = list(items)

    def __repr__(self):
        return f"Tup({self.items})"


class Seq(Val):
    """A tuple of unknown length: elements lo..lo+n-1 of base."""

    plain = False      # known to be of class tuple itself

    def __init__(self, base, lo, n, plain=False):
        self.base, self.lo, self.n = base, lo, n
        self.plain = plain

    def __repr__(self):
        return f"Seq({self.base},{self.lo},{self.n})"


class Ref(Val):
    def __init__(self, id):
        self.id = id

    def __repr__(self):
        return f"Ref({self.id})"

    def __eq__(self, o):
        return isinstance(o, Ref) and o.id == self.id

    def __hash__(self):
        return hash(("Ref", self.id))


class Func(Val):
    def __init__(self, qual, node, module, closure, defaults=(), kwdefaults=None):
        self.qual, self.node, self.module, self.closure = qual, node, module, closure
        self.defaults = defaults
        self.kwdefaults = kwdefaults or {}

    def __repr__(self):
        return f"Func({self.qual})"


class Bound(Val):
    def __init__(self, func, self_):
        self.func, self.self_ = func, self_

    def __repr__(self):
        return f"Bound({self.func},{self.self_})"


class Wrapped(Val):
    """staticmethod / classmethod / property object in a class body."""

    def __init__(self, kind, func):
        self.kind, self.func = kind, func


class Ext(Val):
    """Something from outside the repository, named by its dotted path."""

    def __init__(self, path):
        self.path = path

    def __repr__(self):
        return f"Ext({self.path})"

    def __eq__(self, o):
        return isinstance(o, Ext) and o.path == self.path

    def __hash__(self):
        return hash(("Ext", self.path))


class ModV(Val):
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"ModV({self.name})"

    def __eq__(self, o):
        return isinstance(o, ModV) and o.name == self.name

    def __hash__(self):
        return hash(("ModV", self.name))


class NativeFn(Val):
    """A model written in Python: fn(engine, args, kwargs) -> value."""

    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __repr__(self):
        return f"NativeFn({self.name})"


class Iter(Val):
    """An iterable: n (int or Int term) and at(k)."""

    def __init__(self, n, at, seq=None):
        self.n, self.at, self.seq = n, at, seq
