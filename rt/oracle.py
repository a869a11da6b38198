"""Executable specification of typechecked annotations.

Annotations and values are descriptors (JSON), so the specification never asks
the code under test what an annotation means.

Annotation: ["asta", lib, dtype text or null, pattern or null, attrs or null]
  ["List"|"Sequence"|"Set"|"AbstractSet", d] ["Dict", k, v] ["Tuple", [d..]] ["TupleV", d] ["TupleE"]
  ["NT", name, [[f, d]..]] ["TD", total, [[k, d]..]] ["Union", [d..]] ["None"] ["bare", text] ["py", text]
Value: ["arr", lib, shape, dtype text] ["harr", shape, dtype] (hashable array) ["list"|"tuple"|"set"|"fset"|"seq", [v..]]
  ["dict", [[k, v]..]] ["nt", name, [v..]] ["lit", text]
"""
import collections
import collections.abc
import typing
from typing import AbstractSet, Any, Dict, List, NamedTuple, Optional, Sequence, Set, Tuple, TypedDict, Union, NamedTuple
from common import *

CAP = 60


class Unknown(Exception):
    pass


class HArr(np.ndarray):
    """An array that can be put in a set or used as a key."""
    __hash__ = object.__hash__

    def __eq__(self, o):
        return self is o


class MySeq(collections.abc.Sequence):
    def __init__(self, items):
        self.items = items

    def __getitem__(self, i):
        return MySeq(self.items[i]) if isinstance(i, slice) else self.items[i]

    def __len__(self):
        return len(self.items)


class MySet(collections.abc.Set):
    def __init__(self, items):
        self.items = list(items)

    def __contains__(self, x):
        return any(x is y for y in self.items)

    def __iter__(self):
        return iter(self.items)

    def __len__(self):
        return len(self.items)


PYT = {"int": int, "float": float, "str": str, "bool": bool, "bytes": bytes, "complex": complex, "object": object}
_nt = {}


def dtype_obj(text):
    return ev(text)


def attr_vals(attrs):
    return None if attrs is None else {k: (expr(v[1]) if v[0] == "x" else ev(v[1])) for k, v in attrs.items()}


def build_asta(d):
    _, lib, dt, pat, attrs = d
    item = []
    if dt is not None:
        item.append(dtype_obj(dt))
    if pat is not None:
        item += list(mk(pat)) if pat else [()]
    if attrs is not None:
        item.append(attr_vals(attrs))
    if not item:
        return klass(lib)
    return klass(lib)[item[0]] if len(item) == 1 else klass(lib)[tuple(item)]


def nt_class(d):
    key = repr(d)
    if key not in _nt:
        _nt[key] = NamedTuple(d[1], [(f, build(x)) for f, x in d[2]])
    return _nt[key]


def build(d):
    k = d[0]
    if k == "asta":
        return build_asta(d)
    if k == "List":
        return List[build(d[1])]
    if k == "list":
        return list[build(d[1])]
    if k == "Sequence":
        return Sequence[build(d[1])]
    if k == "Set":
        return Set[build(d[1])]
    if k == "AbstractSet":
        return AbstractSet[build(d[1])]
    if k == "Dict":
        return Dict[build(d[1]), build(d[2])]
    if k == "Tuple":
        return Tuple[tuple(build(x) for x in d[1])]
    if k == "TupleV":
        return Tuple[build(d[1]), ...]
    if k == "TupleE":
        return Tuple[()]
    if k == "NT":
        return nt_class(d)
    if k == "TD":
        # total may be a list: a class that extends one of another totality, a field each
        t = TypedDict("TD", {a: build(x) for a, x in d[2]}, total=d[1]) if isinstance(d[1], bool) else None
        if t is None:
            for tot, (a, x) in zip(d[1], d[2]):
                ns = {"__annotations__": {a: build(x)}, "__module__": __name__}
                t = types.new_class("TD", (TypedDict if t is None else t,), {"total": tot}, lambda n, ns=ns: n.update(ns))
        return t
    if k == "Union":
        return Union[tuple(build(x) for x in d[1])]
    if k == "None":
        return None if len(d) > 1 else type(None)
    if k == "bare":
        return ev(d[1], List=List, Dict=Dict, Set=Set, Tuple=Tuple, Sequence=Sequence, AbstractSet=AbstractSet, collections=collections)
    if k == "py":
        return ev(d[1], typing=typing, Any=Any, List=List, Dict=Dict, Set=Set, Tuple=Tuple)
    raise ValueError(k)


def hashables(vs):
    out = [build_val(v) for v in vs]
    for x in out:
        try:
            hash(x)
        except TypeError:
            raise Skip()
    return out


def build_val(v):
    k = v[0]
    if k == "arr":
        if v[1] == "np":
            return np.zeros(v[2], v[3] or "int8") if len(v[2]) < 5 else nparr(tuple(v[2]), v[3] or "int8")
        return value(v[1], tuple(v[2]), ev(v[3]) if v[3] else None)
    if k == "harr":
        return np.zeros(v[1], v[2] or "int8").view(HArr)
    if k == "list":
        return [build_val(x) for x in v[1]]
    if k == "tuple":
        return tuple(build_val(x) for x in v[1])
    if k == "seq":
        return MySeq([build_val(x) for x in v[1]])
    if k == "set":
        return set(hashables(v[1]))
    if k == "fset":
        return frozenset(hashables(v[1]))
    if k == "myset":
        return MySet(build_val(x) for x in v[1])
    if k == "dict":
        return dict(zip(hashables(a for a, _ in v[1]), [build_val(b) for _, b in v[1]]))
    if k == "odict":
        return collections.OrderedDict(zip(hashables(a for a, _ in v[1]), [build_val(b) for _, b in v[1]]))
    if k == "nt":
        return nt_class(v[1])(*[build_val(x) for x in v[2]])
    if k == "lit":
        return ev(v[1])
    raise ValueError(k)


# ------------------------------------------------------------------ specification
def np_dtype_ok(dt, have):
    if dt is None:
        return True
    if dt in PYT:
        if dt == "str":
            return have.kind == "U"
        if dt == "bytes":
            return have.kind == "S"
        if dt == "object":
            return have.kind == "O"
        return have == {"int": np.dtype("int64"), "float": np.dtype("float64"), "bool": np.dtype("bool"), "complex": np.dtype("complex128")}[dt]
    o = {"datetime.datetime": np.datetime64, "datetime.timedelta": np.timedelta64}.get(dt) or dtype_obj(dt)
    return np.dtype(o) == have


def tf_dtype_ok(dt, have):
    if dt is None:
        return True
    if dt in PYT:
        return have == {"int": tf.int32, "float": tf.float32, "complex": tf.complex128, "bool": tf.bool, "bytes": tf.string, "str": tf.string}[dt]
    return have == dtype_obj(dt)


def torch_dtype_ok(dt, have):
    if dt is None:
        return True
    if dt in PYT:
        return have is {"int": torch.int32, "float": torch.float32, "bool": torch.bool, "bytes": torch.uint8}[dt]
    return have is dtype_obj(dt)


MISSING = object()


def spec_asta(x, d):
    """(greedy equations or None, possible equation tuples)"""
    _, lib, dt, pat, attrs = d
    if lib == "np":
        if not isinstance(x, np.ndarray) or not np_dtype_ok(dt, x.dtype):
            return None, []
    elif lib == "tf":
        if not isinstance(x, tf.Tensor) or not tf_dtype_ok(dt, x.dtype):
            return None, []
    else:
        if not isinstance(x, torch.Tensor) or not torch_dtype_ok(dt, x.dtype):
            return None, []
    extra = []
    for k, v in (attr_vals(attrs) or {}).items():
        got = getattr(x, k, MISSING)
        if got is MISSING:
            return None, []
        if is_expr(v):
            extra.append(v - got)
        elif not (got == v):
            return None, []
    extra = tuple(extra)
    shape = tuple(int(n) for n in x.shape)
    if pat is None:
        ok = solvable(extra)
        return (extra, [extra]) if ok else (None, [])
    p = mk(pat)
    if not any(is_expr(e) for e in p):
        ok = matches(p, shape) and solvable(extra)
        return (extra, [extra]) if ok else (None, [])
    poss = []
    for s in itertools.islice(splits(p, shape), CAP):
        s = tuple(s) + extra
        if solvable(s):
            poss.append(s)
    g = leftmost(p, shape) if Ellipsis in p else (poss[0][:len(poss[0]) - len(extra)] if poss else None)
    if g is not None:
        g = tuple(g) + extra
        if not solvable(g):
            g = None
    return g, poss


def seq_parts(parts):
    g, poss = (), [()]
    for pg, pp in parts:
        g = None if g is None or pg is None else g + pg
        poss = [a + b for a in poss for b in pp][:CAP]
        if not poss:
            return None, []
    return g, poss


NO = (None, [])
YES = ((), [()])


def spec(x, d, o):
    k = d[0]
    if k == "asta":
        return spec_asta(x, d)
    if k in ("List", "list", "Sequence"):
        if not isinstance(x, list if k != "Sequence" else collections.abc.Sequence):
            return NO
        xs = list(x) if o["all"] else list(x)[:1]
        return seq_parts([spec(e, d[1], o) for e in xs])
    if k in ("Set", "AbstractSet"):
        if not isinstance(x, collections.abc.Set):
            return NO
        return seq_parts([spec(e, d[1], o) for e in x])
    if k == "Dict":
        if not isinstance(x, dict):
            return NO
        return seq_parts([p for a, b in x.items() for p in (spec(a, d[1], o), spec(b, d[2], o))])
    if k == "Tuple":
        if not isinstance(x, tuple) or len(x) != len(d[1]):
            return NO
        return seq_parts([spec(e, t, o) for e, t in zip(x, d[1])])
    if k == "TupleV":
        return seq_parts([spec(e, d[1], o) for e in x]) if isinstance(x, tuple) else NO
    if k == "TupleE":
        return YES if isinstance(x, tuple) and len(x) == 0 else NO
    if k == "NT":
        if not isinstance(x, nt_class(d)):
            return NO
        return seq_parts([spec(getattr(x, f), t, o) for f, t in d[2]])
    if k == "TD":
        tot = [d[1]] * len(d[2]) if isinstance(d[1], bool) else d[1]
        if not isinstance(x, dict) or set(x) - {a for a, _ in d[2]} or {a for (a, _), t in zip(d[2], tot) if t} - set(x):
            return NO
        return seq_parts([spec(x[a], t, o) for a, t in d[2] if a in x])
    if k == "Union":
        g, poss = None, []
        for t in d[1]:
            a, b = spec(x, t, o)
            if g is None:
                g = a
            poss += b
        return g, poss[:CAP]
    if k == "None":
        return YES if x is None else NO
    if k == "bare":
        base = {"List": list, "list": list, "Dict": dict, "dict": dict, "Set": collections.abc.Set, "set": collections.abc.Set,
                "AbstractSet": collections.abc.Set, "Tuple": tuple, "tuple": tuple, "Sequence": collections.abc.Sequence,
                "collections.abc.Set": collections.abc.Set, "collections.abc.Sequence": collections.abc.Sequence}[d[1]]
        if d[1][0] in "ldstc" and not isinstance(x, base):
            raise Unknown()        # a plain class is a non-asta annotation: enforced or not, as configured
        return YES if isinstance(x, base) else NO
    if k == "py":
        return YES            # non-asta annotation, not enforced by default
    raise ValueError(k)


def verdict_of(parts):
    """yes / no / either for the conjunction of (greedy, possible) pairs."""
    g, poss = seq_parts(parts)
    if g is not None and solvable(g):
        return "yes"
    for p in poss:
        if solvable(p):
            return "either"
    if len(poss) >= CAP:
        return "either"
    return "no"


def verdict_on(pairs, o=None):
    o = o or dict(all=True)
    try:
        return verdict_of([spec(x, d, o) for x, d in pairs])
    except Unknown:
        return "either"


# ------------------------------------------------------------------ functions to decorate
def mkfun(params, ret, store):
    """params: [(name, annotation, has_default, default, kind)]; the function records its arguments
    in store["calls"] and returns store["ret"]."""
    src, kwonly = [], False
    env = {"_s": store}
    for i, (n, ann, hasdef, default, kind) in enumerate(params):
        if kind == "kwonly" and not kwonly:
            src.append("*")
            kwonly = True
        env[f"_d{i}"] = default
        src.append(n + (f"=_d{i}" if hasdef else ""))
        if kind == "posonly" and (i + 1 == len(params) or params[i + 1][4] != "posonly"):
            src.append("/")
    names = [p[0] for p in params]
    code = f"def fun({', '.join(src)}):\n    _s['calls'].append(({''.join(x + ',' for x in names)}))\n    if _s.get('exc') is not None:\n        raise _s['exc']\n    return _s['ret']\n"
    exec(code, env)
    f = env["fun"]
    f.__module__ = "verif_case"
    f.__annotations__ = {n: a for n, a, *_ in params if a is not NOANN}
    if ret is not NOANN:
        f.__annotations__["return"] = ret
    return f


NOANN = object()


# ------------------------------------------------------------------ descriptor generators
DT = {"np": ["int", "float", "str", "bytes", "np.int32", "np.dtype('float32')", "bool", "complex", "object"],
      "tf": ["int", "float", "bool", "tf.int64", "tf.float16", "str"],
      "torch": ["int", "float", "bool", "bytes", "torch.float64", "torch.int64"]}
HAVE = {"np": ["int8", "int64", "float64", "float32", "int32", "U3", "S2", "bool", "complex128", "O"],
        "tf": ["tf.int32", "tf.float32", "tf.bool", "tf.int64", "tf.float16", "tf.string"],
        "torch": ["torch.int32", "torch.float32", "torch.bool", "torch.uint8", "torch.float64", "torch.int64"]}
FITS = {"int": {"np": "int64", "tf": "tf.int32", "torch": "torch.int32"}, "float": {"np": "float64", "tf": "tf.float32", "torch": "torch.float32"},
        "bool": {"np": "bool", "tf": "tf.bool", "torch": "torch.bool"}, "str": {"np": "U3", "tf": "tf.string"}, "bytes": {"np": "S2", "tf": "tf.string", "torch": "torch.uint8"},
        "complex": {"np": "complex128"}, "object": {"np": "O"}, "np.int32": {"np": "int32"}, "np.dtype('float32')": {"np": "float32"}}


def gen_asta(rng, lib=None, sym=True, attrs=0.15):
    lib = lib or rng.choice(libs() + ["np"] * 3)
    dt = rng.choice(DT[lib]) if rng.random() < 0.4 else None
    pat = None
    if rng.random() < 0.85:
        al = [1, 2, 3, -1, "..."] + (["X", "Y", "X+1", "X", "Y"] if sym else [])
        pat = rand_pattern(rng, al, rng.choice((0, 1, 1, 2, 2, 3)))
    at = None
    if rng.random() < attrs:
        at = rng.choice([{"ndim": ["p", str(rng.randint(0, 3))]}] + ([{"ndim": ["x", "X"]}] if sym else []))
        if lib != "np":
            at = {"shape": ["p", "(2,)"]} if lib == "torch" else {"ndim": ["p", str(rng.randint(0, 2))]}
    return ["asta", lib, dt, pat, at]


def gen_fit(rng, d, env, hashable=False):
    """A value that probably conforms."""
    _, lib, dt, pat, at = d
    if pat is None:
        s = [rng.randint(1, 3) for _ in range(rng.choice((0, 1, 2)))]
    else:
        s = []
        for p in pat:
            if p == "...":
                s += [rng.randint(1, 3) for _ in range(rng.choice((0, 1, 2)))]
            elif p == -1:
                s.append(rng.randint(1, 3))
            elif isinstance(p, int):
                s.append(p)
            else:
                s.append(max(0, int(expr(p).subs(env))))
    have = FITS.get(dt, {}).get(lib) if dt in FITS else dt
    if have is None:
        have = rng.choice(HAVE[lib]) if dt is None else rng.choice(HAVE[lib])
    if hashable and lib == "np":
        return ["harr", s, have]
    return ["arr", lib, s, have]


def disturb(rng, v):
    """Change something in a value descriptor."""
    v = list(v)
    k = v[0]
    q = rng.random()
    if k in ("arr", "harr"):
        if q < 0.15:
            return ["lit", rng.choice(("None", "3", "'a'", "[1, 2]", "(1, 2)", "np.float64(2.0)"))] if k == "arr" else ["lit", "3"]
        i = 2 if k == "arr" else 1
        s = list(v[i])
        if s and q < 0.6:
            j = rng.randrange(len(s))
            s[j] = rng.choice((0, 1, 2, 3, 4))
        elif q < 0.75:
            s.append(rng.randint(0, 2))
        elif q < 0.85 and s:
            s.pop(rng.randrange(len(s)))
        else:
            lib = v[1] if k == "arr" else "np"
            v[i + 1] = rng.choice(HAVE[lib])
        v[i] = s
        return v
    if k in ("list", "tuple", "seq", "set", "fset", "myset"):
        xs = list(v[1])
        if xs and q < 0.6:
            i = rng.randrange(len(xs))
            xs[i] = disturb(rng, xs[i])
        elif q < 0.7 and xs:
            xs.pop(rng.randrange(len(xs)))
        elif q < 0.8 and xs:
            xs.append(xs[0])
        elif q < 0.9:
            if k in ("list", "tuple", "seq"):
                return [rng.choice(("list", "tuple", "seq")), xs]
        else:
            return ["lit", rng.choice(("None", "3", "()", "[]", "{}", "np.zeros((2,))"))]
        return [k, xs]
    if k in ("dict", "odict"):
        xs = [list(p) for p in v[1]]
        if xs and q < 0.7:
            i = rng.randrange(len(xs))
            j = 1 if rng.random() < 0.7 or xs[i][0][0] == "lit" else 0
            xs[i][j] = disturb(rng, xs[i][j])
        elif xs and q < 0.8:
            xs.pop()
        elif q < 0.9:
            return ["lit", rng.choice(("None", "3", "[]", "()"))]
        else:
            xs.append([["lit", "'extra'"], ["lit", "1"]])
        return [k, xs]
    if k == "nt":
        if q < 0.85 and v[2]:
            xs = list(v[2])
            i = rng.randrange(len(xs))
            xs[i] = disturb(rng, xs[i])
            return [k, v[1], xs]
        return ["tuple", v[2]]
    return rng.choice([["lit", "None"], ["lit", "3"], ["arr", "np", [2], "int8"], ["list", []], ["tuple", []]])


def gen_comp(rng, depth, env, hashable=False, sym=True):
    """(annotation, conforming value)"""
    if depth == 0 or rng.random() < 0.1:
        if rng.random() < 0.08:
            return ["None"], ["lit", "None"]
        if rng.random() < 0.05 and not hashable:
            return ["py", "int"], ["lit", "3"]
        if rng.random() < 0.08:
            return ["py", "Any"], ["lit", rng.choice(("3", "None", "'t'", "(1, 2)"))]
        d = gen_asta(rng, lib="np" if hashable else None, sym=sym)
        return d, gen_fit(rng, d, env, hashable)
    kinds = ["List", "Sequence", "TupleV", "Tuple", "Dict", "Set", "Union", "Union", "NT", "TD", "TupleE", "bare", "list", "AbstractSet"]
    if hashable:
        kinds = ["Tuple", "TupleV", "Union", "NT"]
    k = rng.choice(kinds)
    sub = lambda h=False: gen_comp(rng, depth - 1, env, h or hashable, sym)

    def many(d, v):
        return [v if rng.random() < 0.5 else again(rng, d, env, v, hashable) for _ in range(rng.choice((0, 1, 2, 3)))]
    if k in ("List", "list"):
        d, v = sub()
        return [k, d], ["list", many(d, v)]
    if k == "Sequence":
        d, v = sub()
        return [k, d], [rng.choice(("list", "tuple", "seq")), many(d, v)]
    if k in ("Set", "AbstractSet"):
        d, v = sub(True)
        vs = [v if i == 0 else again(rng, d, env, v, True) for i in range(rng.choice((0, 1, 2)))]
        return [k, d], [rng.choice(("set", "fset", "myset")), vs]
    if k == "Dict":
        d, v = sub()
        if rng.random() < 0.3:
            dk, vk = sub(True)
            return [k, dk, d], ["dict", [[again(rng, dk, env, vk, True), again(rng, d, env, v)] for _ in range(rng.choice((0, 1, 2)))]]
        return [k, ["py", "str"], d], [rng.choice(("dict", "odict")), [[["lit", repr(c)], again(rng, d, env, v)] for c in "abc"[:rng.randint(0, 3)]]]
    if k == "TupleV":
        d, v = sub()
        return [k, d], ["tuple", many(d, v)]
    if k == "Tuple":
        ps = [sub() for _ in range(rng.choice((1, 2, 3)))]
        return [k, [p[0] for p in ps]], ["tuple", [p[1] for p in ps]]
    if k == "TupleE":
        return [k], ["tuple", []]
    if k == "NT":
        ps = [sub() for _ in range(rng.choice((1, 2)))]
        d = [k, "NT" + str(rng.randint(0, 3)), [["f%d" % i, p[0]] for i, p in enumerate(ps)]]
        return d, ["nt", d, [p[1] for p in ps]]
    if k == "TD":
        ps = [sub() for _ in range(rng.choice((1, 2, 3)))]
        total = rng.random() < 0.5
        vs = [[["lit", repr("k%d" % i)], p[1]] for i, p in enumerate(ps) if total or rng.random() < 0.7]
        return [k, total, [["k%d" % i, p[0]] for i, p in enumerate(ps)]], ["dict", vs]
    if k == "Union":
        ps = [sub() for _ in range(rng.choice((2, 2, 3)))]
        if rng.random() < 0.4:
            ps.append((["None"], ["lit", "None"]))
        return [k, [p[0] for p in ps]], rng.choice(ps)[1]
    t = rng.choice(("List", "Dict", "Tuple", "Sequence", "list", "dict", "tuple", "set", "Set", "AbstractSet", "collections.abc.Sequence"))
    v = {"L": ["list", []], "D": ["dict", []], "T": ["tuple", []], "S": ["list", []]}
    base = {"List": ["list", [["lit", "1"]]], "list": ["list", []], "Dict": ["dict", []], "dict": ["dict", [[["lit", "1"], ["lit", "2"]]]], "Tuple": ["tuple", [["lit", "1"]]],
            "tuple": ["tuple", []], "Sequence": ["list", [["lit", "1"]]], "set": ["set", []], "Set": ["set", [["lit", "1"]]], "AbstractSet": ["fset", []], "collections.abc.Sequence": ["tuple", [["lit", "1"]]]}[t]
    return ["bare", t], base


def again(rng, d, env, v, hashable=False):
    """Another value for the same annotation (fresh free dimensions)."""
    if d[0] == "asta":
        return gen_fit(rng, d, env, hashable)
    return v
