from oracle import *
import types as _t

RULE = ("generated class bodies: annotated and plain methods, class methods, static methods, special methods, properties, nested classes with and without annotations "
        "(two levels), class variables, borrowed functions and classes, descriptors; every attribute compared before and after and every decorated one called with "
        "conforming and refused values; nontrivial: three members or more")


def nontrivial(c):
    return len(c["members"]) >= 3


class Desc:
    def __get__(self, o, t):
        return 5


def outer(self, a: Array[2]):
    return a


class Outer:
    q: int = 1

    def meth(self, a: Array[2]):
        return a


ENV = dict(Array=Array, X=X, outer=outer, Outer=Outer, Desc=Desc, np=np, functools=__import__("functools"), LOG=[])

# kind: (source lines, decorated?)
MEMBERS = {
    "meth": ["def {n}(self, a: Array[2], b: Array[3]):", "    LOG.append('{n}')", "    return a"],
    "methret": ["def {n}(self, a: Array[2], b: Array[3]) -> Array[2]:", "    LOG.append('{n}')", "    return a"],
    "plain": ["def {n}(self, a, b):", "    LOG.append('{n}')", "    return a"],
    "cm": ["@classmethod", "def {n}(cls, a: Array[2], b: Array[3]):", "    LOG.append('{n}')", "    return a"],
    "cmplain": ["@classmethod", "def {n}(cls, a, b):", "    LOG.append('{n}')", "    return a"],
    "sm": ["@staticmethod", "def {n}(a: Array[2], b: Array[3]) -> Array[2]:", "    LOG.append('{n}')", "    return a"],
    "smplain": ["@staticmethod", "def {n}(a, b):", "    LOG.append('{n}')", "    return a"],
    "prop": ["@property", "def {n}(self) -> int:", "    return 3"],
    "var": ["{n} = 7"], "avar": ["{n}: int = 7"], "lam": ["{n} = lambda self, a, b: a"], "borrow": ["{n} = outer"], "borrowcls": ["{n} = Outer"], "borrowmeth": ["{n} = Outer.meth"],
    "desc": ["{n} = Desc()"], "asta": ["{n} = Array[3]"], "inst": ["{n} = Outer()"], "partial": ["{n} = functools.partial(outer, None)"], "builtin": ["{n} = len"], "doc": ["{n} = 'text'"], "lst": ["{n} = [1, 2]"],
    "longer": ["{n} = {longer}.meth"], "longercm": ["{n} = {longer}.__dict__['cm']"], "longercls": ["{n} = {longer}.In"],
    "type": ["{n} = int"], "boundm": ["{n} = Outer().meth"],
}
DEC = {"meth", "methret", "cm", "sm"}


def emit(members, ind, longer="Outer"):
    out = []
    for m in members:
        if m[0] in ("nest", "nestann"):
            out.append(ind + f"class {m[1]}:")
            body = emit(m[2], ind + "    ", longer)
            if m[0] == "nestann":
                body = [ind + "    zz: int = 1"] + body
            out += body or [ind + "    pass"]
        else:
            out += [ind + l.format(n=m[1], longer=longer) for l in MEMBERS[m[0]]]
    return out


def body(K):
    """The class body (reading __annotations__ of a class may create it)."""
    return {k: v for k, v in vars(K).items() if k != "__annotations__"}


def check(K, before, members, A, name):
    now = body(K)
    if set(now) != set(before[K]):
        return f"attributes of {name} appeared or vanished: {set(now) ^ set(before[K])}"
    decs = {m[1]: m[0] for m in members if m[0] in DEC}
    nests = {m[1]: m for m in members if m[0] in ("nest", "nestann")}
    for k, v in now.items():
        if k in decs:
            continue
        if v is not before[K][k] and k not in ("__dict__", "__weakref__", "__annotations__"):
            return f"attribute {name}.{k} was changed"
    for k, kind in decs.items():
        v0, v = before[K][k], now[k]
        if v is v0:
            return f"{name}.{k} ({kind}) is not decorated"
        if type(v) is not type(v0):
            return f"{name}.{k} was a {type(v0).__name__}, is a {type(v).__name__}"
        if getattr(v, "__func__", v).__name__ != getattr(v0, "__func__", v0).__name__:
            return "name lost"
        for via in ((K(), K) if kind in ("cm", "sm") else (K(),)):
            call = getattr(via, k)
            for x, y, ok in ((A[2], A[3], True), (A[3], A[3], False), (A[2], A[2], False)):
                ENV["LOG"].clear()
                try:
                    r = call(x, b=y)
                    out = True
                except TypeError:
                    out = False
                if out != ok or out and (r is not x or ENV["LOG"] != [k]) or not out and ENV["LOG"]:
                    return f"{name}.{k} ({kind}): accepted={out}, expected {ok}, calls {ENV['LOG']}"
    for k, m in nests.items():
        if now[k] is not before[K][k]:
            return f"nested class {name}.{k} was replaced"
        sub = [x for x in m[2]]
        N = now[k]
        if m[0] == "nest" and not has_ann(m):
            if body(N) != before[N]:
                return f"nested class {name}.{k} without annotations was changed"
        else:
            r = check(N, before, sub, A, name + "." + k)
            if r:
                return r
    for m in members:
        if m[0] in ("plain", "cmplain", "smplain", "lam"):
            if getattr(K(), m[1])(A[7], A[7]) is not A[7]:
                return f"{name}.{m[1]} does not work"


def has_ann(m):
    return m[0] == "nestann" or any(x[0] == "avar" for x in m[2])


def collect(K, members, before):
    before[K] = body(K)
    for m in members:
        if m[0] in ("nest", "nestann"):
            collect(vars(K)[m[1]], m[2], before)


def run(c):
    A = {i: np.zeros(i) for i in (2, 3, 7)}
    name = c.get("name", "K")
    body = emit(c["members"], "    ", name + "er") or ["    pass"]
    # a class whose name begins like the decorated one
    src = [f"class {name}er:", "    q: int = 1", "    def meth(self, a: Array[2]):", "        return a", "    class In:", "        q: int = 1", "        def im(self, a: Array[2]):", "            return a", "    class cmh:", "        pass",
           "    @classmethod", "    def cm(cls, a):", "        return a"] + ["class " + c.get("name", "K") + ("(Outer)" if c.get("sub") else "") + ":"] + body
    if c.get("local"):
        src = ["def make():"] + ["    " + l for l in src] + [f"    return {c.get('name', 'K')}"]
    env = dict(ENV, __name__="verif_case")
    exec("\n".join(src), env)
    K = env["make"]() if c.get("local") else env[c.get("name", "K")]
    outer0 = dict(vars(Outer))
    before = {}
    collect(K, c["members"], before)
    if c.get("special"):
        pass
    r = typechecked(K)
    if r is not K:
        return "another object is returned"
    m = check(K, before, c["members"], A, "K")
    if m:
        return m
    if dict(vars(Outer)) != outer0:
        return "a class outside was changed"


def gen(rng, depth):
    out = []
    for i in range(rng.choice((0, 1, 2, 3, 4, 6, 8))):
        n = rng.choice(("m", "_m", "__call__", "fn")) + ("" if i == 0 else str(i))
        if n.startswith("__call__"):
            n = "__call__" if not any(x[1] == "__call__" for x in out) and depth == 2 else "c%d" % i
        if depth and rng.random() < 0.25:
            sub = gen(rng, depth - 1)
            out.append([rng.choice(("nest", "nestann", "nestann")), "N%d" % i, sub])
        else:
            k = rng.choice(list(MEMBERS))
            if n == "__call__":
                k = rng.choice(("meth", "methret", "plain"))
            out.append([k, n])
    return out


def cases(tier, rng):
    deep = tier == "thorough"
    for k in MEMBERS:
        for extra in ([], [["meth", "zz2"]], [["plain", "p"]], [["avar", "v"]]):
            for local in (False, True):
                yield dict(members=[[k, "m"]] + extra, local=local)
        yield dict(members=[["nestann", "N", [[k, "m"]]], ["meth", "q"]])
        yield dict(members=[["nest", "N", [[k, "m"]]], ["meth", "q"]])
        yield dict(members=[["nestann", "N", [["nestann", "M", [[k, "m"]]]]]])
        yield dict(members=[["meth", "m"], [k, "m2"]], sub=True)
    for _ in range(600 if not deep else 30000):
        yield dict(members=gen(rng, 2), local=rng.random() < 0.5, sub=rng.random() < 0.2, name=rng.choice(("K", "Outer2", "N1")))
