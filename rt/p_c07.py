from oracle import *

RULE = ("random histories of subscriptions, hash computations, comparisons and uses as dictionary keys and generic arguments on a growing pool of types; after every "
        "step each type must have the parts it was created with, equality must be agreement of library and parts, and equal types must hash alike; "
        "nontrivial: the history has two types that are equal but were built differently")

SUBS = ["[3]", "[4]", "[3, 4]", "[(3, 4)]", "[()]", "[Scalar]", "[...]", "[-1]", "[float]", "[float, 3]", "[int]", "[{'ndim': 1}]", "[{'ndim': 2}]", "[float, 3, {'ndim': 1}]", "[X]", "[X + 1]", "[1 + X]",
        "[float, X]", "[sympy.Symbol('X')]", "[dims.D1]", "[2 * dims.D1]", "[3, {'a': [1]}]", "[3, {'a': [1]}]", "[3, {'a': 1, 'b': 2}]", "[3, {'b': 2, 'a': 1}]", "[3.0 if False else 3]", "[1, ..., 2]", "[0]", "[1, ...]", "[3][float]", "[{'ndim': X}]"]
LIBSUBS = {"np": ["[np.float64]", "[np.dtype('float64')]", "[str]", "[np.dtype('U')]", "[np.dtype(str)]", "[bytes]", "[object]", "[np.dtype('O')]", "[str, 3]", "[np.str_, 3]", "[np.float32]", "[np.dtype('>f8')]", "[np.dtype('<f8')]", "[np.int64]", "[np.dtype('q')]", "[np.dtype('l')]"],
           "tf": ["[tf.float32]", "[tf.TensorShape([3, 4])]", "[str]", "[bytes]", "[tf.string]", "[tf.float32, 3]"], "torch": ["[torch.float32]", "[torch.Size([3, 4])]", "[torch.float32, 3]", "[bytes]", "[torch.float32, torch.Size([3])]"]}


def nontrivial(c):
    return len(c["ops"]) > 4


def parts(t):
    s = t.shape
    return (type(t), t.dtype, None if s is None else tuple(s), None if t.kwattrs is None else dict(t.kwattrs), getattr(t, "kind", ""))


def agree(a, b):
    if a[0] is not b[0]:
        return False
    if (a[1] is None) != (b[1] is None) or (a[1] is not None and a[1] != b[1]):
        return False
    return a[2:] == b[2:]


def run(c):
    pool, snap = [klass(l) for l in libs()], []
    libof = libs()[:]
    snap = [parts(t) for t in pool]
    base = [dict((k, t.__dict__.get(k)) for k in ("dtype", "shape", "kwattrs", "kind")) for t in pool]
    for op in c["ops"]:
        k = op[0]
        i = op[1] % len(pool)
        t = pool[i]
        if k == "sub":
            text = op[2]
            if text not in SUBS and text not in LIBSUBS[libof[i]]:
                continue
            try:
                u = ev("T" + text, T=t)
            except TypeError:
                return f"{text} is refused"
            if u is t or any(u is p for p in pool):
                return "subscription returned an existing type"
            pool.append(u)
            libof.append(libof[i])
            snap.append(parts(u))
        elif k == "hash":
            hash(t)
        elif k == "use":
            {t: 1}, List[t], Dict[str, t], Union[t, None], {t, pool[op[2] % len(pool)]}
        elif k == "check":
            isinstance(np.zeros((3,)), t)
        elif k == "repr":
            repr(t)
        elif k == "eq":
            t == pool[op[2] % len(pool)]
        elif k == "deco":
            f = typechecked(mkfun([("a", t, False, None, "pos")], t, dict(calls=[], ret=None)))
            try:
                f(np.zeros((3,)))
            except TypeError:
                pass
        elif k == "odd":
            for o in (3, None, "a", int, (3,), np.zeros(2), np.dtype("int8"), List[int]):
                if t == o or not (t != o):
                    return f"equal to {o!r}"
        if parts(t) != snap[i] or not agree(parts(t), snap[i]):
            return f"after {op}: type {i} changed from {snap[i]} to {parts(t)}"
    for i, t in enumerate(pool):
        if not agree(parts(t), snap[i]):
            return f"type {i} changed from {snap[i]} to {parts(t)}"
    hs = [hash(t) for t in pool]
    for i, a in enumerate(pool):
        if hash(a) != hs[i]:
            return "a hash changed"
        for j, b in enumerate(pool):
            want = agree(snap[i], snap[j])
            if (a == b) is not want or (a != b) is want:
                return f"== of {snap[i]} and {snap[j]} is {a == b}"
            if want and hs[i] != hs[j]:
                return f"equal types {a!r} and {b!r} have different hashes"


def cases(tier, rng):
    L = libs()
    for i, l in enumerate(L):
        if l == "np" and not MAIN:
            continue
        subs = SUBS + LIBSUBS[l]
        for a in subs:
            for b in subs:
                yield dict(ops=[["sub", i, a], ["hash", len(L)], ["sub", i, b], ["eq", len(L), len(L) + 1]])
        for a in subs:
            for b in rng.sample(subs, 6):
                # subscripting a subscripted (and already hashed) type
                yield dict(ops=[["sub", i, a], ["hash", len(L)], ["sub", len(L), b], ["sub", i, b], ["sub", i, a], ["odd", len(L)]])
    for n in range(250 if tier != "thorough" else 8000):
        ops = []
        for _ in range(rng.randint(5, 20)):
            k = rng.choice(("sub", "sub", "sub", "hash", "use", "eq", "check", "repr", "odd", "deco"))
            i = rng.randrange(30)
            if k == "sub":
                ops.append([k, i, rng.choice(SUBS[:12] + LIBSUBS[rng.choice(L)]) if rng.random() < 0.6 else rng.choice(SUBS)])
            else:
                ops.append([k, i, rng.randrange(30)])
        yield dict(ops=ops)
