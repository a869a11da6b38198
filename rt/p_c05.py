from oracle import *

RULE = ("constraint dictionaries of 0-3 attributes (missing, equal, unequal, falsy, None, symbolic) with and without dtype and shape, on arrays with extra "
        "attributes, through isinstance, typechecked arguments and results; nontrivial: at least two constraints or a symbolic one")


class Att(np.ndarray):
    pass


class TAtt:
    pass


ATTS = {"size", "ndim", "shape", "itemsize", "nbytes"}


def nontrivial(c):
    return len(c["attrs"] or {}) > 1 or any(v[0] == "x" for v in (c["attrs"] or {}).values())


def make(c):
    if c["lib"] == "np":
        x = np.zeros(c["shape"], c["have"]).view(Att)
    else:
        x = value(c["lib"], tuple(c["shape"]), ev(c["have"]))
    for k, v in c["extra"].items():
        setattr(x, k, ev(v))
    return x


def run(c):
    x = make(c)
    d = ["asta", c["lib"], c["dt"], c["pat"], c["attrs"]]
    C = klass(c["lib"])
    if c["staged"]:
        t = C
        if c["attrs"] is not None:
            t = t[attr_vals(c["attrs"])] if c["dt"] is None else t[dtype_obj(c["dt"]), attr_vals(c["attrs"])]
        elif c["dt"]:
            t = t[dtype_obj(c["dt"])]
        if c["pat"] is not None:
            t = t[mk(c["pat"])]
    else:
        t = build_asta(d)
    want = verdict_on([(x, d)])
    if want == "either":
        raise Skip()
    before = dict(x.__dict__) if hasattr(x, "__dict__") else None
    for _ in range(2):
        got = isinstance(x, t)
        if got != (want == "yes"):
            return f"isinstance is {got}, expected {want}"
    for where in ("arg", "ret"):
        store = dict(calls=[], ret=x)
        f = typechecked(mkfun([("a", t, False, None, "pos")] if where == "arg" else [], t if where == "ret" else NOANN, store))
        try:
            f(x) if where == "arg" else f()
            got = "yes"
        except TypeError:
            got = "no"
        if got != want:
            return f"typechecked {where}: accepted={got}, expected {want}"
    if before is not None and set(before) != set(x.__dict__):
        return "the value was modified"


VALS = ["0", "1", "2", "None", "False", "True", "''", "'cpu'", "'gpu'", "(1, 2)", "[1]", "{}", "1.5", "-1"]


def cases(tier, rng):
    deep = tier == "thorough"
    lib0 = "np" if MAIN else "torch"
    h0, d0 = ("float64", "float") if MAIN else ("torch.float32", "float")
    for v1, v2 in itertools.product(VALS, repeat=2):
        for pat in (None, [2, 3], [2, 4]):
            yield dict(lib=lib0, dt=None, pat=pat, attrs={"tag": ["p", v1]}, shape=[2, 3], have=h0, extra={"tag": v2}, staged=False)
    for k in ("tag", "missing"):
        for v in VALS + ["'x'"]:
            for dt in (None, d0):
                yield dict(lib=lib0, dt=dt, pat=None, attrs={k: ["p", v]}, shape=[2], have=h0, extra={"tag": v}, staged=rng.random() < 0.5)
                yield dict(lib=lib0, dt=dt, pat=[2], attrs={k: ["x", "X"]}, shape=[2], have=h0, extra={"tag": "3"}, staged=rng.random() < 0.5)
    if MAIN:
        for pat in (None, ["X"], ["X", "Y"], [-1, "X"], ["..."], ["X", "X"], [], ["X+1"], ["...", "X"]):
            for at in ({"ndim": ["x", "X"]}, {"size": ["x", "X"]}, {"size": ["x", "X*Y"]}, {"ndim": ["x", "X"], "size": ["x", "X"]}, {"tag": ["x", "X+1"]}, {"a": ["x", "X"], "b": ["x", "X"]}, {"a": ["x", "X"], "b": ["x", "X+1"], "c": ["x", "Y"]}):
                for s in ([], [1], [2], [2, 2], [1, 2], [3], [2, 1]):
                    for e in ({"tag": "3", "a": "1", "b": "1", "c": "2"}, {"tag": "2", "a": "1", "b": "2", "c": "0"}):
                        if deep or rng.random() < 0.25:
                            yield dict(lib="np", dt=rng.choice((None, "float")), pat=pat, attrs=at, shape=s, have="float64", extra=e, staged=rng.random() < 0.4)
    n = 0
    while n < (1200 if not deep else 60000):
        n += 1
        lib = rng.choice(["np", "np", "np"] + [x for x in libs() if x != "np"])
        names = ["ndim", "size", "itemsize", "tag", "a", "b", "nope"] if lib == "np" else ["device", "requires_grad", "tag", "a"] if lib == "torch" else ["ndim", "dtype", "nope"]
        shape = [rng.randint(0, 3) for _ in range(rng.choice((0, 1, 1, 2)))]
        extra = {k: rng.choice(VALS[:8] + ["1", "2", "3"]) for k in ("tag", "a", "b") if rng.random() < 0.8} if lib != "tf" else {}
        at = {}
        for k in rng.sample(names, rng.choice((1, 2, 2, 3))):
            if rng.random() < 0.3 and k in ("ndim", "size", "itemsize", "a", "tag") and (k not in extra or extra[k].lstrip("-").isdigit()):
                at[k] = ["x", rng.choice(("X", "Y", "X+1", "X*Y"))]
            elif k in extra and rng.random() < 0.6:
                at[k] = ["p", extra[k]]
            else:
                base = {"ndim": str(len(shape)), "size": str(int(np.prod(shape))), "itemsize": "8", "device": "torch.device()", "requires_grad": "False", "dtype": "tf.float32"}.get(k)
                at[k] = ["p", base if base and rng.random() < 0.7 else rng.choice(VALS)]
                if k == "device" and at[k][1] != base:
                    at[k] = ["p", "torch.device('cuda', 0)"]
                if k == "dtype" and at[k][1] != base:
                    at[k] = ["p", "tf.float64"]
        dt = rng.choice((None, "float", "int")) if rng.random() < 0.5 else None
        pat = None if rng.random() < 0.4 else [rng.choice((s, s, -1, "X", "Y")) for s in shape] if rng.random() < 0.8 else ["..."]
        have = {"np": "float64", "tf": "tf.float32", "torch": "torch.float32"}[lib]
        yield dict(lib=lib, dt=dt, pat=pat, attrs=at, shape=shape, have=have, extra=extra, staged=rng.random() < 0.3)
