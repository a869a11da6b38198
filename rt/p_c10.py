from oracle import *

RULE = ("random annotations (dtype incl. str/bytes/object, patterns with sizes, -1, ellipses and symbols, attribute constraints) and values conforming or "
        "disturbed: isinstance, the argument check, the return check and the oracle agree, value and annotation unchanged, checks repeated; "
        "nontrivial: two parts constrained")

ODDV = ["None", "3", "2.5", "'ab'", "[1, 2]", "(2,)", "np.float64(1.0)", "np.matrix([[1, 2]])", "np.ma.masked_array([1, 2], mask=[0, 1])", "np.zeros(2, [('a', int)])", "np.array('x')", "np.array([b'ab'])", "np.array(['ab', 'abc'])",
        "np.array([None, 1])", "np.zeros((2, 0))", "np.zeros((2, 2))[::-1]", "np.zeros((3, 2)).T", "range(3)", "{}", "object()", "int", "Array", "np.zeros(3).view('M8[s]')", "np.ndarray", "np.zeros"]


def nontrivial(c):
    d = c["d"]
    return sum(x is not None for x in d[2:]) >= 2


def state(x):
    if isinstance(x, np.ndarray):
        return (x.shape, x.dtype, x.strides, x.flags.writeable, x.tobytes() if x.dtype.kind != "O" else tuple(map(id, x.ravel())))
    return repr(x)


def run(c):
    d = c["d"]
    A = build(d)
    before = (A.dtype, A.shape, None if A.kwattrs is None else dict(A.kwattrs), getattr(A, "kind", None), hash(A))
    for v in c["vs"]:
        x = build_val(v)
        s0 = state(x)
        out = []
        for k in range(2):
            inst = isinstance(x, A)
            store = dict(calls=[], ret=x)
            f = typechecked(mkfun([("a", A, False, None, "pos")], NOANN, store))
            g = typechecked(mkfun([], A, store))
            try:
                f(x)
                arg = True
            except TypeError:
                arg = False
            try:
                g()
                ret = True
            except TypeError:
                ret = False
            out += [inst, arg, ret]
        if len(set(out)) > 1:
            return f"{A} on {x!r:.80}: isinstance/argument/return answer {out}"
        want = verdict_on([(x, d)]) if v[0] != "lit" or "masked" not in v[1] else "either"
        if v[0] == "lit" and "('a', int)" in v[1]:
            want = "either"
        if want != "either" and out[0] != (want == "yes"):
            return f"{A} on {x!r:.80}: answer {out[0]}, expected {want}"
        if state(x) != s0:
            return "the value was modified"
        if (A.dtype, A.shape, A.kwattrs, getattr(A, "kind", None), hash(A)) != before:
            return "the annotation was modified"


def cases(tier, rng):
    deep = tier == "thorough"
    env = {X: 2, Y: 3}
    if MAIN:
        for dt in [None] + DT["np"]:
            for pat in (None, [], [2], [-1], ["..."], ["X"], [2, "..."]):
                for at in (None, {"ndim": ["p", "1"]}) + (({"ndim": ["x", "X"]}, {"flags.x": ["p", "1"]}) if dt in (None, "str") else ()):
                    d = ["asta", "np", dt, pat, at]
                    yield dict(d=d, vs=[["arr", "np", s, h] for s in ([], [2], [1, 2]) for h in HAVE["np"]] + [["lit", t] for t in rng.sample(ODDV, 4)])
    for lib in libs():
        if lib == "np":
            continue
        for dt in [None] + DT[lib]:
            for pat in (None, [], [2], ["X", "..."]):
                for at in (None, {"ndim": ["p", "1"]}):
                    yield dict(d=["asta", lib, dt, pat, at], vs=[["arr", lib, s, h] for s in ([], [2]) for h in HAVE[lib]] + [["arr", "np", [2], "float64"], ["lit", "None"], ["lit", "2.0"]])
    for _ in range(350 if not deep else 50000):
        d = gen_asta(rng, attrs=0.3)
        vs = []
        for _ in range(3):
            v = gen_fit(rng, d, env)
            if rng.random() < 0.5:
                v = disturb(rng, v)
            vs.append(v)
        if d[1] == "np":
            vs.append(["lit", rng.choice(ODDV)])
        yield dict(d=d, vs=vs)
