from oracle import *

RULE = ("functions of 1-4 parameters whose annotations share the symbols X, Y (directly and inside lists, tuples, dicts, sets, unions, named tuples, "
        "typed dicts), called several times with sizes from consistent and inconsistent assignments; oracle: all equations solved together by sympy; "
        "nontrivial: at least two places mention the same symbol")


def nontrivial(c):
    t = json_text(c["params"]) + json_text(c["ret"])
    return t.count('"X') > 1 or t.count('"Y') > 1


def json_text(x):
    import json
    return json.dumps(x)


def run(c):
    store = dict(calls=[], ret=None)
    f = mkfun([(n, build(d), False, None, "pos") for n, d in c["params"]], NOANN if c["ret"] is None else build(c["ret"]), store)
    g = typechecked(f)
    for i, call in enumerate(c["calls"]):
        args = [build_val(v) for v in call["args"]]
        ret = build_val(call["ret"])
        store["calls"], store["ret"] = [], ret
        pairs = [(x, d) for x, (n, d) in zip(args, c["params"])]
        wa = verdict_on(pairs)
        wr = verdict_on(pairs + ([(ret, c["ret"])] if c["ret"] is not None else [])) if wa == "yes" else "no"
        kw = call.get("kw", 0)
        try:
            got = g(*args[:len(args) - kw], **{c["params"][k][0]: args[k] for k in range(len(args) - kw, len(args))})
            out = "returned"
        except TypeError as e:
            out = "TypeError after the call" if store["calls"] else "TypeError before the call"
        want = {"no": "TypeError before the call", "either": None, "yes": {"yes": "returned", "no": "TypeError after the call", "either": None}[wr]}[wa]
        if want and out != want:
            return f"call {i + 1}: {out}, expected: {want} (args {wa}, with result {wr})"
        if out == "returned" and got is not ret:
            return f"call {i + 1}: another object was returned"


def gen_env(rng):
    return {X: rng.randint(1, 4), Y: rng.randint(1, 4)}


SIMPLE = [["X"], ["X", "Y"], ["Y"], ["X+1"], ["X", "X"], ["2*X"], ["Y", "X+1"], ["X", "..."], ["...", "Y"], ["X+Y"], ["X*Y"], [2, "X"], ["...", "X"], ["X", -1]]


def wrap(rng, d, hashable=False):
    k = rng.choice(["List", "Tuple", "TupleV", "Dict", "Union", "NT", "TD", "Sequence", "Set", "Opt"])
    if hashable:
        k = "Tuple"
    other = ["asta", "np", None, rng.choice(SIMPLE), None]
    return {"List": lambda: ["List", d], "Sequence": lambda: ["Sequence", d], "Tuple": lambda: ["Tuple", [d, other]], "TupleV": lambda: ["TupleV", d],
            "Dict": lambda: rng.choice((["Dict", ["py", "str"], d], ["Dict", d, other])), "Union": lambda: ["Union", [["asta", "np", "str", [7], None], d]],
            "NT": lambda: ["NT", "N", [["a", d], ["b", other]]], "TD": lambda: ["TD", rng.random() < 0.5, [["a", d], ["b", other]]], "Set": lambda: ["Set", d],
            "Opt": lambda: ["Union", [d, ["None"]]]}[k]()


def fit(rng, d, env, hashable=False):
    k = d[0]
    if k == "asta":
        return gen_fit(rng, d, env, hashable)
    if k in ("List", "Sequence", "TupleV"):
        n = rng.choice((1, 1, 2, 3, 0))
        return ["tuple" if k == "TupleV" else "list", [fit(rng, d[1], env, hashable) for _ in range(n)]]
    if k == "Tuple":
        return ["tuple", [fit(rng, x, env, hashable) for x in d[1]]]
    if k == "Dict":
        if d[1][0] == "py":
            return ["dict", [[["lit", repr(c)], fit(rng, d[2], env)] for c in "ab"[:rng.choice((1, 2))]]]
        return ["dict", [[fit(rng, d[1], env, True), fit(rng, d[2], env)]]]
    if k == "Set":
        return ["set", [fit(rng, d[1], env, True) for _ in range(rng.choice((1, 2)))]]
    if k == "Union":
        return fit(rng, rng.choice(d[1]), env, hashable)
    if k == "NT":
        return ["nt", d, [fit(rng, x, env, hashable) for _, x in d[2]]]
    if k == "TD":
        return ["dict", [[["lit", repr(a)], fit(rng, x, env)] for a, x in d[2]]]
    if k == "None":
        return ["lit", "None"]
    raise ValueError(k)


def cases(tier, rng):
    deep = tier == "thorough"
    A = lambda p, at=None: ["asta", "np", None, p, at]
    V = lambda *s: ["arr", "np", list(s), "int8"]
    # systematic: each container kind on one side, a plain argument or the result on the other
    for a, b in (itertools.product((1, 2, 3), repeat=2) if MAIN else []) if deep else ((1, 1), (1, 2), (2, 2), (3, 2)) if MAIN else ():
        d = A(["X"])
        h = lambda n: ["harr", [n], "int8"]
        for cd, cv in [(d, V(a)), (["List", d], ["list", [V(a)]]), (["Sequence", d], ["tuple", [V(a)]]), (["Sequence", d], ["seq", [V(a), V(a)]]), (["Tuple", [d]], ["tuple", [V(a)]]), (["TupleV", d], ["tuple", [V(a), V(a)]]),
                       (["Dict", ["py", "str"], d], ["dict", [[["lit", "'k'"], V(a)]]]), (["Dict", d, ["py", "str"]], ["dict", [[h(a), ["lit", "'k'"]]]]), (["Set", d], ["set", [h(a)]]), (["AbstractSet", d], ["fset", [h(a)]]),
                       (["Union", [["None"], d]], V(a)), (["Union", [d, ["None"]]], V(a)), (["NT", "P", [["u", d], ["v", ["py", "int"]]]], ["nt", ["NT", "P", [["u", d], ["v", ["py", "int"]]]], [V(a), ["lit", "1"]]]),
                       (["TD", True, [["u", d]]], ["dict", [[["lit", "'u'"], V(a)]]]), (["List", ["List", d]], ["list", [["list", [V(a)]]]]), (["List", d], ["list", [V(a), V(b)]]), (["TupleV", d], ["tuple", [V(a), V(b)]]),
                       (["Tuple", [d, d]], ["tuple", [V(a), V(b)]]), (["List", ["Tuple", [d, d]]], ["list", [["tuple", [V(a), V(b)]]]]),
                       (["Dict", ["py", "str"], d], ["dict", [[["lit", "'k'"], V(a)], [["lit", "'l'"], V(b)]]]), (A(None, {"size": ["x", "X"]}), V(a)), (A([-1], {"size": ["x", "X+1"]}), V(a + 1)),
                       (["List", d], ["list", []]), (["Union", [["None"], d]], ["lit", "None"])]:
            for pos in ("arg2", "arg1", "ret", "retc"):
                if pos in ("arg2", "arg1"):
                    ps = [["a", cd], ["b", d]] if pos == "arg2" else [["a", d], ["b", cd]]
                    vs = [cv, V(b)] if pos == "arg2" else [V(b), cv]
                    good = {"args": [V(1), V(1)], "ret": ["lit", "None"]} if cd[0] == "asta" and cd[4] is None else None
                    yield dict(params=ps, ret=None, calls=([good] if good else []) + [{"args": vs, "ret": ["lit", "None"]}] * 2)
                elif pos == "ret":
                    yield dict(params=[["a", cd]], ret=d, calls=[{"args": [cv], "ret": V(b)}] * 2)
                else:
                    yield dict(params=[["a", d]], ret=cd, calls=[{"args": [V(b)], "ret": cv}] * 2)
    n = 0
    while n < ((500 if MAIN else 250) if not deep else 40000):
        n += 1
        np_ = rng.choice((1, 2, 2, 3, 4))
        ps = []
        for i in range(np_):
            d = A(rng.choice(SIMPLE), rng.choice([None] * 6 + [{"ndim": ["x", "X"]}, {"size": ["x", "Y"]}]))
            if len(libs()) > 1 and rng.random() < 0.15:
                d = ["asta", rng.choice(libs()), None, d[3], None]
            hash_ok = d[1] == "np"
            for _ in range(rng.choice((0, 0, 1, 1, 2))):
                w = wrap(rng, d)
                while not hash_ok and (w[0] == "Set" or w[0] == "Dict" and w[1][0] != "py"):
                    w = wrap(rng, d)
                if w[0] in ("Set",) and d[0] != "asta" or w[0] == "Dict" and w[1][0] != "py" and d[0] != "asta":
                    continue
                d = w
            ps.append(["p%d" % i, d])
        ret = None
        if rng.random() < 0.6:
            ret = A(rng.choice(SIMPLE))
            if rng.random() < 0.4:
                ret = wrap(rng, ret)
        calls = []
        for _ in range(rng.choice((1, 2, 3))):
            env = gen_env(rng)
            env2 = env if rng.random() < 0.6 else gen_env(rng)
            k = rng.randrange(np_ + 1)
            args = [fit(rng, d, env2 if i == k else env) for i, (_, d) in enumerate(ps)]
            rv = fit(rng, ret, env2 if k == np_ else env) if ret else ["lit", "None"]
            if rng.random() < 0.15:
                j = rng.randrange(np_)
                args[j] = disturb(rng, args[j])
            calls.append({"args": args, "ret": rv, "kw": rng.choice((0, 0, rng.randint(0, np_)))})
        yield dict(params=ps, ret=ret, calls=calls)
