from oracle import *

RULE = ("composite annotations up to depth 3 over asta types with conforming values and values disturbed in one place (an element, a field, a key, a length, "
        "the container kind), through arguments and results, check-all-sequence-elements on and off; oracle: structural recursion over the annotation; "
        "nontrivial: depth at least 2")


def nontrivial(c):
    return c["d"][0] != "asta" and any(isinstance(x, list) and x and x[0] != "asta" for x in c["d"][1:])


def run(c):
    d = c["d"]
    options(check_all_sequence_elements=c["all"])
    x = build_val(c["v"])
    want = verdict_on([(x, d)], dict(all=c["all"]))
    store = dict(calls=[], ret=x)
    if c["ret"]:
        f = typechecked(mkfun([], build(d), store))
        call = lambda: f()
    else:
        f = typechecked(mkfun([("a", build(d), False, None, "pos")], NOANN, store))
        call = lambda: f(x)
    for i in range(2):
        store["calls"] = []
        try:
            r = call()
            out = "yes"
            if r is not x:
                return "another object was returned"
        except TypeError as e:
            out = "no"
            if not c["ret"] and store["calls"]:
                return "the function ran although its argument was refused"
        if want != "either" and out != want:
            return f"check {i + 1}: accepted={out}, expected {want}"


def cases(tier, rng):
    deep = tier == "thorough"
    A = lambda p, dt=None: ["asta", "np", dt, p, None]
    V = lambda *s: ["arr", "np", list(s), "int8"]
    h = lambda *s: ["harr", list(s), "int8"]
    good, bad = V(2), V(3)
    d = A([2])
    sys_ = []
    for k in ("List", "list", "Sequence"):
        for n in range(4):
            for badpos in [None] + list(range(n)):
                xs = [bad if i == badpos else good for i in range(n)]
                for cont in ("list", "tuple", "seq"):
                    sys_.append(([k, d], [cont, xs]))
    for n in range(4):
        for badpos in [None] + list(range(n)):
            xs = [bad if i == badpos else good for i in range(n)]
            sys_.append((["TupleV", d], ["tuple", xs]))
            sys_.append((["TupleV", d], ["list", xs]))
            for m in range(1, 4):
                sys_.append((["Tuple", [d] * m], ["tuple", xs]))
            hx = [h(3) if i == badpos else h(2) for i in range(n)]
            for cont in ("set", "fset", "myset", "list"):
                sys_.append((["Set", d], [cont, hx]))
                sys_.append((["AbstractSet", d], [cont, hx]))
            for cont in ("dict", "odict"):
                sys_.append((["Dict", ["py", "str"], d], [cont, [[["lit", repr("k%d" % i)], x] for i, x in enumerate(xs)]]))
                sys_.append((["Dict", d, ["py", "str"]], [cont, [[x, ["lit", "1"]] for x in hx]]))
                sys_.append((["Dict", d, d], [cont, [[x, good] for x in hx]]))
                sys_.append((["Dict", ["py", "Any"], d], [cont, [[["lit", repr("k%d" % i)], x] for i, x in enumerate(xs)]]))
                sys_.append((["Dict", d, ["py", "Any"]], [cont, [[x, ["lit", "1"]] for x in hx]]))
                sys_.append((["Dict", ["py", "Any"], ["py", "Any"]], [cont, [[x, ["lit", "1"]] for x in hx]]))
    for v in (["tuple", []], ["tuple", [good]], ["list", []], ["lit", "None"], ["tuple", [["lit", "None"]]]):
        sys_.append((["TupleE"], v))
        sys_.append((["List", ["TupleE"]], ["list", [v]]))
    for ds in ([d, A([3])], [["None"], d], [d, ["None"]], [["List", d], d], [["Tuple", [d]], ["TupleE"]], [["List", d], ["Dict", ["py", "str"], d], ["None"]], [["TD", True, [["a", d]]], ["List", d]]):
        for v in (V(2), V(3), V(4), ["lit", "None"], ["list", [good]], ["list", [bad]], ["list", []], ["tuple", []], ["tuple", [good]], ["tuple", [bad]], ["dict", []], ["dict", [[["lit", "'a'"], good]]], ["dict", [[["lit", "'a'"], bad]]], ["lit", "5"]):
            sys_.append((["Union", ds], v))
            sys_.append((["List", ["Union", ds]], ["list", [v]]))
    for total in (True, False, [True, False], [False, True], [True, True], [False, False]):
        td = ["TD", total, [["a", d], ["b", A([3])]]]
        for ks in itertools.product((None, good, bad), repeat=2):
            items = [[["lit", repr(k)], v] for k, v in zip("ab", ks) if v is not None]
            sys_.append((td, ["dict", items]))
            sys_.append((td, ["odict", items[::-1]]))
            sys_.append((td, ["dict", items + [[["lit", "'c'"], good]]]))
        sys_.append((td, ["list", []]))
        sys_.append((["List", td], ["list", [["dict", [[["lit", "'a'"], good]]]]]))
    nt = ["NT", "N2", [["a", d], ["b", A([3])]]]
    nt2 = ["NT", "N3", [["a", d], ["b", A([3])], ["c", ["py", "int"]]]]
    for a, b in itertools.product((good, bad), repeat=2):
        sys_ += [(nt, ["nt", nt, [a, b]]), (nt, ["tuple", [a, b]]), (["List", nt], ["list", [["nt", nt, [a, b]]]]), (nt2, ["nt", nt2, [a, b, ["lit", "1"]]]), (nt, ["nt", nt2, [a, b, ["lit", "1"]]]), (["Tuple", [d, d]], ["nt", nt, [a, b]])]
    e = ["py", "Any"]
    for v in (["list", []], ["list", [["lit", "1"], good]], ["tuple", [good, bad]], ["tuple", []], ["set", []], ["dict", [[["lit", "1"], bad]]], ["lit", "1"], ["lit", "None"]):
        sys_ += [([k, e], v) for k in ("List", "list", "Sequence", "TupleV", "Set", "AbstractSet")]
        sys_ += [(["Tuple", [e, d]], v), (["Tuple", [d, e]], v), (["Tuple", [e, e]], v), (e, v), (["List", ["List", e]], ["list", [v]]), (["Union", [["List", e], d]], v)]
    for t in ("List", "Dict", "Tuple", "Sequence", "list", "dict", "tuple", "set", "Set", "AbstractSet", "collections.abc.Sequence", "collections.abc.Set"):
        for v in (["list", []], ["list", [["lit", "1"]]], ["dict", []], ["dict", [[["lit", "1"], ["lit", "2"]]]], ["tuple", []], ["tuple", [["lit", "1"]]], ["set", []], ["fset", [["lit", "1"]]], ["lit", "None"], ["lit", "3"], V(2)):
            sys_.append((["bare", t], v))
            sys_.append((["List", ["bare", t]], ["list", [v]]))
            sys_.append((["Union", [["bare", t], d]], v))
    for v in (["lit", "None"], ["lit", "0"], V(), ["lit", "''"]):
        sys_ += [(["None"], v), (["None", 1], v), (["Union", [d, ["None"]]], v), (["Tuple", [["None"]]], ["tuple", [v]])]
    for dd, v in (sys_ if MAIN else []):
        for al in (True, False):
            for ret in (False, True):
                yield dict(d=dd, v=v, all=al, ret=ret)
    n = 0
    env = {X: 2, Y: 3}
    while n < ((4000 if MAIN else 2000) if not deep else 200000):
        n += 1
        try:
            dd, v = gen_comp(rng, rng.choice((1, 2, 2, 3)), env, sym=rng.random() < 0.35)
        except RecursionError:
            continue
        if rng.random() < 0.6:
            v = disturb(rng, v)
        yield dict(d=dd, v=v, all=rng.random() < 0.7, ret=rng.random() < 0.3)
