from oracle import *
import p_c09

RULE = ("random annotations (asta types, composites, and with the option on also non-asta ones), one to three arguments and a result, conforming or disturbed, in the "
        "four settings of raise-errors and print-passes: what is raised, what is printed, whether the function ran, what it returned; "
        "nontrivial: something does not conform, or errors are off")


def nontrivial(c):
    if "sub" in c:
        return True
    return not c["raise"] or not all(c["good"])


NON = [("int", "3", "'a'"), ("float", "2.5", "'a'"), ("complex", "2j", "'a'"), ("bytes", "b'a'", "3"), ("str", "'a'", "3"), ("typing.Type[int]", "bool", "str"), ("typing.Type[int]", "int", "3"), ("typing.Literal[1, 'a']", "'a'", "2"),
       ("typing.Callable", "len", "3"), ("typing.Callable[[int], int]", "(lambda x: x)", "3"), ("list", "[1]", "3"), ("dict", "{}", "3"), ("set", "set()", "[]"), ("typing.IO", "__import__('io').StringIO()", "3"), ("typing.TextIO", "__import__('io').StringIO()", "__import__('io').BytesIO()"),
       ("typing.BinaryIO", "__import__('io').BytesIO()", "3"), ("List[int]", "[1, 2]", "[1, 'a']"), ("Dict[str, int]", "{'a': 1}", "{1: 1}"), ("typing.Optional[int]", "None", "'a'"), ("typing.Union[int, str]", "'a'", "2.5"), ("type", "int", "3"), ("typing.Literal[1, 'a']", "1", "np.array([1, 2])"), ("typing.Type[typing.TypeVar('T')]", "int", "3"), ("typing.Callable[[int], int]", "(lambda x, *, k=np.zeros(3): x)", "3"), ("typing.Type", "int", "3")]


def run(c):
    if "sub" in c:
        return p_c09.run(c["sub"])
    options(raise_errors=c["raise"], print_passes=c["passes"], check_non_asta_types=c.get("non", False))
    anns, vals, wants = [], [], []
    for d, v, g in zip(c["anns"], c["vals"], c["good"]):
        anns.append(build(d) if d[0] != "non" else ev(d[1], typing=typing, List=List, Dict=Dict))
        x = build_val(v)
        vals.append(x)
        if d[0] == "non":
            wants.append("yes" if g or not c.get("non") else "no")
        else:
            wants.append(None)
    pairs = [(x, d) for x, d in zip(vals, c["anns"])]
    nret = c["nret"]
    ret = vals[-1] if nret else object()
    store = dict(calls=[], ret=ret)
    k = len(anns) - (1 if nret else 0)
    f = typechecked(mkfun([("p%d" % i, anns[i], False, None, "pos") for i in range(k)], anns[-1] if nret else NOANN, store))

    def want(n):
        ps = [p for p, w in zip(pairs[:n], wants[:n]) if w is None]
        vs = [w for w in wants[:n] if w is not None]
        if "no" in vs:
            return "no"
        return verdict_on(ps) if ps else "yes"
    if any("either" == verdict_on([p]) for p, w in zip(pairs, wants) if w is None):
        raise Skip()
    win, wall = want(k), want(len(anns))
    if "either" in (win, wall):
        raise Skip()
    for rep in range(2):
        store["calls"] = []
        err = None
        with quiet() as buf:
            try:
                got = f(*vals[:k])
            except TypeError as e:
                err = e
        out = buf.getvalue()
        ran = len(store["calls"])
        if ox.raise_errors is not c["raise"] or ox.print_passes is not c["passes"]:
            return "the settings were changed by the check"
        if wall == "yes":
            if err is not None:
                return f"conforming, but raises {str(err)[:300]}"
            if "FAILED" in out:
                return f"conforming, but prints a failure: {out[-300:]}"
        if not c["raise"]:
            if err is not None:
                return f"errors are off, but raises {str(err)[:300]}"
            if ran != 1 or got is not ret:
                return f"errors are off, but the function ran {ran} times or its result is lost"
            if wall == "no" and "FAILED" not in out:
                return "does not conform, errors are off, and nothing is printed"
            # the check goes on: every argument that fails by itself is reported
            bad = sum(1 for p, w in zip(pairs, wants) if (w or verdict_on([p])) == "no")
            if out.count("FAILED") < bad:
                return f"{bad} arguments fail, {out.count('FAILED')} failures are printed"
        else:
            if wall == "no" and err is None:
                return "does not conform, but nothing is raised"
            if win == "no" and ran:
                return "refused, but the function ran"
        if not c["passes"] and "PASSED" in out:
            return "prints a pass although print-passes is off"
        if c["passes"]:
            tops = sum(1 for (x, d), w in zip(pairs, wants) if w is None and d[0] == "asta" and verdict_on([(x, d)]) == "yes")
            if (wall == "yes" or not c["raise"]) and out.count("PASSED") < tops:
                return f"{tops} asta arguments pass, {out.count('PASSED')} passes are printed"


def cases(tier, rng):
    deep = tier == "thorough"
    modes = list(itertools.product((True, False), (True, False)))
    for t, good, bad in NON:
        for r, p in modes:
            for non in (True, False):
                for g in (True, False):
                    for nret in (True, False):
                        yield {"anns": [["non", t]], "vals": [["lit", good if g else bad]], "good": [g], "raise": r, "passes": p, "non": non, "nret": nret}
    # expressions of placeholders without an integer value
    n = 0
    for e in ("%sa/%sb", "%sa/2 + 0*%sb", "sympy.oo*%sa + %sb", "sympy.sqrt(%sa)*1.5 + %sb*sympy.pi", "%sa/%sb + X - X"):
        for va, vb in ((0, 0), (1, 0), (3, 2), (0, 2), (4, 2), (-3, 0)):
            for wrap in (None, "List", "Opt"):
                for tail in ([], [2], ["..."]):
                    n += 1
                    a, b = "n%da" % n, "n%db" % n
                    ann = [["e", e % ("n%d" % n, "n%d" % n), [a, b]]] + tail
                    sets = [["dims", a, va], ["dims", b, vb]]
                    c = dict(nodes=[], ann=ann, tuple=True, steps=[dict(set=sets if s else [], shape=[2] + [2] * len(tail), soft=bool(s)) for s in (1, 0)][:1])
                    c["steps"].append(dict(set=sets, shape=[2], soft=True))
                    if wrap:
                        c["wrap"] = wrap
                    yield {"sub": c}
    env = {X: 2, Y: 3}
    A = lambda p: ["asta", "np", None, p, None]
    V = lambda *s: ["arr", "np", list(s), "int8"]
    for r, p in modes:
        for a, b, cc in itertools.product((2, 3), repeat=3):
            yield {"anns": [A([2]), A([2]), A([2])], "vals": [V(a), V(b), V(cc)], "good": [a == 2, b == 2, cc == 2], "raise": r, "passes": p, "nret": True}
            yield {"anns": [A(["X"]), A(["X"]), A(["X"])], "vals": [V(a), V(b), V(cc)], "good": [a == b == cc], "raise": r, "passes": p, "nret": True}
            yield {"anns": [["Union", [A([3]), ["None"]]], ["List", A([2])], A([2])], "vals": [V(a), ["list", [V(b), V(cc)]], V(2)], "good": [True] * 3, "raise": r, "passes": p, "nret": False}
    for _ in range(1500 if not deep else 60000):
        anns, vals, good = [], [], []
        non = rng.random() < 0.3
        nret = rng.random() < 0.5
        for _ in range(rng.choice((1, 1, 2, 3))):
            if rng.random() < 0.15:
                t, g, b = rng.choice(NON)
                ok = rng.random() < 0.5
                anns.append(["non", t])
                vals.append(["lit", g if ok else b])
                good.append(ok)
                continue
            d, v = gen_comp(rng, rng.choice((0, 0, 1, 2)), env)
            if any(t in json_(d) for t in ('"py"', '"bare"')):
                continue
            ok = rng.random() < 0.55
            anns.append(d)
            vals.append(v if ok else disturb(rng, v))
            good.append(ok)
        if anns:
            r, p = rng.choice(modes)
            yield {"anns": anns, "vals": vals, "good": good, "raise": r, "passes": p, "non": non, "nret": nret}


def json_(d):
    import json
    return json.dumps(d)
