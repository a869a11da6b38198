from oracle import *

RULE = ("annotations made of sizes, wildcards, ellipses, dims placeholders, expressions of them, shapes placeholders alone, unpacked and concatenated (shared "
        "operands, tuples on both sides, nested), with histories of assignments between checks, against values of fitting and disturbed shapes; "
        "oracle: the values are written in place; nontrivial: a concatenation or a reassignment")


def nontrivial(c):
    return any(n[0] == "cat" for n in c["nodes"]) or len(c["steps"]) > 1


def build_nodes(c):
    out = []
    for n in c["nodes"]:
        k = n[0]
        if k == "sh":
            out.append(getattr(shapes, n[1]))
        elif k == "tup":
            out.append(tuple(item(x) for x in n[1]))
        else:
            out.append(out[n[1]] + out[n[2]])
    return out


def item(x):
    if isinstance(x, int):
        return x
    if x == "...":
        return Ellipsis
    if x[0] == "e":
        return ev(x[1], **{n: getattr(dims, n) for n in x[2]})
    raise ValueError(x)


def flat_item(x, dv):
    """Value(s) of one item: (list of pattern elements) or raises KeyError for an unset name."""
    if isinstance(x, int):
        return [x]
    if x == "...":
        return [Ellipsis]
    e = sympy.sympify(ev(x[1], **{n: sympy.Integer(dv[n]) for n in x[2]}))
    if e.is_Number:
        if not e.is_Integer:
            raise ArithmeticError()
        return [int(e)]
    return [e]


def flat_node(c, i, dv, sv):
    n = c["nodes"][i]
    if n[0] == "sh":
        return list(sv[n[1]])
    if n[0] == "tup":
        return [y for x in n[1] for y in flat_item(x, dv)]
    return flat_node(c, n[1], dv, sv) + flat_node(c, n[2], dv, sv)


def run(c):
    nodes = build_nodes(c)
    sub = []
    for t in c["ann"]:
        if isinstance(t, list) and t[0] == "node":
            sub += list(nodes[t[1]]) if isinstance(nodes[t[1]], tuple) else [nodes[t[1]]]
        elif isinstance(t, list) and t[0] == "star":
            sub += [*nodes[t[1]]]
        else:
            sub.append(item(t))
    dt = [ev(c["dt"])] if c.get("dt") else []
    item_ = tuple(dt + sub)
    A = Array[item_[0] if len(item_) == 1 and not c.get("tuple") else item_]
    store = dict(calls=[], ret=None)
    ann = A if not c.get("wrap") else {"List": List[A], "Opt": Optional[A], "Tup": Tuple[A, A]}[c["wrap"]]
    params = [("a", ann, False, None, "pos")]
    if c.get("pos") == "ret":
        f = typechecked(mkfun([], ann, store))
    else:
        f = typechecked(mkfun(params, NOANN, store))
    dv, sv = {}, {}
    for k, st in enumerate(c["steps"]):
        for r, n, v in st["set"]:
            v = tuple(v) if isinstance(v, list) else v
            setattr(dims if r == "dims" else shapes, n, v)
            (dv if r == "dims" else sv)[n] = v
        try:
            pat = []
            for t in c["ann"]:
                if isinstance(t, list) and t[0] in ("node", "star"):
                    pat += flat_node(c, t[1], dv, sv)
                else:
                    pat += flat_item(t, dv)
            want = None
        except KeyError:
            want = "unset"
        except ArithmeticError:
            want = "noint"
        shape = tuple(st["shape"])
        if want is None:
            want = "no" if any(a is b is Ellipsis for a, b in zip(pat, pat[1:])) else verdict(pat, shape)
        x = nparr(shape, "float64")
        val = x if not c.get("wrap") else {"List": [x], "Opt": x, "Tup": (x, x)}[c["wrap"]]
        soft = st.get("soft", False)
        noint = want == "noint"
        want = "no" if noint else want
        options(raise_errors=not soft, print_passes=soft)
        store["calls"], store["ret"] = [], val
        with quiet() as out:
            try:
                r = None
                r = f() if c.get("pos") == "ret" else f(val)
                got, msg = "yes", ""
            except TypeError as e:
                got, msg = "no", str(e)
        options()
        where = f"check {k + 1}, dims {dv}, shapes {sv}, value shape {shape}: "
        if want == "unset":
            if soft:
                if got != "yes" or len(store["calls"]) != 1 or r is not val:
                    return where + "with a placeholder unset and errors off the function did not run normally"
                if ("FAILED" if c.get("wrap") == "Opt" else "ninitialized") not in out.getvalue():
                    return where + "the unset placeholder is not reported"
            elif got != "no":
                return where + "accepted although a placeholder has no value"
            elif "ninitialized" not in msg and c.get("wrap") != "Opt":
                return where + "the unset placeholder is not reported as uninitialized: " + msg[:150]
        elif soft:
            if got != "yes" or len(store["calls"]) != 1 or r is not val:
                return where + "with errors off the function did not run normally: " + msg[:200]
            if want == "no" and "FAILED" not in out.getvalue():
                return where + "does not conform, errors are off, and nothing is printed"
            if noint and not c.get("wrap") and "PASSED" in out.getvalue():
                return where + "an expression has no integer value, and a pass is printed"
            if want == "yes" and c.get("wrap") != "Opt" and "FAILED" in out.getvalue():
                return where + "conforms, but a failure is printed: " + out.getvalue()[:300]
        elif want != "either" and got != want:
            return where + f"accepted={got}, expected {want} (pattern {pat}) {msg[:200]}"


CN = [0]


def gen(rng, deep=False):
    CN[0] += 1
    pre = "t%d" % CN[0]
    ds = [pre + "d%d" % i for i in range(rng.randint(1, 3))]
    ss = [pre + "s%d" % i for i in range(rng.randint(1, 3))]

    def it(ell=True):
        q = rng.random()
        if q < 0.35:
            return rng.randint(0, 4)
        if q < 0.42:
            return -1
        if q < 0.5 and ell:
            return "..."
        d = rng.choice(ds)
        if q < 0.7:
            return ["e", d, [d]]
        if q < 0.9:
            d2 = rng.choice(ds)
            f = rng.choice(["{0} + 1", "2*{0}", "{0} + {1}", "{0}*{1}", "{0} - 1", "{0}/2", "{0}**2"])
            s = f.format(d, d2)
            return ["e", s, sorted({d, d2} if "{1}" in f else {d})]
        t = rng.choice(["X", "X + " + d, "Y"])
        return ["e", t, [d] if d in t else []]
    nodes = [["sh", s] for s in ss]
    isph = [True] * len(nodes)
    for _ in range(rng.choice((0, 1, 2, 3))):
        nodes.append(["tup", [it(False) for _ in range(rng.choice((0, 1, 1, 2, 3)))]])
        isph.append(False)
    for _ in range(rng.choice((0, 1, 2, 3, 4))):
        a, b = rng.randrange(len(nodes)), rng.randrange(len(nodes))
        if not (isph[a] or isph[b]):
            continue
        nodes.append(["cat", a, b])
        isph.append(True)
    ann = []
    phs = [i for i, p in enumerate(isph) if p]
    m = rng.choice((1, 1, 1, 2, 3))
    for _ in range(m):
        q = rng.random()
        if q < 0.5:
            ann.append(["node", rng.choice(phs[-2:])])
        elif q < 0.65:
            ann.append(["star", rng.choice(phs)])
        else:
            ann.append(it())
    if any(a == b == "..." for a, b in zip(ann, ann[1:])):
        return gen(rng)
    c = dict(nodes=nodes, ann=ann)
    c["tuple"] = any(t[0] == "star" for t in ann if isinstance(t, list)) or rng.random() < 0.2
    if rng.random() < 0.25:
        c["dt"] = "float"
        c["tuple"] = True
    if rng.random() < 0.15:
        c["wrap"] = rng.choice(("List", "Opt", "Tup"))
    if rng.random() < 0.15:
        c["pos"] = "ret"
    steps = []
    dv, sv = {}, {}
    for k in range(rng.choice((1, 1, 2, 3))):
        sets = []
        for d in ds:
            if k == 0 and rng.random() < 0.93 or k and rng.random() < 0.4:
                dv[d] = rng.choice((1, 2, 3, 4, 2, 3, 0, -1))
                sets.append(["dims", d, dv[d]])
        for s in ss:
            if k == 0 and rng.random() < 0.93 or k and rng.random() < 0.4:
                sv[s] = [rng.choice((1, 2, 3, 1, 2, 3, 0, -1)) for _ in range(rng.choice((0, 1, 1, 2, 2, 3)))]
                sets.append(["shapes", s, sv[s]])
        try:
            pat = []
            for t in ann:
                if isinstance(t, list) and t[0] in ("node", "star"):
                    pat += flat_node(c, t[1], dv, sv)
                else:
                    pat += flat_item(t, dv)
            sh = []
            env = {X: rng.randint(1, 3), Y: rng.randint(1, 3)}
            for p in pat:
                if p is Ellipsis:
                    sh += [rng.randint(1, 3) for _ in range(rng.choice((0, 1, 2)))]
                elif is_expr(p):
                    sh.append(max(0, int(p.subs(env))))
                else:
                    sh.append(rng.randint(1, 3) if p == -1 else max(0, p))
        except (KeyError, ArithmeticError):
            sh = [rng.randint(0, 3) for _ in range(rng.randint(0, 4))]
        if rng.random() < 0.45:
            q = rng.random()
            if sh and q < 0.4:
                sh[rng.randrange(len(sh))] = rng.randint(0, 4)
            elif sh and q < 0.6:
                sh.pop(rng.randrange(len(sh)))
            elif q < 0.8:
                sh.insert(rng.randint(0, len(sh)), rng.randint(1, 3))
            else:
                sh.reverse()
        steps.append(dict(set=sets, shape=sh[:25], soft=rng.random() < 0.3))
    c["steps"] = steps
    return c


def cases(tier, rng):
    deep = tier == "thorough"
    CN[0] = 0
    # systematic: small sums with one literal on either side, operands reused, every order of two assignments
    k = 0
    for shape_ops in ([["cat", 0, 1]], [["cat", 1, 0]], [["cat", 0, 2]], [["cat", 2, 0]], [["cat", 0, 0]], [["cat", 0, 2], ["cat", 3, 1]], [["cat", 0, 2], ["cat", 1, 3]], [["cat", 0, 2], ["cat", 3, 3]], [["cat", 2, 0], ["cat", 3, 2]],
                      [["cat", 0, 1], ["cat", 3, 0]], [["cat", 0, 1], ["cat", 3, 3]], [["cat", 0, 1], ["cat", 2, 3], ["cat", 4, 1]]):
        for last in range(3, 3 + len(shape_ops)):
            for s0, s1 in (([2], [3, 4]), ([2, 3], []), ([], [5])):
                k += 1
                a, b = "k%da" % k, "k%db" % k
                nodes = [["sh", a], ["sh", b], ["tup", [6, 7]]] + shape_ops
                c = dict(nodes=nodes, ann=[["node", last]], steps=[], tuple=False)
                pat = flat_node(c, last, {}, {a: s0, b: s1})
                c["steps"].append(dict(set=[["shapes", a, s0], ["shapes", b, s1]], shape=pat))
                for bad in (pat[1:], pat + [6], pat[::-1]):
                    c["steps"].append(dict(set=[], shape=bad))
                pat2 = flat_node(c, last, {}, {a: [8], b: s1})
                c["steps"] += [dict(set=[["shapes", a, [8]]], shape=pat2), dict(set=[], shape=pat)]
                yield c
    for i in range(2500 if not deep else 100000):
        yield gen(rng)
