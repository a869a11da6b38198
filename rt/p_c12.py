from oracle import *

RULE = ("signatures of 0 to 5 parameters (positional-only, ordinary, keyword-only, defaults, leading self/cls/mcs with and without annotation, annotations listed in "
        "another order), every parameter with its own size, called in a random valid way with at most one value changed; also calls that omit a value and functions "
        "with an unannotated parameter; nontrivial: two parameters, one by keyword or by default")


def nontrivial(c):
    return len(c["params"]) >= 2 and any(h in ("kw", "dflt") for h in c["how"])


def run(c):
    store = dict(calls=[], ret=None)
    ps = []
    for n, size, dflt, kind in c["params"]:
        ann = NOANN if size is None else Array[size] if c.get("style") != "sym" else Array[X - size]
        ps.append((n, ann, dflt is not None, nparr((dflt,)) if isinstance(dflt, int) else dflt if dflt is not None else None, kind))
    f0 = mkfun(ps, Array[c["ret"]] if c.get("ret") else NOANN, store)
    store["ret"] = nparr((c["ret"],)) if c.get("ret") else None
    if c.get("order"):
        f0.__annotations__ = {k: f0.__annotations__[k] for k in c["order"] if k in f0.__annotations__}
    f = typechecked(f0)
    vals = [object() if v is None else nparr((v,)) for v in c["vals"]]
    obj = None
    if c.get("bound") and c["params"] and c["params"][0][0] in ("self", "cls", "mcs"):
        K = type("K", (), {"m": f})
        obj = K()
        call = obj.m
        vals[0] = obj
    else:
        call = f
    a, kw = [], []
    for i, (p, v, h) in enumerate(zip(c["params"], vals, c["how"])):
        if h == "pos" and not (obj is not None and i == 0):
            a.append(v)
        elif h == "kw":
            kw.append((p[0], v))
    kw = dict(sorted(kw, key=lambda t: c["kworder"].index(t[0])))
    ok = True
    for (n, size, dflt, kind), v, h in zip(c["params"], c["vals"], c["how"]):
        if size is None:
            continue
        got = dflt if h == "dflt" else v
        if h == "omit":
            ok = False
        elif c.get("style") == "sym":
            pass
        elif got != size:
            ok = False
    if c.get("style") == "sym":
        tot = {(dflt if h == "dflt" else v) + size for (n, size, dflt, kind), v, h in zip(c["params"], c["vals"], c["how"]) if size is not None and h != "omit"}
        ok = ok and len(tot) <= 1
    unann = [n for i, (n, size, *_) in enumerate(c["params"]) if size is None and not (i == 0 and n in ("self", "cls", "mcs"))]
    if unann:
        ok = False
    for k in range(2):
        store["calls"] = []
        try:
            r = call(*a, **kw)
            out = True
        except TypeError as e:
            out, err = False, e
        if out != ok:
            return f"call {k + 1}: accepted={out}, expected {ok}" + ("" if out else f": {str(err)[:300]}")
        if out:
            seen = store["calls"]
            want = [ps[i][3] if h == "dflt" else v for i, (v, h) in enumerate(zip(vals, c["how"]))]
            if len(seen) != 1 or any(x is not y for x, y in zip(seen[0], want)):
                return "the function was given other arguments"
        elif store["calls"]:
            return "the function ran on refused arguments"


def gen(rng):
    n = rng.choice((0, 1, 1, 2, 2, 3, 3, 4, 5))
    lead = rng.choice((None, None, "self", "cls", "mcs"))
    leadann = rng.random() < 0.12
    names = [x for x in rng.sample(["a", "b", "c", "zeta", "alpha", "args", "kwargs", "x1", "other"], n)]
    kinds = sorted((rng.choice(("pos", "pos", "pos", "posonly", "kwonly")) for _ in range(n)), key=["posonly", "pos", "kwonly"].index)
    sizes = rng.sample(range(1, 9), n)
    ps = []
    if lead:
        kind = "posonly" if "posonly" in kinds else "pos"
        ps.append([lead, 9 if leadann else None, None, kind])
    dseen = False
    for nm, k, s in zip(names, kinds, sizes):
        d = None
        if (dseen and k != "kwonly") or rng.random() < 0.35:
            d = s if rng.random() < 0.85 else rng.choice(sizes)
            dseen = dseen or k != "kwonly"
        ps.append([nm, s, d, k])
    vals, how = [], []
    stop = False
    for i, (nm, s, d, k) in enumerate(ps):
        vals.append(s)
        opts = {"pos": ["pos", "pos", "kw"], "posonly": ["pos"], "kwonly": ["kw", "kw"]}[k]
        if stop:
            opts = [o for o in opts if o != "pos"]
        if d is not None:
            opts = opts + ["dflt"]
        if not opts:
            return None
        h = rng.choice(opts)
        if h != "pos":
            stop = True
        how.append(h)
    c = dict(params=ps, vals=vals, how=how, kworder=rng.sample([p[0] for p in ps], len(ps)), order=rng.sample([p[0] for p in ps] + ["return"], len(ps) + 1) if rng.random() < 0.5 else None)
    if c["order"] and rng.random() < 0.5:
        c["order"] = None
    if lead and not leadann and how[0] == "pos":
        c["bound"] = rng.random() < 0.5
    if rng.random() < 0.3:
        c["ret"] = 5
    q = rng.random()
    idx = [i for i, p in enumerate(ps) if p[1] is not None]
    if idx and q < 0.4:
        i = rng.choice(idx)
        others = [p[1] for p in ps if p[1] is not None and p[1] != ps[i][1]]
        vals[i] = rng.choice(others + [ps[i][1] + 1])
        if len(idx) > 1 and rng.random() < 0.5:
            j = rng.choice([x for x in idx if x != i])
            vals[i], vals[j] = ps[j][1], ps[i][1]
    elif q < 0.5 and ps:
        i = rng.randrange(len(ps))
        if ps[i][1] is not None and ps[i][2] is None and not any(h == "pos" for h in how[i + 1:]):
            how[i] = "omit"
    elif q < 0.6 and idx:
        ps[rng.choice(idx)][1] = None
        if lead and ps[0][1] is None and not any(p[1] is None for p in ps[1:]):
            pass
    elif q < 0.7:
        c["style"] = "sym"
        base = 12
        for i in idx:
            vals[i] = base - ps[i][1] if rng.random() < 0.85 else 1
            if ps[i][2] is not None:
                ps[i][2] = base - ps[i][1]
    return c


def cases(tier, rng):
    deep = tier == "thorough"
    # systematic: every split of 3 parameters into positional / keyword / default, every keyword order, every pair of values swapped
    for lead in (None, "self", "cls", "mcs"):
        for npos in range(4):
            for kwo in itertools.permutations("abc"):
                for dfl in ([], [2], [1, 2]):
                    ps = ([[lead, None, None, "pos"]] if lead else []) + [[n, i + 1, i + 1 if i in dfl else None, "pos"] for i, n in enumerate("abc")]
                    off = 1 if lead else 0
                    for change in (None, (0, 1), (1, 2), (0, 2), "d"):
                        vals = [p[1] for p in ps]
                        how = ["pos"] * off + ["pos" if i < npos else "kw" for i in range(3)]
                        if change == "d":
                            if not dfl or npos > min(dfl):
                                continue
                            for i in dfl:
                                how[off + i] = "dflt"
                        elif change:
                            i, j = change
                            vals[off + i], vals[off + j] = vals[off + j], vals[off + i]
                        yield dict(params=ps, vals=vals, how=how, kworder=([lead] if lead else []) + list(kwo), order=None)
    for _ in range(3000 if not deep else 200000):
        c = gen(rng)
        if c:
            yield c
