from common import *

RULE = ("random sequences of reads and writes (accepted and refused values, plain and odd names) on the two registers against two dictionaries, every name "
        "read back after each write; placeholders obtained before an assignment are used in a check after it; nontrivial: a name is written twice or a write is refused")

GOOD = {"dims": ["0", "1", "2", "-1", "7", "10**9", "True"], "shapes": ["()", "(1,)", "(2, 3)", "(0, 4)", "(-1, 2)", "(5,) * 6", "(True, 2)"]}
BAD = {"dims": ["1.0", "'a'", "None", "np.int64(3)", "X", "[1]", "(1,)", "np.array(3)", "3j", "b'1'", "...", "{}", "int"],
       "shapes": ["[1, 2]", "3", "None", "(1.0,)", "('a',)", "(1, (2,))", "(X,)", "(..., 1)", "(None,)", "(1, 2, 'b')", "np.array([1])", "(np.int64(1),)", "range(2)", "{1}", "'ab'", "(1, 2, 3.0)", "X", "([1],)"]}
ODD = ["pi", "E", "S", "N", "I", "Q", "lambda_", "alpha", "x1", "x_1", "_u", "beta2", "O", "zoo", "nan", "oo", "item", "keys", "get", "name", "value", "Symbol", "symbols", "sys", "Placeholder", "placeholder", "Shapes", "Dimensions", "FILELOADER"]


def nontrivial(c):
    sets = [(r, n) for r, n, k, _ in c["ops"] if k == "set"]
    return len(sets) > len(set(sets)) or any(k == "bad" for _, _, k, _ in c["ops"])


def look(reg, name, val):
    got = getattr(reg, name)
    if val is not None:
        if got is not val and not (got == val and type(got) is type(val)):
            return f"{name} reads {got!r}, last assigned {val!r}"
        return
    if reg is dims:
        if not isinstance(got, sympy.Symbol) or got.name != name:
            return f"unassigned dims.{name} reads {got!r}"
    elif isinstance(got, tuple) or getattr(got, "name", None) != name:
        return f"unassigned shapes.{name} reads {got!r}"


def run(c):
    regs = {"dims": dims, "shapes": shapes}
    model, first = {}, {}
    for k, (r, n, op, v) in enumerate(c["ops"]):
        reg = regs[r]
        if op == "get":
            m = look(reg, n, model.get((r, n)))
            if m:
                return f"op {k}: {m}"
            if (r, n) not in model:
                first.setdefault((r, n), getattr(reg, n))
                continue
        else:
            val = ev(v)
            try:
                setattr(reg, n, val)
                ok = True
            except TypeError:
                ok = False
            if op == "set":
                if not ok:
                    return f"op {k}: {r}.{n} = {v} is refused"
                model[(r, n)] = val
            elif ok:
                return f"op {k}: {r}.{n} = {v} is accepted"
        if op != "get" or c.get("all"):
            for (r2, n2) in {(a, b) for a, b, *_ in c["ops"][:k + 1]} | ({(x, n) for x in regs} if c.get("cross") else set()):
                if (r2, n2) in model or (r2, n2) in first or c.get("cross"):
                    m = look(regs[r2], n2, model.get((r2, n2)))
                    if m:
                        return f"op {k} ({r}.{n} {op} {v}): then {r2}.{m}"
    for (r, n), p in first.items():
        v = model.get((r, n))
        if v is None or any(e is True for e in (v if r == "shapes" else (v,))):
            continue
        shape = v if r == "shapes" else (v,)
        if any(e < 0 or e > 1000 for e in shape):
            continue

        def f(a):
            return a
        f.__annotations__ = {"a": Array[p]}
        f = typechecked(f)
        f(nparr(shape))
        try:
            f(nparr(tuple(shape) + (3,)))
        except TypeError:
            continue
        return f"a placeholder for {r}.{n} obtained early does not denote {v!r}"


def cases(tier, rng):
    deep = tier == "thorough"
    # the odd names: once per process
    ops = []
    for n in ODD:
        for r in ("dims", "shapes"):
            ops += [[r, n, "get", None], [r, n, "bad", rng.choice(BAD[r])], [r, n, "set", rng.choice(GOOD[r])], [r, n, "get", None], [r, n, "bad", rng.choice(BAD[r])], [r, n, "set", rng.choice(GOOD[r])], [r, n, "get", None]]
    yield dict(ops=ops)
    k = 0
    for r in ("dims", "shapes"):
        for v in GOOD[r]:
            for b in BAD[r]:
                k += 1
                n = "s%d" % k
                o = "dims" if r == "shapes" else "shapes"
                yield dict(ops=[[r, n, "get", None], [r, n, "bad", b], [r, n, "get", None], [r, n, "set", v], [r, n, "bad", b], [r, n, "get", None], [o, n, "get", None]], cross=True)
                k += 1
                n = "s%d" % k
                yield dict(ops=[[r, n, "bad", b], [r, n, "set", v], [r, n, "set", GOOD[r][-2]], [r, n, "get", None]], cross=True)
    for i in range(400 if not deep else 20000):
        names = ["v%d_%d" % (i, j) for j in range(rng.randint(1, 4))]
        if rng.random() < 0.3:
            names += [names[0] + "_", "_" + names[0], names[0].upper()]
        ops = []
        for _ in range(rng.randint(3, 25)):
            r = rng.choice(("dims", "shapes"))
            op = rng.choice(("get", "set", "set", "bad"))
            ops.append([r, rng.choice(names), op, rng.choice({"set": GOOD, "bad": BAD}[op][r]) if op != "get" else None])
        yield dict(ops=ops, all=rng.random() < 0.5, cross=rng.random() < 0.3)
