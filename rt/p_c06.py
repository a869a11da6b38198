from oracle import *

RULE = ("every way of writing the same dtype / dimensions / attributes (spelled out, tupled, one subscript after another, Size and TensorShape objects), "
        "compared part by part with the parts written; every subscript with one bad dimension, a repeated ellipsis or several scalar markers at every "
        "position; nontrivial: two or more parts")

ELEMS = ["1", "2", "0", "-1", "...", "X", "X+1", "dims.D0", "2*dims.D0", "shapes.S0", "10**6"]
BAD = ["1.5", "'a'", "[1]", "True", "np.int64(3)", "3j", "{1}", "object()", "b'a'", "int", "np.float32(1)", "False", "Array", "frozenset()", "range(2)", "np.dtype('int8')"]
DTS = {"np": ["float", "int", "np.int32", "np.dtype('U3')", "str", "bytes", "object"], "tf": ["float", "tf.int64", "str"], "torch": ["float", "torch.int64", "bytes"]}
ATT = ["{'ndim': 2}", "{'a': 1, 'b': X}"]


def nontrivial(c):
    return c.get("n", 2) >= 2


def parts(t):
    return (t.dtype, t.shape, t.kwattrs, getattr(t, "kind", ""))


def wanted(c, C):
    """The parts as written: dtype text, dims texts, attrs text."""
    lib = c["lib"]
    dtype, kind = None, ""
    if c["dt"] is not None:
        o = ev(c["dt"])
        if lib == "np":
            kind = {str: "U", bytes: "S", object: "O"}.get(o, "") if isinstance(o, type) else ""
            dtype = np.dtype(o)
        elif lib == "tf":
            dtype = {int: tf.int32, float: tf.float32, complex: tf.complex128, bool: tf.bool, bytes: tf.string, str: tf.string}.get(o) if isinstance(o, type) else o
        else:
            dtype = {int: torch.int32, float: torch.float32, bool: torch.bool, bytes: torch.uint8}.get(o) if isinstance(o, type) else o
    return dtype, kind


def same_shape(a, b):
    if a is None or b is None:
        return a is b
    return isinstance(a, tuple) and tuple(a) == tuple(b) and all(type(x) is type(y) or is_expr(x) for x, y in zip(a, b))


def forms(lib, dt, dimt, at):
    """Texts of the equivalent subscript chains."""
    D = ", ".join(dimt) if dimt else None
    tup = f"({D},)" if dimt else None
    if dimt == []:
        reps = [["()"], ["Scalar"], ["((),)"]]      # scalar
    elif dimt is None:
        reps = [[]]
    else:
        reps = [dimt, [tup]]
        ints = all(x.lstrip("-").isdigit() for x in dimt)
        if lib == "torch" and ints:
            reps.append([f"torch.Size([{D}])"])
        if lib == "tf" and ints and all(int(x) >= 0 for x in dimt):
            reps.append([f"tf.TensorShape([{D}])"])
    out = []
    for r in reps:
        items = ([dt] if dt else []) + r + ([at] if at else [])
        if not items:
            return [""]
        if items == ["((),)"]:
            out.append("[((),)]")
            continue
        if "((),)" in items:
            continue
        out.append("[" + ", ".join(items) + "]")
        if len(items) > 1:
            out.append("[(" + ", ".join(items) + ")]")
        else:
            out.append("[" + items[0] + ",]" if items[0] not in ("()",) else "[()]")
        if dt and len(items) > 1:
            out.append(f"[{dt}][" + ", ".join(items[1:]) + "]")
        if dt and at and dimt is not None:
            out.append(f"[{dt}, {at}][" + ", ".join(r) + "]")
            out.append(f"[{dt}][{at}][" + ", ".join(r) + "]")
            out.append(f"[{at}][{', '.join([dt] + r)}]")
        if at and dimt is not None and not dt:
            out.append(f"[{at}][" + ", ".join(r) + "]")
        if dimt is not None:
            out.append("[7, 7][" + ", ".join(items) + "]")      # a later shape replaces an earlier one
    return out


def run(c):
    lib = c["lib"]
    C = klass(lib)
    if "bad" in c:
        try:
            t = ev("C" + c["bad"], C=C)
        except TypeError:
            return
        return f"{C.__name__}{c['bad']} is accepted as {t!r}"
    if "inherit" in c:
        base = ev("C" + c["inherit"][0], C=C)
        t = ev("B" + c["inherit"][1], B=base)
        keep = c["inherit"][2]
        for i, n in enumerate(("dtype", "shape", "kwattrs", "kind")):
            if n in keep and not (parts(t)[i] == parts(base)[i] and (parts(t)[i] is None) == (parts(base)[i] is None)):
                return f"{C.__name__}{c['inherit'][0]}{c['inherit'][1]} does not keep {n}"
        return
    text = c["form"]
    t = ev("C" + text, C=C)
    dtype, kind = wanted(c, C)
    shape = None if c["dims"] is None else tuple(ev(x) for x in c["dims"])
    at = None if c["at"] is None else ev(c["at"])
    gd, gs, ga, gk = parts(t)
    if (gd is None) != (dtype is None) or (dtype is not None and gd != dtype) or (lib == "np" and gk != kind):
        return f"{C.__name__}{text} has dtype {gd!r} kind {gk!r}, written: {dtype!r} {kind!r}"
    if not same_shape(gs, shape):
        return f"{C.__name__}{text} has shape {gs!r}, written: {shape!r}"
    if ga != at:
        return f"{C.__name__}{text} has attributes {ga!r}, written: {at!r}"
    u = ev("C" + c["first"], C=C)
    if not (t == u) or hash(t) != hash(u) or t != u:
        return f"{C.__name__}{text} and {C.__name__}{c['first']} are different types"
    if not isinstance(t, type) or not issubclass(t, C):
        return "the result is no subclass"
    # and they accept the same values
    nums = [x for x in (shape or ()) if isinstance(x, int)]
    if shape is not None and len(nums) == len(shape) and 10 ** 6 not in nums and lib == "np":
        for s in {tuple(max(0, n) for n in nums), tuple(abs(n) for n in nums), tuple(nums[1:]) if nums else ()}:
            if min(s, default=0) < 0:
                continue
            for h in ("float64", "U3", "int64"):
                x = nparr(s, h)
                if isinstance(x, t) != isinstance(x, u):
                    return f"{text} and {c['first']} judge {h} {s} differently"


def cases(tier, rng):
    deep = tier == "thorough"
    for lib in libs():
        if lib == "np" and not MAIN:
            continue
        dimsets = [None, []] + [[e] for e in ELEMS] + [list(p) for p in itertools.product(ELEMS, repeat=2) if p != ("...", "...")]
        for _ in range(40 if not deep else 2000):
            p = [rng.choice(ELEMS) for _ in range(rng.randint(3, 7))]
            if not any(a == b == "..." for a, b in zip(p, p[1:])):
                dimsets.append(p)
        for i, ds in enumerate(dimsets):
            full = deep or ds is None or len(ds) < 2
            for dt in [None] + (DTS[lib] if full else [rng.choice(DTS[lib])]):
                for at in [None] + (ATT if full else [rng.choice(ATT)]):
                    fs = forms(lib, dt, ds, at)
                    for f in fs:
                        yield dict(lib=lib, dt=dt, dims=ds, at=at, form=f, first=fs[0], n=len(ds or []))
        dt = DTS[lib][0]
        bads = []
        for b in BAD:
            for n in range(1, 4):
                for pos in range(n):
                    p = ["2"] * n
                    p[pos] = b
                    for pre in ("", dt):
                        if pos == 0 and not pre and b in ("int", "Array", "np.dtype('int8')"):
                            continue          # a type or dtype in front is a dtype
                        items = ([pre] if pre else []) + p
                        bads.append("[" + ", ".join(items) + "]")
                        bads.append("[" + ", ".join(items) + ", {'ndim': 1}]")
                        bads.append("[" + (pre + ", " if pre else "") + "(" + ", ".join(p) + ",)]")
                        bads.append("[3][" + ", ".join(items) + "]")
        for n in range(2, 6):
            for pos in range(n - 1):
                p = ["2"] * n
                p[pos] = p[pos + 1] = "..."
                for w in ("2", "-1", "X"):
                    q = [w if x == "2" else x for x in p]
                    for pre in ("", dt + ", "):
                        bads += [f"[{pre}{', '.join(q)}]", f"[{pre}({', '.join(q)})]", f"[{pre}{', '.join(q)}, {{'ndim': 1}}]"]
        for p in (["Scalar", "Scalar"], ["()", "()"], ["Scalar", "()"], ["Scalar", "3"], ["3", "Scalar"], ["()", "3"], ["2", "()"], ["Scalar", "..."], ["...", "()"], ["Scalar"] * 3, ["()", "2", "()"]):
            for pre in ("", dt + ", "):
                bads += [f"[{pre}{', '.join(p)}]", f"[{pre}{', '.join(p)}, {{'ndim': 1}}]"]
        for b in ("[{'ndim': 1}, 2]", "[2, {'ndim': 1}, 3]", "[{'ndim': 1}, {'ndim': 1}, 2]"):
            bads.append(b)
        if lib != "np":
            bads += ["[np.dtype('int32')]", "[np.dtype('int32'), 2]", "[object]", "[object, 2]", "[list]"]
        for b in bads:
            yield dict(lib=lib, bad=b)
        at = "{'ndim': 1}"
        for base, nxt, keep in [(f"[{dt}, 3]", "[4]", ("dtype", "kind")), (f"[{dt}, 3, {at}]", "[4]", ("dtype", "kwattrs", "kind")), (f"[{dt}, 3, {at}]", f"[{DTS[lib][1]}]", ("kwattrs",)),
                                (f"[{dt}, 3, {at}]", "[()]", ("dtype", "kwattrs", "kind")), (f"[{dt}, 3, {at}]", "[Scalar]", ("dtype", "kwattrs", "kind")), (f"[{dt}, 3]", "[{'ndim': 2}]", ("dtype", "kind")),
                                (f"[{dt}, 3, {at}]", "[4, {'ndim': 2}]", ("dtype", "kind")), (f"[{DTS[lib][-1]}, 3, {at}]", "[4, 5]", ("dtype", "kwattrs", "kind")), (f"[{at}]", f"[{dt}, 2]", ("kwattrs",)),
                                (f"[{dt}, {at}]", "[X]", ("dtype", "kwattrs", "kind")), (f"[{dt}, {at}]", "[...]", ("dtype", "kwattrs", "kind")), (f"[{dt}, {at}]", "[(1, 2)]", ("dtype", "kwattrs", "kind"))]:
            yield dict(lib=lib, inherit=[base, nxt, list(keep)])
