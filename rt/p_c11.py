from oracle import *

RULE = ("functions of every signature kind with odd parameter names, called positionally/by keyword, returning distinguished objects or raising exceptions of every "
        "kind, with accepted and refused arguments and results, recursion, generators and coroutines; calls counted, identities compared; switched off by option and by "
        "environment: the same object; nontrivial: two parameters or more, or an exception")

NAMES = ["args", "kwargs", "decorated", "equations", "ox", "name", "annotations", "header", "ret", "arg", "annotation", "f", "self_", "checkable_args", "x", "value"]
EXC = ["ValueError('a')", "TypeError('mine')", "KeyError('k')", "StopIteration(3)", "GeneratorExit()", "KeyboardInterrupt()", "SystemExit(2)", "AssertionError()", "MyBase()", "AttributeError('shape')", "RecursionError('x')", "MemoryError()"]


class MyBase(BaseException):
    pass


def nontrivial(c):
    return c.get("exc") is not None or len(c.get("params", ())) > 1


def run(c):
    if "off" in c:
        return run_off(c)
    if "special" in c:
        return run_special(c)
    params = []
    for n, d, dflt, kind in c["params"]:
        params.append((n, build(d), dflt is not None, build_val(dflt) if dflt is not None else None, kind))
    vals = [build_val(v) for v in c["args"]]
    ret = build_val(c["ret"]) if c.get("retann") else ev(c.get("retobj", "object()"))
    exc = ev(c["exc"], MyBase=MyBase) if c.get("exc") else None
    store = dict(calls=[], ret=ret, exc=exc)
    f0 = mkfun(params, build(c["retann"]) if c.get("retann") else NOANN, store)
    d0 = dict(f0.__annotations__)
    f = typechecked(f0)
    if f0.__annotations__ != d0:
        return "the annotations of the function were changed"
    if f.__name__ != f0.__name__ or f.__module__ != f0.__module__:
        return "name or module is lost"
    names = [p[0] for p in params]
    a, kw = [], {}
    for (n, _, dflt, kind), v, how in zip(c["params"], vals, c["how"]):
        if how == "pos":
            a.append(v)
        elif how == "kw":
            kw[n] = v
    kw0 = dict(kw)
    final = [v if how != "dflt" else p[3] for p, v, how in zip(params, vals, c["how"])]
    want_in = verdict_on([(v, d[1]) for v, d in zip(final, c["params"])])
    for k in range(2):
        store["calls"] = []
        got, err = None, None
        try:
            got = f(*a, **kw)
        except BaseException as e:
            err = e
        if kw != kw0:
            return "the keyword arguments were changed"
        ran = len(store["calls"])
        if ran > 1:
            return f"the function ran {ran} times"
        if ran:
            seen = store["calls"][0]
            if len(seen) != len(final) or any(x is not y for x, y in zip(seen, final)):
                return f"call {k + 1}: the function was given other arguments"
        if want_in == "no" and (ran or not isinstance(err, TypeError)):
            return f"call {k + 1}: refused arguments, but ran={ran} error={err!r:.100}"
        if want_in == "yes" and not ran:
            return f"call {k + 1}: accepted arguments, but the function did not run: {err!r:.200}"
        if not ran:
            if not isinstance(err, TypeError):
                return f"call {k + 1}: not run and no TypeError: {err!r:.100}"
            continue
        if exc is not None:
            if err is not exc:
                return f"call {k + 1}: the function raised {exc!r}, the caller saw {err!r:.100} / {got!r:.50}"
            if exc.__cause__ is not None:
                return "the exception was changed"
            continue
        want = want_in if not c.get("retann") else verdict_on([(v, d[1]) for v, d in zip(final, c["params"])] + [(ret, c["retann"])])
        if err is not None and not isinstance(err, TypeError):
            return f"call {k + 1}: {err!r:.100}"
        if err is None and got is not ret:
            return f"call {k + 1}: another object was returned"
        if want == "yes" and err is not None:
            return f"call {k + 1}: a conforming result is not delivered: {err!r:.200}"
        if want == "no" and err is None:
            return f"call {k + 1}: a result that does not pass is delivered"


def run_off(c):
    import os

    def f(a: Array[2], b=1):
        return a

    class K:
        def m(self, a: Array[3]) -> Array[3]:
            return a

        class N:
            q: int = 3
    g = lambda a: a
    before = dict(vars(K))
    env = os.environ.pop("ASTA_TYPECHECK", None)
    try:
        if c["off"] == "option":
            options(on=False)
        else:
            options(on=True)
            os.environ["ASTA_TYPECHECK"] = c["off"]
        for o in (f, K, g, len):
            if typechecked(o) is not o:
                return f"off ({c['off']}): decorating {o!r} returns another object"
        if {k: v for k, v in vars(K).items()} != before:
            return "off: the class was changed"
    finally:
        os.environ.pop("ASTA_TYPECHECK", None)
        if env is not None:
            os.environ["ASTA_TYPECHECK"] = env
        options()


def run_special(c):
    k = c["special"]
    log = []
    a2, a3 = np.zeros(2), np.zeros(3)
    if k == "recursion":
        def fact(n: Array["X"] if False else Array[X], m: Array[X]) -> Array[X]:
            log.append(n.shape)
            if len(log) < 6:
                r = fact2(np.zeros(len(n) + 1), np.zeros(len(n) + 1))
                assert r.shape == (len(n) + 1,)
            return n
        fact2 = typechecked(fact)
        if fact2(a2, a2) is not a2 or log != [(i,) for i in range(2, 8)]:
            return f"recursion: {log}"
    elif k == "generator":
        def g(a: Array[2]):
            log.append(1)
            yield a
            yield 2
        r = typechecked(g)(a2)
        if log or next(r) is not a2 or next(r) != 2 or list(r):
            return "a generator function does not behave"
        try:
            typechecked(g)(a3)
        except TypeError:
            return
        return "generator: refused argument accepted"
    elif k == "coroutine":
        async def co(a: Array[2]):
            log.append(1)
            return a
        r = typechecked(co)(a2)
        if log:
            return "coroutine started"
        try:
            r.send(None)
        except StopIteration as e:
            if e.value is not a2:
                return "coroutine value"
    elif k == "retself":
        def h(a: Array[2]) -> Array[2]:
            return a
        if typechecked(h)(a2) is not a2:
            return "identity"
    elif k == "twice":
        def h(a: Array[X], b: Array[X]):
            log.append(1)
            return len(log)
        f = typechecked(h)
        seen = []
        for x, y in ((a2, a2), (a3, a3), (a2, a3), (a3, a2), (a2, a2)):
            try:
                seen.append(f(x, y))
            except TypeError:
                seen.append("no")
        if seen != [1, 2, "no", "no", 3]:
            return f"a sequence of calls gives {seen}"
    elif k == "interleaved":
        def inner(a: Array[X]) -> Array[X]:
            log.append("i")
            return a
        inner = typechecked(inner)

        def outer(a: Array[X]) -> Array[X]:
            log.append("o")
            try:
                inner(np.zeros((1, 2)))
            except TypeError:
                log.append("e")
            inner(a3)
            return a
        outer = typechecked(outer)
        if outer(a2) is not a2 or log != ["o", "e", "i"]:
            return f"nested calls: {log}"
    elif k == "closure":
        state = {"n": 0}

        def outer(a: Array[2]):
            state["n"] += 1
            return state
        f = typechecked(outer)
        if f(a=a2) is not state or state["n"] != 1:
            return "closure"
    elif k == "mutdefault":
        def h(a: Array[2], b: List[Array[2]] = []):
            b.append(a)
            return b
        f = typechecked(h)
        r1 = f(a2)
        r2 = f(a2)
        if r1 is not r2 or len(r1) != 2:
            return "a mutable default is not the function's own"


def cases(tier, rng):
    deep = tier == "thorough"
    for o in ("option", "0", "", "no", "yes", "true", "2", " 1", "11"):
        yield dict(off=o)
    for s in ("recursion", "generator", "coroutine", "retself", "twice", "interleaved", "closure", "mutdefault"):
        yield dict(special=s)
    A = lambda p: ["asta", "np", None, p, None]
    V = lambda *s: ["arr", "np", list(s), "int8"]
    for e in EXC:
        for r in (None, A([2])):
            for v in (V(2), V(3)):
                yield dict(params=[["x", A([2]), None, "pos"]], args=[v], how=["pos"], ret=V(2), retann=r, exc=e)
    for n in NAMES:
        for how in ("pos", "kw"):
            for v in (V(2), V(3)):
                for m in NAMES[:4]:
                    if m != n:
                        yield dict(params=[[n, A([2]), None, "pos"], [m, A([4]), None, "pos"]], args=[v, V(4)], how=[how, "kw"], ret=V(2), retann=rng.choice((None, A([2]), A([3]))))
    for r in ("None", "0", "NotImplemented", "...", "[]", "False", "()", "np.zeros(2)", "float('nan')", "Exception('x')", "Array"):
        yield dict(params=[["x", A([2]), None, "pos"]], args=[V(2)], how=["pos"], retobj=r)
    env = {X: 2, Y: 3}
    for _ in range(600 if not deep else 50000):
        n = rng.choice((0, 1, 2, 2, 3))
        names = rng.sample(NAMES, n)
        ps, args, how, kwseen = [], [], [], False
        kinds = sorted((rng.choice(("pos", "pos", "posonly", "kwonly")) for _ in range(n)), key=["posonly", "pos", "kwonly"].index)
        dseen = False
        for nm, kind in zip(names, kinds):
            d, v = gen_comp(rng, rng.choice((0, 0, 1)), env)
            dflt = None
            if dseen and kind != "kwonly" or rng.random() < 0.25:
                dflt = v
                dseen = dseen or kind != "kwonly"
            h = rng.choice({"pos": ["pos", "kw"], "posonly": ["pos"], "kwonly": ["kw"]}[kind] + (["dflt"] if dflt else []))
            if h == "pos" and kwseen:
                h = "kw" if kind != "posonly" else "dflt" if dflt else "bad"
            if h != "pos":
                kwseen = True
            if kind == "posonly" and h == "kw":
                h = "bad"
            ps.append([nm, d, dflt, kind])
            args.append(disturb(rng, v) if rng.random() < 0.2 else v)
            how.append(h)
        if "bad" in how:
            continue
        c = dict(params=ps, args=args, how=how)
        if rng.random() < 0.5:
            d, v = gen_comp(rng, rng.choice((0, 0, 1)), env)
            c["retann"], c["ret"] = d, disturb(rng, v) if rng.random() < 0.4 else v
        if rng.random() < 0.2:
            c["exc"] = rng.choice(EXC)
        yield c
