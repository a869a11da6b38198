from common import *

RULE = ("every pattern over {0,1,2,-1,...} up to length 4 (quick) against every shape over {0,1,2} up to rank 4, plus random longer "
        "patterns with shapes derived from them; nontrivial: the pattern has an ellipsis or a wildcard")


def nontrivial(c):
    return "..." in c["pattern"] or -1 in c["pattern"]


_types = {}


def typ(lib, pat):
    k = (lib, tuple(pat))
    if k not in _types:
        if len(_types) > 2000:
            _types.clear()
        p = mk(pat)
        _types[k] = klass(lib)[p] if p else klass(lib)[()]
    return _types[k]


def run(c):
    pat, shape, lib = c["pattern"], tuple(c["shape"]), c["lib"]
    t = typ(lib, pat)
    want = matches(mk(pat), shape)
    got = isinstance(value(lib, shape), t)
    if got is not want and got != want:
        return f"isinstance(<{lib} array of shape {shape}>, {klass(lib).__name__}[{pat}]) is {got}, the pattern {'matches' if want else 'does not match'}"


def cases(tier, rng):
    A = [0, 1, 2, -1, "..."]
    deep = tier == "thorough"
    main = libs()[-1] == "np" or not HAS_TORCH
    if main:
        shapes_ = [list(s) for n in range(5) for s in itertools.product((0, 1, 2), repeat=n)]
        for p in patterns(A, 3):
            for s in shapes_:
                yield dict(lib="np", pattern=p, shape=s)
        for p in patterns([1, 2, -1, "..."], 5, 4):
            for _ in range(6 if not deep else 60):
                yield dict(lib="np", pattern=p, shape=shape_for(rng, p, (0, 1, 2), (1, 2)))
        for p in patterns([0, 1, "..."], 6, 4):
            for _ in range(3 if not deep else 60):
                yield dict(lib="np", pattern=p, shape=shape_for(rng, p, (0, 1), (0, 1)))
        if deep:
            for p in patterns(A, 4, 4):
                for s in shapes_:
                    yield dict(lib="np", pattern=p, shape=s)
    small = [list(s) for n in range(4) for s in itertools.product((0, 1, 2), repeat=n)]
    for lib in libs():
        if lib == "np":
            continue
        for p in patterns(A, 2 if not deep else 3):
            for s in small:
                yield dict(lib=lib, pattern=p, shape=s)
        for p in patterns([1, 2, -1, "..."], 4, 3):
            for _ in range(2):
                yield dict(lib=lib, pattern=p, shape=shape_for(rng, p, (0, 1, 2), (1, 2)))
    big = [0, 1, 2, 3, 7, 10, 255, 256, 257, 1000, 4096, 2 ** 31, 10 ** 12]
    n = 0
    while n < (6000 if not deep else 400000):
        n += 1
        lib = "np" if rng.random() < 0.9 or (len(libs()) == 1) else rng.choice(libs()[1:])
        k = rng.random()
        if k < 0.7:
            al, sz, wild = rng.choice((([1, 2, 3, -1, -1, "...", "..."], (0, 1, 2, 3), (1, 2, 3)),
                                       ([1, 2, "..."], (1, 2), (1, 2)),
                                       ([1, -1, "..."], (0, 1, 2), (1, 1, 2)),
                                       ([0, 1, -1, "..."], (0, 1), (0, 1, 1)),
                                       ([5, "..."], (5, 6), (5, 5, 6))))
            p = rand_pattern(rng, al, rng.randint(3, 9))
            s = shape_for(rng, p, sz, wild)
        else:
            q = rng.sample(big, 4)
            p = rand_pattern(rng, q + [-1, "..."], rng.randint(1, 6))
            s = shape_for(rng, p, q, [x for x in q if x])
            if lib == "tf":
                lib = "np"
            prod = 1
            for x in s:
                prod *= max(x, 1)
            if prod > 2 ** 58:
                continue
        if len(s) > 20 or (lib == "tf" and len(s) > 8):
            continue
        yield dict(lib=lib, pattern=p, shape=s)
