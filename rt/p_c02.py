from common import *

RULE = ("patterns with symbols and expressions: every pattern over {2,X,Y,X+1,X*Y,-1,...} up to length 3 against every shape over {0..3} of rank <= 3 "
        "(sampled), random longer ones; oracle: the equations of the splits, solved by sympy; nontrivial: two or more symbolic dimensions")

EX = ["X", "Y", "Z", "X+1", "2*X", "X-1", "X*Y", "X+Y", "X**2", "X/2", "X-Y", "2*X+3*Y", "X*Y*Z", "X+Y+Z", "3*X-1", "3", "2"]
EXS = set(EX)


def nontrivial(c):
    return sum(1 for p in c["pattern"] if p in EXS) >= 2


def run(c):
    pat, shape, lib = mk(c["pattern"]), tuple(c["shape"]), c["lib"]
    want = verdict(pat, shape)
    t = klass(lib)[pat]
    for rep in range(2):     # twice: no equation may survive from the first check
        got = isinstance(value(lib, shape), t)
        if want != "either" and bool(got) != (want == "yes"):
            return f"check {rep + 1}: isinstance(<{lib} array of shape {shape}>, {klass(lib).__name__}{list(c['pattern'])}) is {got}, expected {want}"


def cases(tier, rng):
    deep = tier == "thorough"
    main = not HAS_TORCH
    if main:
        sh = [list(s) for n in range(4) for s in itertools.product((0, 1, 2, 3), repeat=n)]
        for p in patterns(["X", "Y", "X+1", 2, -1, "..."], 2, 1):
            if any(x in EXS for x in p):
                for s in sh:
                    if len(s) <= len(p) + 1:
                        yield dict(lib="np", pattern=p, shape=s)
        # an expression that is a plain number, next to symbols
        for p in (["3", "X", "X"], ["X", "3", "X"], ["X", "X", "3"], ["3"], ["3", "..."], ["X", "...", "3", "X"], ["2", "X", "X+1"]):
            for s in sh:
                yield dict(lib="np", pattern=p, shape=s)
        for p in patterns(["X", "Y", 2, -1, "..."], 3, 3):
            if any(x in EXS for x in p):
                for _ in range(8 if not deep else 64):
                    yield dict(lib="np", pattern=p, shape=rng.choice([shape_for(rng, p, (0, 1, 2, 3), (1, 2, 3)), rng.choice(sh)]))
    n = 0
    while n < (1500 if not deep else 100000):
        n += 1
        lib = "np" if rng.random() < 0.85 else rng.choice(libs())
        k = rng.choice((2, 3, 3, 4, 5))
        al = rng.sample(EX, rng.choice((2, 3))) + rng.sample([1, 2, 3, 4, -1], 2) + (["..."] if rng.random() < 0.6 else [])
        p = rand_pattern(rng, al, k)
        if not any(x in EXS for x in p):
            continue
        # sizes from a real assignment, then maybe disturbed
        env = {X: rng.randint(1, 6), Y: rng.randint(1, 6), Z: rng.randint(1, 4)}
        s = []
        for x in p:
            if x == "...":
                s += [rng.choice((1, 2, 3, env[X])) for _ in range(rng.choice((0, 0, 1, 2)))]
            elif x == -1:
                s.append(rng.randint(1, 4))
            elif isinstance(x, int):
                s.append(x)
            else:
                v = expr(x).subs(env)
                s.append(int(v) if v.is_Integer and v >= 0 else rng.randint(0, 4))
        if rng.random() < 0.5 and s:
            i = rng.randrange(len(s))
            q = rng.random()
            if q < 0.6:
                s[i] = max(0, s[i] + rng.choice((-1, 1, 2)))
            elif q < 0.8:
                j = rng.randrange(len(s))
                s[i], s[j] = s[j], s[i]
            elif q < 0.9:
                del s[i]
            else:
                s.insert(i, rng.randint(0, 3))
        if len(s) > 9:
            continue
        prod = 1
        for x in s:
            prod *= max(x, 1)
        if lib == "tf" and prod > 10 ** 6 or prod > 2 ** 50:
            continue
        yield dict(lib=lib, pattern=p, shape=s)
