"""Run-time side of the contracts: the real code, executed and compared with the
executable form of the specification.  Run with /opt/venv/bin/python."""
import contextlib
import io
import itertools
import os
import sys
import types

REPO = os.environ.get("ASTA_REPO", "/repo")
WORLD = os.environ.get("RT_WORLD", "tf")       # tf | both | torch | none


def make_torch():
    """A stand-in for PyTorch with the parts of its interface asta touches."""
    t = types.ModuleType("torch")

    class Size(tuple):
        def __repr__(self):
            return f"torch.Size({list(self)})"

        def __getitem__(self, k):
            r = tuple.__getitem__(self, k)
            return Size(r) if isinstance(k, slice) else r

        def __add__(self, o):
            return Size(tuple.__add__(self, o))

    class dtype:
        def __init__(self, name):
            self.name = name

        def __repr__(self):
            return "torch." + self.name

    class device:
        def __init__(self, type="cpu", index=None):
            self.type, self.index = type, index

        def __eq__(self, o):
            return isinstance(o, device) and (self.type, self.index) == (o.type, o.index)

        def __hash__(self):
            return hash((self.type, self.index))

    class Tensor:
        def __init__(self, shape=(), dtype=None, requires_grad=False, device_=None):
            self.shape = Size(shape)
            self.dtype = dtype if dtype is not None else t.float32
            self.requires_grad = requires_grad
            self.device = device_ or device()

        def dim(self):
            return len(self.shape)
    for n in ("int8", "int16", "int32", "int64", "uint8", "float16", "float32", "float64", "bool", "complex64"):
        setattr(t, n, dtype(n))
    t.Size, t.dtype, t.device, t.Tensor = Size, dtype, device, Tensor
    t.float, t.double, t.int, t.long = t.float32, t.float64, t.int32, t.int64
    return t


def block(name):
    sys.modules[name] = None


if WORLD in ("both", "torch"):
    sys.modules["torch"] = make_torch()
else:
    block("torch")
if WORLD in ("torch", "none"):
    block("tensorflow")
sys.path.insert(0, REPO)

MAIN = WORLD == "tf"
HAS_TORCH = WORLD in ("both", "torch")
HAS_TF = WORLD in ("both", "tf")


@contextlib.contextmanager
def quiet():
    buf = io.StringIO()
    old = sys.stdout
    sys.stdout = buf
    try:
        yield buf
    finally:
        sys.stdout = old


with quiet():
    import numpy as np
    import sympy
    import asta
    from asta import Array, Scalar, typechecked
    from asta.config import get_ox
    import asta.symbols as _symbols
    import asta.dims
    import asta.shapes
    dims, shapes = sys.modules["asta.dims"], sys.modules["asta.shapes"]
    if HAS_TF:
        import tensorflow as tf
    else:
        tf = None
    torch = sys.modules["torch"] if HAS_TORCH else None

ox = get_ox()
OX0 = dict(on=True, raise_errors=True, print_passes=True, check_non_asta_types=False, check_all_sequence_elements=True)


def options(**kw):
    """Set the options; those not named go back to their defaults."""
    for k, v in {**OX0, **kw}.items():
        setattr(ox, k, v)


options()
SYM = sympy.symbols("X Y Z W")
X, Y, Z, W = SYM


class Skip(Exception):
    """The case is outside what the property speaks of."""


# ------------------------------------------------------------------ solver oracle
_solved = {}


def solvable(eqs):
    """What the computer-algebra system says of a set of expressions = 0."""
    key = frozenset(eqs)
    if key not in _solved:
        live = [e for e in sorted(key, key=str) if e != 0]
        if not live:
            _solved[key] = True
        else:
            syms = set().union(*[sympy.sympify(e).free_symbols for e in live])
            _solved[key] = len(sympy.solvers.solve(set(live), syms, dict=True)) >= 1
    return _solved[key]


# ------------------------------------------------------------------ shape oracle
def is_expr(p):
    return isinstance(p, sympy.Expr)


def elem_ok(p, d):
    if is_expr(p):
        return True
    if p == -1:
        return d > 0
    return p == d


def splits(pat, shape):
    """Every way to split: yields the list of equations (no equation solved)."""
    if not pat:
        if not shape:
            yield ()
        return
    p, rest = pat[0], pat[1:]
    if p is Ellipsis:
        for k in range(len(shape) + 1):
            if k and shape[k - 1] == 0:
                return
            yield from splits(rest, shape[k:])
        return
    if shape and elem_ok(p, shape[0]):
        e = ((sympy.sympify(p) - shape[0]),) if is_expr(p) else ()
        for r in splits(rest, shape[1:]):
            yield e + r


def matches(pat, shape):
    """Can the shape be split?  (numeric patterns; linear-time dynamic programme)"""
    if pat is None:
        return True
    n, m = len(pat), len(shape)
    cur = [False] * (m + 1)
    cur[m] = True
    for i in range(n - 1, -1, -1):
        p = pat[i]
        new = [False] * (m + 1)
        for j in range(m, -1, -1):
            if p is Ellipsis:
                new[j] = cur[j] or (j < m and shape[j] != 0 and new[j + 1])
            elif j < m and elem_ok(p, shape[j]):
                new[j] = cur[j + 1]
        cur = new
    return cur[0]


def fragments(pat):
    out, cur = [], []
    for p in pat:
        if p is Ellipsis:
            if cur:
                out.append(cur)
            cur = []
        else:
            cur.append(p)
    if cur:
        out.append(cur)
    return out


def verdict(pat, shape, extra=()):
    """'yes', 'no' or 'either' for a flat pattern with symbols, with extra equations."""
    if pat is None:
        return "yes" if solvable(extra) else "no"
    pat, shape = tuple(pat), tuple(shape)
    if not any(is_expr(p) for p in pat):
        return "yes" if matches(pat, shape) and solvable(extra) else "no"
    if Ellipsis not in pat:
        for s in splits(pat, shape):
            return "yes" if solvable(tuple(s) + tuple(extra)) else "no"
        return "no"
    # with ellipses: the split is the checker's choice.  The leftmost one must be
    # accepted if its system is solvable; a shape no split of which is solvable
    # must be refused.
    first = leftmost(pat, shape)
    if first is not None and solvable(tuple(first) + tuple(extra)):
        return "yes"
    n = 0
    for s in splits(pat, shape):
        n += 1
        if solvable(tuple(s) + tuple(extra)) or n > 300:
            return "either"
    return "no"


def leftmost(pat, shape):
    """Equations of the split that makes every ellipsis but the last as short as possible."""
    eqs, pos = [], 0
    i = 0
    n = len(pat)
    while i < n:
        run = []
        free = False
        if pat[i] is Ellipsis:
            free = True
            i += 1
        while i < n and pat[i] is not Ellipsis:
            run.append(pat[i])
            i += 1
        if not run:
            if 0 in shape[pos:]:
                return None
            return eqs
        lo, hi = (pos, len(shape) - len(run)) if free else (pos, pos)
        if i >= n:
            if not free and len(shape) - len(run) != pos:
                return None
            lo = hi = len(shape) - len(run)
            if lo < pos:
                return None
        for j in range(lo, hi + 1):
            seg = shape[j:j + len(run)]
            if len(seg) == len(run) and all(elem_ok(p, d) for p, d in zip(run, seg)):
                break
        else:
            return None
        if 0 in shape[pos:j]:
            return None
        eqs += [sympy.sympify(p) - d for p, d in zip(run, seg) if is_expr(p)]
        pos = j + len(run)
    return eqs if pos == len(shape) else None


# ------------------------------------------------------------------ values
_arr = {}


def nparr(shape, dtype="int8"):
    key = (tuple(shape), str(dtype))
    if key not in _arr:
        if len(_arr) > 4000:
            _arr.clear()
        if 0 in shape:
            _arr[key] = np.zeros(shape, dtype)
        else:
            _arr[key] = np.broadcast_to(np.zeros((), dtype), shape)
    return _arr[key]


def value(lib, shape, dtype=None):
    if lib == "np":
        return nparr(shape, dtype or "int8")
    if lib == "tf":
        return tf.zeros(shape, dtype or tf.int8)
    return torch.Tensor(shape, dtype or torch.float32)


def klass(lib):
    return {"np": Array}.get(lib) or getattr(asta, {"tf": "TFTensor", "torch": "Tensor"}[lib])


def libs():
    return ["np"] + (["tf"] if HAS_TF else []) + (["torch"] if HAS_TORCH else [])


_exprs = {}


def ev(s, **extra):
    """Evaluate a piece of case text."""
    env = dict(NS)
    env.update(extra)
    return eval(s, env)


def mk(pat):
    """Pattern element texts to values ('...' -> Ellipsis, ints stay)."""
    return tuple(Ellipsis if p == "..." else p if isinstance(p, int) else expr(p) for p in pat)


def expr(s):
    if s not in _exprs:
        _exprs[s] = sympy.sympify(s)
    return _exprs[s]


NS = dict(datetime=__import__("datetime"), np=np, sympy=sympy, asta=asta, Array=Array, Scalar=Scalar, typechecked=typechecked, X=X, Y=Y, Z=Z, W=W,
          dims=dims, shapes=shapes, tf=tf, torch=torch, nparr=nparr)
if HAS_TF:
    NS["TFTensor"] = asta.TFTensor
if HAS_TORCH:
    NS["Tensor"] = asta.Tensor


# ------------------------------------------------------------------ generators
def patterns(alphabet, maxlen, minlen=0):
    for n in range(minlen, maxlen + 1):
        for p in itertools.product(alphabet, repeat=n):
            if any(a == b == "..." for a, b in zip(p, p[1:])):
                continue
            yield list(p)


def rand_pattern(rng, alphabet, n):
    p = []
    while len(p) < n:
        e = rng.choice(alphabet)
        if e == "..." and p and p[-1] == "...":
            continue
        p.append(e)
    return p


def shape_for(rng, pat, sizes, wild):
    """A shape that is likely to match: substitute something for each element."""
    s = []
    for p in pat:
        if p == "...":
            s += [rng.choice(wild) for _ in range(rng.choice((0, 0, 1, 2, 3)))]
        elif p == -1:
            s.append(rng.choice(wild))
        elif isinstance(p, int):
            s.append(p)
        else:
            s.append(rng.choice(sizes))
    if s and rng.random() < 0.5:
        k = rng.random()
        i = rng.randrange(len(s))
        if k < 0.3:
            s[i] = rng.choice(sizes)
        elif k < 0.5:
            del s[i]
        elif k < 0.7:
            s.insert(i, rng.choice(sizes))
        elif k < 0.85:
            j = rng.randrange(len(s))
            s[i], s[j] = s[j], s[i]
        else:
            s = s[i:] + s[:i]
    return s
