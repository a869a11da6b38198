from oracle import *

RULE = ("every dtype annotation of the library (Python types, scalar types, dtype objects) against values of every dtype, with and without a shape, an attribute "
        "dictionary or a later subscript, and against values that are no arrays of the library; nontrivial: the dtypes differ but are related (same kind, width or byte order)")

NPANN = ["int", "float", "bool", "complex", "bytes", "str", "object", "np.int8", "np.int16", "np.int32", "np.int64", "np.uint8", "np.uint16", "np.uint32", "np.uint64",
         "np.float16", "np.float32", "np.float64", "np.longdouble", "np.complex64", "np.complex128", "np.bool_",
         "np.dtype('>i4')", "np.dtype('<i4')", "np.dtype('>f8')", "np.dtype('U3')", "np.dtype('U5')", "np.dtype('S2')", "np.dtype('S7')", "np.dtype('O')", "np.dtype('M8[ns]')",
         "np.dtype('M8[s]')", "np.dtype('m8[ns]')", "np.dtype('m8[D]')", "np.dtype('bool')", "np.dtype('V4')", "np.dtype('>U3')",
         "datetime.datetime", "datetime.timedelta", "datetime.date", "datetime.time", "list"]
NPHAVE = ["int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "float16", "float32", "float64", "longdouble", "complex64", "complex128", "bool",
          ">i4", "<i4", ">f8", ">i8", "U1", "U3", "U5", "U40", ">U3", "S1", "S2", "S7", "S40", "O", "M8[ns]", "M8[s]", "M8[D]", "m8[ns]", "m8[D]", "V4", "clongdouble", "M8", "m8"]
TFD = ["int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "float16", "bfloat16", "float32", "float64", "complex64", "complex128", "bool", "string"]
TD = ["int8", "int16", "int32", "int64", "uint8", "float16", "float32", "float64", "bool", "complex64"]
OTHER = ["None", "3", "2.0", "True", "'a'", "b'a'", "[1, 2]", "(2,)", "np.float64(1)", "np.int64(3)", "np.ndarray", "int", "range(3)", "memoryview(b'ab')", "{}", "Duck()", "np.dtype('int64')", "np.bool_(True)", "object()"]


class Duck:
    shape, ndim, size = (2,), 1, 2
    dtype = np.dtype("float64")

    def __array__(self, *a):
        return np.zeros(2)


SUB = {"plain": lambda h, s: np.zeros(s, h), "matrix": lambda h, s: np.zeros((1, 2), h).view(np.matrix), "masked": lambda h, s: np.ma.masked_array(np.zeros(s, h)),
       "view": lambda h, s: np.zeros((4,) + tuple(s), h)[1], "record": lambda h, s: np.zeros(s, [("f", h)]), "f": lambda h, s: np.zeros(s, h, order="F"), "ro": lambda h, s: np.broadcast_to(np.zeros((), h), s)}


def nontrivial(c):
    return c.get("dt") is not None and c.get("have") is not None


def make(c):
    if "other" in c:
        return ev(c["other"], Duck=Duck)
    lib, s = c["lib_v"], tuple(c["shape"])
    if lib == "np":
        return SUB[c.get("how", "plain")](c["have"], s)
    if lib == "tf":
        dt = getattr(tf, c["have"])
        x = tf.constant("a", shape=s) if c["have"] == "string" else tf.zeros(s, dt)
        return tf.Variable(x) if c.get("how") == "var" else x
    return torch.Tensor(s, getattr(torch, c["have"]))


def run(c):
    x = make(c)
    lib, dt = c["lib"], c["dt"]
    C = klass(lib)
    T = dtype_obj(dt) if dt else None
    form = c["form"]
    d = ["asta", lib, dt, None, None]
    s = () if isinstance(x, type) else tuple(int(n) for n in getattr(x, "shape", ()))
    if form == "plain":
        t = C[T] if dt else C
    elif form == "shape":
        t = C[(T,) + (s or ((),))] if dt else C[s]
        d[3] = list(s)
    elif form == "dots":
        t = C[T, ...] if dt else C[...]
        d[3] = ["..."]
    elif form == "then":
        t = C[T][s] if dt else C[s]
        d[3] = list(s)
    elif form == "attrs":
        t = C[T, {"shape": s}] if dt else C[{"shape": s}]
    elif form == "thenattrs":
        t = C[T][{"shape": s}] if dt else C[{"shape": s}]
    elif form == "over":      # a second dtype replaces the first one
        first = {"np": np.uint16, "tf": float, "torch": float}[lib]
        t = C[first][T] if dt else C[first]
        if not dt:
            d[2] = {"np": "np.uint16", "tf": "float", "torch": "float"}[lib]
    elif form == "overstr":   # the kind of the first subscript must not stay behind
        t = C[str if lib != "torch" else bytes][T] if dt else C[str if lib != "torch" else bytes]
        if not dt:
            d[2] = "str" if lib != "torch" else "bytes"
    g, poss = spec_asta(x, d)
    want = g is not None
    got = isinstance(x, t)
    if got != want:
        return f"isinstance(<{type(x).__name__} {getattr(x, 'dtype', '')} {getattr(x, 'shape', '')}>, {C.__name__}[{dt}] ({form})) is {got}"
    if c.get("deco") and lib == "np":
        try:
            typechecked(mkfun([("a", t, False, None, "pos")], NOANN, dict(calls=[], ret=None)))(x)
            got = True
        except TypeError:
            got = False
        if got != want:
            return f"typechecked: {got}, expected {want}"


def cases(tier, rng):
    if MAIN:
        for dt in NPANN + [None]:
            for h in NPHAVE:
                yield dict(lib="np", dt=dt, lib_v="np", have=h, shape=[2], form="plain", deco=True)
                for form in ("shape", "dots", "then", "attrs", "thenattrs", "over", "overstr"):
                    if tier == "thorough" or dt in ("str", "bytes", "object", None, "int", "float", "np.dtype('U3')") or rng.random() < 0.15:
                        yield dict(lib="np", dt=dt, lib_v="np", have=h, shape=rng.choice(([], [2], [1, 2], [0])), form=form, deco=rng.random() < 0.3)
        for how in SUB:
            for dt in [None, "float", "int", "str", "bytes", "object", "np.int32", "bool"]:
                for h in ("float64", "int64", "U3", "int32", "S2", "O"):
                    for form in ("plain", "shape", "dots"):
                        yield dict(lib="np", dt=dt, lib_v="np", have=h, shape=[2], how=how, form=form)
    for lib in libs():
        anns = {"np": [None, "int", "float", "str", "object", "np.int32"], "tf": [None, "int", "float", "str", "tf.float16"], "torch": [None, "int", "float", "torch.float64"]}[lib]
        for dt in anns:
            for o in OTHER:
                for form in ("plain", "dots"):
                    yield dict(lib=lib, dt=dt, other=o, form=form)
            for lv in libs():
                if lv != lib:
                    for h in {"np": ["int64", "int32", "float32", "float64", "O", "U3"], "tf": ["int32", "float32", "float64", "string"], "torch": ["int32", "float32", "float64"]}[lv]:
                        for s in ([2], []):
                            for form in ("plain", "shape"):
                                yield dict(lib=lib, dt=dt, lib_v=lv, have=h, shape=s, form=form)
    if HAS_TF:
        for dt in [None, "int", "float", "complex", "bool", "bytes", "str"] + ["tf." + x for x in TFD]:
            for h in TFD:
                for form in ("plain", "dots", "shape", "then", "over", "overstr", "thenattrs"):
                    if form == "plain" or rng.random() < 0.3 or dt in ("str", "bytes", None):
                        yield dict(lib="tf", dt=dt, lib_v="tf", have=h, shape=rng.choice(([2], [], [1, 2])), form=form)
    if HAS_TORCH:
        for dt in [None, "int", "float", "bool", "bytes"] + ["torch." + x for x in TD]:
            for h in TD:
                for form in ("plain", "dots", "shape", "then", "over", "overstr", "attrs", "thenattrs"):
                    yield dict(lib="torch", dt=dt, lib_v="torch", have=h, shape=rng.choice(([2], [], [1, 2])), form=form)
