from common import *
import datetime, enum, fractions, decimal, collections

RULE = ("about a hundred values of every kind (arrays and tensors of every rank, dtype and subclass, Python and NumPy scalars, their subclasses, containers, classes, look-alikes "
        "with a shape attribute) against the list of scalar kinds; nontrivial: all")


class MyInt(int):
    pass


class Fake:
    shape = ()


class FakeF(float):
    shape = (3,)


class IE(enum.IntEnum):
    A = 1


class E_(enum.Enum):
    A = 1


class MyArr(np.ndarray):
    pass


LOC = dict(datetime=datetime, MyInt=MyInt, Fake=Fake, FakeF=FakeF, IE=IE, E_=E_, MyArr=MyArr, fractions=fractions, decimal=decimal, collections=collections)
YES = ["True", "False", "0", "-3", "10**40", "2.5", "float('nan')", "float('inf')", "1j", "b''", "b'abc'", "''", "'abc'", "datetime.datetime(2020, 1, 1)", "datetime.timedelta(1)", "MyInt(3)", "FakeF(2.0)", "IE.A", "np.float64(1)", "np.complex128(1)", "np.str_('a')", "np.bytes_(b'a')"]
NO = ["None", "[]", "[1]", "()", "(1,)", "{}", "set()", "frozenset()", "range(1)", "object()", "int", "float", "Scalar", "Array", "Array[()]", "bytearray(b'a')", "memoryview(b'a')", "datetime.date(2020, 1, 1)", "datetime.time(1)", "datetime.timezone.utc", "Fake()", "Fake", "E_.A", "fractions.Fraction(1, 2)", "decimal.Decimal(1)",
      "np.int64(1)", "np.float32(1)", "np.bool_(True)", "np.datetime64('2020')", "np.dtype('int8')", "sympy.Integer(1)", "X", "len", "...", "NotImplemented", "type", "np", "collections.deque()", "iter(())", "Exception()", "np.uint8(1)", "np.void(b'a')", "np.timedelta64(1)"]


def run(c):
    if "text" in c:
        x = ev(c["text"], **LOC)
        want = c["want"]
    else:
        x = value(c["lib"], tuple(c["shape"]), ev(c["dtype"]) if c["dtype"] and c["lib"] != "np" else c["dtype"])
        if c.get("sub") == "MyArr":
            x = np.array(x).view(MyArr)
        elif c.get("sub") == "ma":
            x = np.ma.masked_array(np.array(x))
        want = c["shape"] == []
    for i in range(2):
        got = isinstance(x, Scalar)
        if got is not want:
            return f"isinstance({c.get('text') or c}, Scalar) is {got}"


def cases(tier, rng):
    for t in YES:
        yield dict(text=t, want=True)
    for t in NO:
        yield dict(text=t, want=False)
    for s in ([], [0], [1], [1, 1], [0, 0], [2, 3], [1] * 6):
        for dt in ("int8", "int64", "float64", "bool", "U3", "S2", "O", "complex128", "M8[s]", "m8[s]"):
            for sub in (None, "MyArr", "ma"):
                yield dict(lib="np", shape=s, dtype=dt, sub=sub)
        if HAS_TF:
            for dt in ("tf.int32", "tf.float32", "tf.bool", "tf.string"):
                yield dict(lib="tf", shape=s, dtype=dt)
        if HAS_TORCH:
            for dt in ("torch.int32", "torch.float32", "torch.bool"):
                yield dict(lib="torch", shape=s, dtype=dt)
