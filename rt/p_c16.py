from oracle import *
import abc, enum, datetime, collections.abc, fractions, dataclasses

RULE = ("every kind of non-asta annotation from a list of about ninety, with about eighty values, the option off: accepted always; with a table of conforming and "
        "non-conforming values, the option on: enforced; toggled between the checks of one decorated function, alone and inside containers; "
        "nontrivial: the option is on or toggled")


class User:
    pass


class Sub(User):
    pass


class Abs(abc.ABC):
    @abc.abstractmethod
    def f(self):
        ...


class Impl(Abs):
    def f(self):
        return 1


class Color(enum.Enum):
    RED = 1


class IColor(enum.IntEnum):
    RED = 1


T_ = typing.TypeVar("T_")
TB = typing.TypeVar("TB", bound=int)
TC = typing.TypeVar("TC", int, str)


class Gen(typing.Generic[T_]):
    pass


class Proto(typing.Protocol):
    def f(self) -> int:
        ...


@typing.runtime_checkable
class RProto(typing.Protocol):
    def f(self) -> int:
        ...


@dataclasses.dataclass
class Data:
    a: int = 1


class Caller:
    def __call__(self, x):
        return x


class Odd:
    """Awkward under attribute access and comparison."""

    def __eq__(self, o):
        raise ValueError("no comparison")
    __hash__ = None

    def __bool__(self):
        raise ValueError("no truth value")

    def __len__(self):
        raise ValueError("no length")


class Meta(type):
    pass


class WithMeta(metaclass=Meta):
    pass


NewT = typing.NewType("NewT", int)
LOC = dict(typing=typing, collections=collections, datetime=datetime, fractions=fractions, enum=enum, User=User, Sub=Sub, Abs=Abs, Impl=Impl, Color=Color, IColor=IColor, T_=T_, TB=TB, TC=TC, Gen=Gen, Proto=Proto, RProto=RProto,
           Data=Data, Caller=Caller, Odd=Odd, NewT=NewT, WithMeta=WithMeta, Meta=Meta, io=io, List=List, Dict=Dict, Set=Set, Tuple=Tuple, Optional=Optional, Union=Union, os=os, AbstractSet=AbstractSet)

OFF = ["int", "float", "complex", "str", "bytes", "bytearray", "bool", "object", "type", "User", "Sub", "Abs", "Color", "IColor", "Data", "WithMeta", "Meta", "Gen", "Gen[int]", "Gen[T_]", "Proto", "RProto", "T_", "TB", "TC", "NewT", "typing.Any", "typing.Callable",
       "typing.Callable[[int], int]", "typing.Callable[..., int]", "typing.Callable[[], None]", "typing.Type", "typing.Type[int]", "typing.Type[typing.Any]", "typing.Type[User]", "typing.Literal[1]", "typing.Literal['a', 2]", "typing.Iterable", "typing.Iterable[int]",
       "typing.Iterator[int]", "typing.Generator[int, None, None]", "typing.Mapping", "typing.Mapping[str, int]", "typing.MutableMapping[str, int]", "typing.FrozenSet", "typing.FrozenSet[int]", "typing.Deque[int]", "typing.DefaultDict[str, int]", "typing.OrderedDict[str, int]",
       "typing.Counter[str]", "typing.ChainMap[str, int]", "typing.Collection[int]", "typing.Container[int]", "typing.Hashable", "typing.Sized", "typing.Reversible[int]", "typing.MutableSequence[int]", "typing.ByteString", "typing.Awaitable[int]", "typing.Coroutine[int, int, int]",
       "typing.AsyncIterator[int]", "typing.ContextManager[int]", "typing.IO", "typing.IO[str]", "typing.TextIO", "typing.BinaryIO", "typing.Pattern", "typing.Pattern[str]", "typing.Match[str]", "typing.Text", "typing.AnyStr", "typing.SupportsInt", "typing.SupportsFloat",
       "typing.NoReturn", "typing.Annotated[int, 'x']", "typing.Final[int]", "typing.ClassVar[int]", "datetime.datetime", "fractions.Fraction", "np.ndarray", "np.float64", "np.integer", "np.dtype('int8')", "collections.abc.Callable", "collections.abc.Iterable", "collections.abc.Mapping",
       "collections.deque", "collections.Counter", "frozenset", "range", "slice", "memoryview", "list", "dict", "set", "int | str", "list[int] | None", "3", "'int'", "...", "NotImplemented", "Caller", "Odd", "BaseException", "enum.Enum", "property", "collections.OrderedDict", "io.StringIO",
       "type[int]", "frozenset[int]", "collections.deque[int]", "collections.abc.Callable[[int], int]", "X", "np.zeros", "lambda: 1", "()", "[]", "{}"]
SKIP_OFF = {"list": "(list)", "dict": "", "set": ""}

VALS = ["None", "0", "1", "True", "2.5", "1j", "'a'", "b'a'", "bytearray(b'a')", "[]", "[1]", "['a']", "()", "(1,)", "{}", "{'a': 1}", "set()", "{1}", "frozenset()", "range(3)", "object()", "User()", "Sub()", "User", "Sub", "int", "bool", "str", "type", "Impl()", "Impl", "Abs",
        "Color.RED", "IColor.RED", "Color", "Data()", "Caller()", "Caller", "Odd()", "Odd", "len", "(lambda: 1)", "(lambda x: x)", "(lambda x, y: x)", "(lambda *a: a)", "(lambda x, y=1: x)", "(lambda *, k: k)", "(lambda *, k=1: k)", "np.zeros(2)", "np.float64(1)", "np.int64(1)", "np.zeros", "np.ndarray",
        "np.dtype('int8')", "datetime.datetime(2020, 1, 1)", "datetime.date(2020, 1, 1)", "fractions.Fraction(1, 2)", "io.StringIO()", "io.BytesIO()", "iter([])", "(i for i in ())", "collections.deque()", "collections.Counter()", "collections.OrderedDict()", "Gen()", "Gen", "Gen[int]", "typing.Any",
        "typing.List[int]", "T_", "WithMeta()", "WithMeta", "Exception()", "ValueError", "slice(1)", "memoryview(b'a')", "NotImplemented", "...", "X", "sympy.Integer(1)", "Array", "Array[3]", "typing", "print", "__import__('re').compile('a')"]

# annotation: (conforming, non-conforming)
ON = {
    "int": ("0 True -3 IColor.RED 10**30", "2.5 'a' None np.int64(1) int [] 1j np.zeros(()) Odd()"),
    "float": ("2.5 np.float64(1) float('nan')", "'a' 1 None 1j [] float True"),
    "complex": ("1j np.complex128(1j)", "'a' 2.5 1 None complex"),
    "str": ("'a' '' np.str_('x')", "b'a' 1 None str ['a']"),
    "bytes": ("b'a' b'' bytearray(b'x')", "'a' 1 None bytes [1]"),
    "bool": ("True False", "1 0 None 'a' np.bool_(True)"),
    "object": ("None 1 int Odd()", ""),
    "list": ("[] [1]", "() None {} list 1"), "dict": ("{} {1:2} collections.OrderedDict()", "[] None dict"), "set": ("set() {1}", "[] None frozenset() {}"),
    "User": ("User() Sub()", "Impl() None User 1 object()"), "Sub": ("Sub()", "User() Sub None"), "Abs": ("Impl()", "User() Impl None"), "Color": ("Color.RED", "1 IColor.RED None Color"), "Data": ("Data()", "1 Data"), "Gen": ("Gen()", "1 Gen"),
    "np.ndarray": ("np.zeros(2)", "[1] 1 np.ndarray"), "np.float64": ("np.float64(1)", "1.0 1"), "datetime.datetime": ("datetime.datetime(2020,1,1)", "datetime.date(2020,1,1) 1"), "fractions.Fraction": ("fractions.Fraction(1,2)", "1 0.5"),
    "type": ("int User type Meta", "1 None 'a' User()"), "typing.Type": ("int User type", "1 None 'a' User()"), "typing.Type[typing.Any]": ("int User", "1 None"), "typing.Type[int]": ("int bool IColor", "str 1 None User type"), "typing.Type[User]": ("User Sub", "int User() None type"), "typing.Type[T_]": ("int User type", "1 None User()"), "typing.Type[List[int]]": ("list int", "1 None []"), "typing.Type[Union[int,str]]": ("int bool str", "float 1 'a' None User"),
    "type[int]": ("int bool", "str 1 None"),
    "typing.Literal[1, 'a']": ("1 'a'", "2 'b' None 2.5 [1] {} np.array([1,2]) np.array([1]) np.zeros((0,)) np.ones(1) Odd()"), "typing.Literal['x']": ("'x'", "'y' 1 None () np.array(['x','y']) Odd()"), "typing.Literal[None, 3]": ("None 3", "4 'None'"),
    "typing.Callable": ("len User Caller() print", "1 None 'a' [] User()"), "typing.Callable[..., int]": ("len User Caller()", "1 None 'a' Sub()"), "typing.Callable[[int], int]": ("(lambda_x:_x) (lambda_*a:_a) (lambda_x,y=1:_x) (lambda_x=1:_x) (lambda_x,*,k=np.zeros(3):_x) (lambda_x,y=np.zeros(2):_x) Caller()", "1 None 'a' User()"),
    "typing.Callable[[], None]": ("(lambda:_1) (lambda_*a:_a) (lambda_x=1:_x)", "1 None"), "collections.abc.Callable": ("len User", "1 None"), "collections.abc.Callable[[int], int]": ("(lambda_x:_x)", "1 None"),
    "typing.Any": ("1 None int Odd()", ""),
}
WRAP = {"": ("{}", "{}"), "List": ("List[{}]", "[{}]"), "Tuple": ("Tuple[{}, int]", "({}, 1)"), "TupleV": ("Tuple[{}, ...]", "({}, {})"), "Dict": ("Dict[str, {}]", "{{'k': {}}}"), "Opt": ("Union[{}, Array[5]]", "{}"), "Seq": ("typing.Sequence[{}]", "({},)")}


def nontrivial(c):
    return any(c["on"])


def run(c):
    g = lambda t: ev(t.replace("_", " ") if t.startswith("(lambda_") else t, **LOC)
    try:
        ann = g(c["ann"])
    except TypeError:
        raise Skip()
    x = g(c["val"])
    store = dict(calls=[], ret=x)
    if c["ret"]:
        f0 = typechecked(mkfun([], ann, store))
        f = lambda: f0()
    else:
        f0 = typechecked(mkfun([("a", ann, False, None, "pos")], NOANN, store))
        f = lambda: f0(x)
    for i, on in enumerate(c["on"]):
        options(check_non_asta_types=on)
        want = c["conf"] if on else "yes"
        if want is None:
            continue
        try:
            r = f()
            out = "yes"
            if r is not x:
                return "another object"
        except TypeError as e:
            out, err = "no", str(e)
        if out != want:
            return f"check {i + 1} ({c['on']}): {c['ann']} on {c['val']}: accepted={out}, expected {want}" + ("" if out == "yes" else " " + err[:200])


def cases(tier, rng):
    deep = tier == "thorough"
    for a in OFF:
        if a in SKIP_OFF:
            vs = ["[]", "{}", "set()", "1", "None", "'a'"]
        else:
            vs = VALS if deep or MAIN else rng.sample(VALS, 20)
        for v in vs:
            yield dict(ann=a, val=v, on=[False], conf=None, ret=rng.random() < 0.2)
    for a, (good, bad) in ON.items():
        for vs, conf in ((good, "yes"), (bad, "no")):
            for v in vs.split():
                for w, (wa, wv) in WRAP.items():
                    if w == "Opt" and (a in ("object", "typing.Any") or a == "bytes"):
                        continue
                    vv = v.replace("_", " ") if v.startswith("(lambda_") else v
                    for seq in ([True], [True, False, True], [False, True, False, True]):
                        yield dict(ann=wa.format(a), val=wv.format(vv, vv), on=seq, conf=conf, ret=rng.random() < 0.3)
