from oracle import *
import importlib

RULE = ("in each combination of installed libraries: forty ways of using the class of a library (subscripting with every kind of item, comparing, printing, instance "
        "checks), which must all raise ImportError if it is missing and none if it is there; arrays, scalars, registers, containers, symbols and placeholders "
        "checked as in a full installation; every module of the package imported; nontrivial: all")

OPS = ["T[3]", "T[int]", "T[float, 1, 2]", "T[...]", "T[-1]", "T[()]", "T[Scalar]", "T[(1, 2)]", "T[{'a': 1}]", "T[X]", "T[X, ..., 2]", "T[int][3]", "T[None]", "T['a']", "T[dims.Q18]", "T[shapes.Q18]", "T[1.5]", "T[Scalar, Scalar]",
       "T == T", "T != T", "T == Array", "T != Array", "T == 3", "T == None", "None == T", "3 == T", "T != 3", "T == int", "T == O", "O == T", "T == Array[3]",
       "repr(T)", "str(T)", "f'{T}'", "'%s' % T", "'%r' % (T,)", "repr([T])", "print(T)", "format(T)", "'{}'.format(T)",
       "isinstance(3, T)", "isinstance(None, T)", "isinstance(np.zeros(3), T)", "isinstance('a', T)", "isinstance(T, T)", "isinstance([], (T, T))", "isinstance(object(), T)", "isinstance(Array, T)", "isinstance((), T)"]
PRESENT_OK = {"T['a']", "T[1.5]", "T[Scalar, Scalar]"}     # refused with TypeError when installed


class OO:
    __hash__ = None

    def __eq__(self, o):
        return NotImplemented


WORK = [
    ("isinstance(np.zeros((2, 3)), Array[2, 3])", True), ("isinstance(np.zeros((2, 3)), Array[2, 4])", False), ("isinstance(np.zeros((2, 3)), Array[float, X, X + 1])", True), ("isinstance(np.zeros((2, 3)), Array[int, ...])", False),
    ("isinstance(3, Array)", False), ("isinstance('a', Array)", False), ("isinstance(np.array('a'), Array[str, ()])", True), ("isinstance(np.array(['a', 'bc']), Array[str, 2])", True), ("isinstance(3, Scalar)", True), ("isinstance(np.zeros(()), Scalar)", True), ("isinstance(np.zeros(1), Scalar)", False), ("isinstance([], Scalar)", False),
    ("Array[3] == Array[3]", True), ("Array[3] == Array[4]", False), ("hash(Array[int, 3]) == hash(Array[int, 3])", True), ("Array[1, 2] == Array[(1, 2)]", True), ("repr(Array[int, 3]).startswith('<asta.Array')", True), ("isinstance(np.zeros(3), Array[{'ndim': 1}])", True), ("isinstance(np.zeros(3), Array[{'ndim': 2}])", False),
    ("isinstance(np.zeros(2), Array[-1])", True), ("isinstance(np.zeros(0), Array[-1])", False), ("isinstance(np.zeros((1, 2, 3)), Array[..., 3])", True),
]
CALLS = [("Array[3]", "np.zeros(3)", True), ("Array[3]", "np.zeros(4)", False), ("Array[3]", "3", False), ("Array[3]", "None", False), ("Array[3]", "[1, 2, 3]", False), ("Array", "'abc'", False), ("List[Array[X]]", "[np.zeros(2), np.zeros(2)]", True), ("List[Array[X]]", "[np.zeros(2), np.zeros(3)]", False),
         ("Optional[Array[2]]", "None", True), ("Optional[Array[2]]", "np.zeros(2)", True), ("Optional[Array[2]]", "3", False), ("Dict[str, Array[2]]", "{'a': np.zeros(2)}", True), ("Dict[str, Array[2]]", "{'a': 3}", False), ("Tuple[Array[2], int]", "(np.zeros(2), 1)", True), ("Set[int]", "{1}", True), ("int", "3", True), ("str", "3", True), ("None", "None", True), ("None", "3", False),
         ("Array[dims.W18]", "np.zeros(5)", True), ("Array[dims.W18 + 1]", "np.zeros(5)", False), ("Array[shapes.W18]", "np.zeros((4, 5))", True), ("Array[shapes.W18 + (1,)]", "np.zeros((4, 5))", False), ("Array[float, {'ndim': 1}]", "np.zeros(2)", True), ("Array[float, {'ndim': 1}]", "np.zeros((2, 2))", False), ("Array[str]", "np.array(['abc'])", True), ("Array[float, ...]", "np.zeros((1, 0))", False)]
MODS = ["asta", "asta.array", "asta.scalar", "asta.decorators", "asta.switchboard", "asta.dims", "asta.shapes", "asta.symbols", "asta.constants", "asta.utils", "asta.origins", "asta.display", "asta.parser", "asta.classes", "asta.unusable", "asta.config"]


def run(c):
    for n, has in (("Tensor", HAS_TORCH), ("TFTensor", HAS_TF)):
        getattr(asta, n)
    if "mod" in c:
        with quiet():
            importlib.import_module(c["mod"])
        return
    if "work" in c:
        got = ev(c["work"])
        if got is not c["want"]:
            return f"{c['work']} is {got!r}"
        return
    if "call" in c:
        dims.W18, shapes.W18 = 5, (4, 5)
        dims.Q18, shapes.Q18
        ann, v = ev(c["call"][0], List=List, Dict=Dict, Optional=Optional, Tuple=Tuple, Set=Set), ev(c["call"][1])
        options(raise_errors=c.get("raise", True), print_passes=c.get("passes", True))
        store = dict(calls=[], ret=v)
        f = typechecked(mkfun([("a", ann, False, None, "pos")], NOANN, store)) if not c["ret"] else typechecked(mkfun([], ann, store))
        with quiet() as buf:
            try:
                r = f(v) if not c["ret"] else f()
                got = True
            except TypeError:
                got = False
        if not c.get("raise", True):
            if not got or r is not v or ("FAILED" in buf.getvalue()) == c["want"]:
                return f"{c['call']}: with errors off: {got} {buf.getvalue()[-100:]}"
        elif got is not c["want"]:
            return f"{c['call']}: accepted={got}"
        return
    T = getattr(asta, c["cls"])
    has = {"Tensor": HAS_TORCH, "TFTensor": HAS_TF}[c["cls"]]
    dims.Q18, shapes.Q18
    try:
        r = ev(c["op"], T=T, O=OO())
        out = None
    except BaseException as e:
        out = e
    if not has:
        if not isinstance(out, ImportError):
            return f"{c['cls']} is not installed, but {c['op']} gives {out!r}" if out else f"{c['cls']} is not installed, but {c['op']} answers {r!r:.60}"
    elif c["op"] in PRESENT_OK:
        if not isinstance(out, TypeError):
            return f"{c['op']} gives {out!r}"
    elif out is not None:
        return f"{c['cls']} is installed, but {c['op']} raises {out!r:.200}"


def cases(tier, rng):
    for m in MODS + (["asta.tftensor"] if HAS_TF else []) + (["asta.tensor"] if HAS_TORCH else []):
        yield dict(mod=m)
    for rep in range(2):
        for cls in ("Tensor", "TFTensor"):
            for o in OPS:
                yield dict(cls=cls, op=o, rep=rep)
        for w, want in WORK:
            yield dict(work=w, want=want, rep=rep)
        for a, v, want in CALLS:
            for ret in (False, True):
                for r in (True, False):
                    for p in (True, False):
                        yield {"call": [a, v], "want": want, "ret": ret, "rep": rep, "raise": r, "passes": p}
    if HAS_TF:
        for e, want in [("isinstance(tf.zeros((2, 3)), TFTensor[2, 3])", True), ("isinstance(tf.zeros((2, 3)), TFTensor[3, 3])", False), ("isinstance(np.zeros(3), TFTensor)", False), ("isinstance(tf.zeros(3), Array)", False), ("TFTensor[3] == Array[3]", False), ("TFTensor[3] == TFTensor[3]", True), ("isinstance(tf.zeros(()), Scalar)", True), ("isinstance(tf.zeros(2), Scalar)", False)]:
            yield dict(work=e, want=want)
        for a, v, want in [("TFTensor[2]", "tf.zeros(2)", True), ("TFTensor[2]", "tf.zeros(3)", False), ("TFTensor[2]", "np.zeros(2)", False), ("Array[2]", "tf.zeros(2)", False), ("TFTensor[int]", "tf.zeros(2)", False)]:
            for ret in (False, True):
                yield {"call": [a, v], "want": want, "ret": ret}
    if HAS_TORCH:
        for e, want in [("isinstance(torch.Tensor((2, 3)), Tensor[2, 3])", True), ("isinstance(torch.Tensor((2, 3)), Tensor[3, 3])", False), ("isinstance(np.zeros(3), Tensor)", False), ("isinstance(torch.Tensor((3,)), Array)", False), ("Tensor[3] == Array[3]", False), ("Tensor[3] == Tensor[3]", True), ("isinstance(torch.Tensor(()), Scalar)", True)]:
            yield dict(work=e, want=want)
        for a, v, want in [("Tensor[2]", "torch.Tensor((2,))", True), ("Tensor[2]", "torch.Tensor((3,))", False), ("Tensor[2]", "np.zeros(2)", False), ("Array[2]", "torch.Tensor((2,))", False), ("Tensor[int]", "torch.Tensor((2,))", False)]:
            for ret in (False, True):
                yield {"call": [a, v], "want": want, "ret": ret}
