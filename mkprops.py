#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the text stays reviewable)."""
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=(),hook=None):
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},
      "why_tests_cant":why,"anchors":{"files":files,"state":[dict(name=n,meaning=m,where=w) for n,m,w in state],
      "mechanism":[dict(name=n,where=w) for n,w in mech],"observe_at":list(observe),"hook_needed":hook}})

p("C01","Shape patterns match exactly the shapes they denote",
 "An array or tensor is accepted by a shape annotation made of sizes, -1 wildcards and ellipses exactly when its shape can be split so that every size equals its dimension, every -1 takes one positive dimension, and every ellipsis takes a possibly empty run of nonzero dimensions. A dimension of size 0 is matched only by a literal 0 (or a symbol), an empty shape only by (), Scalar or a lone ellipsis. The check always returns a verdict: no legal pattern makes it crash.",
 ["inputs"],"every legal shape pattern (any length, any mix of sizes, -1 and non-adjacent ellipses) against every shape of any rank",
 "The tests try one random split per array and a dozen hand-written shapes; patterns whose pieces occur more than once in the shape, zero sizes next to ellipses and several ellipses are an unbounded space they do not reach.",
 ["asta/utils.py","asta/_array.py","asta/_tftensor.py","asta/_tensor.py"],
 [("shape matcher","asta/utils.py:shapecheck"),("leftmost piece search","asta/utils.py:is_subtuple"),("split on ellipsis","asta/utils.py:split"),("element comparison","asta/utils.py:check_equal")],
 observe=["isinstance(x, Array[...])","isinstance(x, TFTensor[...])"])
p("C02","Symbolic dimensions impose exactly their equations",
 "When an annotation contains symbols or expressions, a single check accepts a shape exactly when the non-symbolic dimensions match and the system made of one equation 'expression = actual size' per symbolic dimension has a solution. The same symbol stands for the same size everywhere in the annotation, no equation is lost, and positions that were tried and rejected contribute none. Mixing symbols with wildcards or ellipses never crashes and never accepts a shape for which the chosen split leaves the system unsolvable.",
 ["inputs"],"every pattern with any number of symbols/expressions, every shape; solvability itself is whatever the computer-algebra solver answers",
 "One test with three fixed expressions on one fixed shape; mixed symbol/ellipsis patterns are not exercised at all.",
 ["asta/utils.py"],
 [("equation collection","asta/utils.py:check_equal"),("solver front end","asta/utils.py:astasolver"),("shape matcher","asta/utils.py:shapecheck")],
 observe=["isinstance(x, Array[X, X+1])"])
p("C03","One symbol assignment must satisfy a whole typechecked call",
 "A call to a typechecked function is accepted only if a single assignment of the symbols satisfies the annotations of all checked arguments together, and its result is delivered only if that still holds with the return annotation added. Constraints coming from elements of lists, tuples, dicts, sets and unions count like those of direct arguments. Nothing is carried over from one call to the next.",
 ["inputs","histories"],"every function signature, every argument list, every sequence of calls",
 "The decorator tests combine at most two arguments and one symbol; forgetting to merge one container's equations, or keeping some from an earlier call, shows only for particular combinations.",
 ["asta/decorators.py","asta/origins.py","asta/utils.py"],
 [("equation accumulation over arguments and return","asta/decorators.py:typechecked._wrapper"),("union of element equations","asta/origins.py:check_list, check_sequence, check_dict, check_set, check_tuple, check_union, check_asta"),("solver front end","asta/utils.py:astasolver")],
 state=[("equations","constraints collected so far in this call","asta/decorators.py:_wrapper")],
 observe=["TypeError from a decorated call"])
p("C04","Element types are discriminated exactly",
 "An annotation that names a dtype accepts only arrays or tensors with that very dtype; one that names a Python type accepts exactly the documented dtype for that library, where str and bytes accept every width. An annotation without a dtype accepts every dtype, and objects that are not arrays or tensors of that library are never accepted.",
 ["inputs"],"every dtype and Python type accepted in a subscript, every value including non-arrays, all three libraries",
 "Tests sample scalar dtypes with matching shapes; the full product of annotation kind, dtype and library (PyTorch is not installed here) is not covered.",
 ["asta/_array.py","asta/_tftensor.py","asta/_tensor.py","asta/constants.py"],
 [("dtype selection","asta/_array.py:get_dtype, asta/_tftensor.py:get_dtype, asta/_tensor.py:get_dtype"),("instance check","asta/_array.py:__instancecheck__, asta/_tftensor.py:__instancecheck__, asta/_tensor.py:__instancecheck__"),("type tables","asta/constants.py:TF_DTYPE_MAP, TORCH_DTYPE_MAP, NP_UNSIZED_TYPE_KINDS")],
 observe=["isinstance(x, Array[float])"])
p("C05","Attribute constraints are enforced",
 "When an annotation carries a dictionary of attribute constraints, a value is accepted only if it has every named attribute and each one equals the required value; this is so for a direct isinstance check and for a typechecked call alike. An attribute required to equal a symbolic expression adds one equation to the system that must be solvable, whether or not the annotation also constrains the shape.",
 ["inputs"],"every constraint dictionary, every value, with and without dtype and shape",
 "No test uses attribute constraints.",
 ["asta/utils.py","asta/parser.py","asta/origins.py","asta/_array.py"],
 [("attribute comparison","asta/utils.py:attrcheck"),("subscript parsing","asta/parser.py:parse_subscript"),("annotation refresh","asta/origins.py:refresh, check_asta")],
 observe=["isinstance(x, Array[float, {'name': v}])"])
p("C06","Equivalent subscript notations mean the same type; bad ones are refused",
 "The spelled-out, tupled and dtype-prefixed forms of a subscript denote the same type: Array[1, 2] and Array[(1, 2)], Array[T, 1, 2] and Array[T, (1, 2)], Scalar and (). A subscript with a dimension of an unsupported kind, with several scalar markers, or with two consecutive ellipses is refused with TypeError at subscription time, and every supported subscript is accepted. A part that is not given (dtype, attributes) is inherited from the type being subscripted.",
 ["inputs"],"every subscript built from types, dtypes, sizes, wildcards, ellipses, placeholders, symbols, scalars and attribute dictionaries, of any length",
 "Tests compare a handful of literal spellings.",
 ["asta/parser.py","asta/classes.py","asta/_array.py","asta/_tftensor.py"],
 [("parser","asta/parser.py:parse_subscript, verify_dimensions"),("shape normalisation","asta/classes.py:get_shape")],
 observe=["Array[...].shape/dtype/kwattrs","TypeError from subscription"])
p("C07","Types are immutable values with coherent equality and hash",
 "Subscripting returns a new type and never alters the type it was applied to or any other existing type. Two types are equal exactly when they belong to the same library and agree on dtype, shape and attribute constraints, and equal types always have equal hashes, whatever was hashed, compared or subscripted before.",
 ["histories","inputs"],"every sequence of subscriptions, comparisons and hash computations",
 "A hash cached on a class and inherited by later subscripts, or an attribute written to the base class, only shows after particular sequences of operations; tests compare freshly made types only.",
 ["asta/classes.py","asta/_array.py","asta/_tftensor.py","asta/_tensor.py"],
 [("subscription","asta/classes.py:SubscriptableMeta.__getitem__"),("hash","asta/classes.py:SubscriptableMeta.__hash__"),("equality","asta/_array.py:__eq__, asta/_tftensor.py:__eq__, asta/_tensor.py:__eq__")],
 state=[("_hash","cached hash of a type","asta/classes.py")],observe=["==, hash(), List[Array[...]]"])
p("C08","Dimension and shape registers: typed, isolated, last write wins",
 "Reading a name (an identifier other than the register's own attributes) from the dims or shapes register yields the value most recently assigned to that name, or a placeholder that keeps denoting that name if none was assigned. An assignment of anything but an integer (dims) or a tuple of integers (shapes) raises TypeError and changes nothing. Operations on one name never change what another name, or the other register, yields.",
 ["histories"],"every sequence of reads and writes on both registers",
 "The tests assign each name once and never re-assign; there is one rejection test.",
 ["asta/dims.py","asta/shapes.py"],
 [("dims proxy","asta/dims.py:Dimensions.__getattr__, __setattr__"),("shapes proxy","asta/shapes.py:Shapes.__getattr__, __setattr__")],
 state=[("symbol_map","name -> size or unset","asta/dims.py"),("placeholder_map","name -> shape or placeholder","asta/shapes.py")],observe=["dims.X, shapes.S"])
p("C09","A placeholder means its current value, wherever it stands",
 "At check time an annotation containing dims placeholders, expressions of them, or shapes placeholders (alone, unpacked, or concatenated with tuples on either side and with each other) means the same as the annotation with the current values written in place, in order. Concatenation leaves its operands unchanged, so they can be reused. A placeholder with no value is reported as uninitialized instead of being matched.",
 ["inputs","histories"],"every nesting and concatenation of placeholders, tuples and expressions; every history of assignments before the check",
 "Tests use three fixed concatenations with one assignment each.",
 ["asta/substitution.py","asta/placeholder.py","asta/origins.py"],
 [("substitution","asta/substitution.py:substitute"),("concatenation","asta/placeholder.py:Placeholder.__add__"),("annotation refresh","asta/origins.py:refresh")],
 observe=["TypeError from a decorated call"])
p("C10","The decorator's verdict on a value is the isinstance verdict",
 "For an annotation without placeholders (a flat sequence of sizes, -1, ellipses and symbols, or no shape), a typechecked function accepts an argument or result exactly when isinstance(value, annotation) holds, with dtype (including str and bytes of any width), shape and attribute constraints all taken into account. The check neither modifies the value nor the annotation.",
 ["inputs"],"every Array/TFTensor annotation and every value",
 "Tests check a few dtype and shape mismatches through the decorator; parts of an annotation lost when it is rebuilt at call time go unnoticed.",
 ["asta/origins.py"],
 [("annotation refresh","asta/origins.py:refresh"),("check","asta/origins.py:check_asta")],
 observe=["decorated call vs isinstance"])
p("C11","The typechecked wrapper is transparent",
 "With checking off, decorating returns the very same object. With checking on, an accepted call runs the function exactly once with exactly the arguments given and returns the very object it returned, and an exception raised by the function propagates unchanged. In raising mode a call whose arguments do not pass never runs the function, and a result that does not pass is never returned.",
 ["inputs","configurations"],"every function, every argument list, every outcome of the checks and of the function",
 "The tests look at accepted identity functions only; call counts, argument identity, exceptions and the not-run guarantee are not observed.",
 ["asta/decorators.py"],
 [("wrapper","asta/decorators.py:typechecked._wrapper"),("off switch","asta/decorators.py:typechecked")],
 observe=["calls of the wrapped function, returned object"])
p("C12","Every argument is checked against its own parameter's annotation",
 "However a valid call passes its arguments (positionally, by keyword in any order, or left to defaults) each annotated parameter's value is checked against that parameter's annotation, and against no other; an unannotated leading self, cls or mcs is skipped. A call that omits an annotated parameter's value, or a function with other unannotated parameters, is refused with TypeError.",
 ["inputs"],"every signature of named parameters (any number, any defaults, with or without self/cls/mcs) and every valid way to pass the arguments",
 "The tests pass one or two arguments positionally.",
 ["asta/decorators.py"],
 [("argument binding","asta/decorators.py:validate_annotations")],
 observe=["TypeError from a decorated call"])
p("C13","Composite annotations accept exactly the values whose parts all conform",
 "For annotations built from List, Sequence, Set, Dict, Tuple (fixed, variadic, empty), NamedTuple, TypedDict, Union/Optional and None over asta types, nested to any depth, a value is accepted exactly when it is of the container kind and every element, key, value or field conforms to its part (some alternative, for a union). With check-all-sequence-elements off, only the first element of a list or sequence is required to conform. Bare container annotations accept any such container, and no annotation of these forms makes the check crash.",
 ["inputs"],"every composite annotation of any depth, every value",
 "Tests use one list and one tuple; dicts, sets, unions, typed dicts, named tuples and nesting are untested.",
 ["asta/origins.py"],
 [("dispatch","asta/origins.py:check_annotation, ORIGIN_TYPE_CHECKERS"),("container checks","asta/origins.py:check_list, check_sequence, check_set, check_dict, check_tuple, check_union, check_typed_dict, check_none")],
 observe=["TypeError from a decorated call"])
p("C14","Decorating a class decorates exactly its annotated methods",
 "Decorating a class returns that class, with every annotated method, class method and static method defined in it, and every nested class that itself carries annotations, typechecked as if decorated individually and of the same kind as before. Every other attribute is left untouched.",
 ["inputs","programs"],"every class body",
 "No test decorates a class in a run that works here.",
 ["asta/decorators.py"],
 [("class branch","asta/decorators.py:typechecked")],
 observe=["attributes of the class before and after"])
p("C15","Errors raise or print, as configured, and nothing else escapes",
 "With raise-errors on, a value that does not conform makes the check raise TypeError; with it off, the failure is printed, the check goes on, and the function still runs and returns. A conforming value never raises and never prints a failure in either mode, and pass messages are printed exactly when print-passes is on.",
 ["inputs","configurations"],"every annotation and value, both settings of raise-errors and print-passes",
 "The tests run in the default mode only.",
 ["asta/display.py","asta/origins.py","asta/decorators.py"],
 [("reporting","asta/display.py:handle_error, handle_pass, fail_*, pass_*"),("unions","asta/origins.py:check_union"),("container checks","asta/origins.py:check_list, check_sequence, check_set, check_class")],
 observe=["stdout, TypeError"])
p("C16","Non-asta annotations are checked only on request",
 "With check-non-asta-types off, an annotation that is neither an asta type nor one of the supported containers never causes a rejection or a crash, whatever the value. With it on, plain classes, numbers, bytes, Type[...], Literal[...] and callables are enforced: a conforming value passes and a value that is not an instance, not such a class, not one of the literals or not callable is refused. The setting takes effect for each check at the time of the check.",
 ["inputs","configurations","histories"],"every non-asta annotation, every value, every sequence of settings",
 "No test turns the option on or uses such annotations.",
 ["asta/origins.py"],
 [("dispatch","asta/origins.py:check_annotation, NON_ASTA_CHECKERS"),("class/number/literal/callable checks","asta/origins.py:check_class, check_number, check_literal, check_callable, check_io")],
 observe=["TypeError from a decorated call"])
p("C17","Configuration resolves to file settings over defaults, read once",
 "Every option takes its value from the first configuration file found in the documented search order if that file sets it, and its documented default otherwise; yes and no become booleans and anything else is kept as it is. Checking is on exactly when the option 'on' is yes and the ASTA_TYPECHECK variable is unset or 1 (any conflict means off). The configuration is read once and the same object is used from then on.",
 ["configurations","inputs"],"every set of configuration files and contents, every value of the environment variable",
 "The tests only run with the repository's own configuration.",
 ["asta/config.py","asta/decorators.py","asta/warning.py","asta/defaults/astarc"],
 [("merge","asta/config.py:get_ox"),("search","asta/config.py:find_default_config_files, find_astarc"),("environment switch","asta/decorators.py:typechecked, asta/warning.py")],
 state=[("ox","the configuration object","asta/_internal.py")],observe=["options in effect, decorated or not"])
p("C18","A missing backend fails loudly on use and only then",
 "Whether or not PyTorch and TensorFlow are installed, importing asta succeeds and everything that does not need the missing library works. Subscripting or printing the class of a library that is not installed, comparing that class with anything, or instance-checking any object against it raises ImportError, and never answers instead.",
 ["configurations","inputs"],"all four combinations of installed libraries, every operation on the placeholder classes",
 "The tests run in one combination.",
 ["asta/switchboard.py","asta/unusable.py","asta/constants.py"],
 [("switchboard","asta/switchboard.py"),("dummy classes","asta/unusable.py:UnusableMeta"),("dummy modules","asta/constants.py:TorchModule, TFModule")],
 observe=["ImportError"])
p("C19","Scalar accepts exactly scalar values",
 "isinstance(x, Scalar) holds exactly when x is an array or tensor of a known library with an empty shape, or a Python bool, int, float, complex, bytes, str, datetime or timedelta; for an array or tensor only its shape decides.",
 ["inputs"],"every value",
 "No test calls isinstance with Scalar.",
 ["asta/constants.py","asta/scalar.py"],
 [("instance check","asta/constants.py:ScalarMeta.__instancecheck__"),("type lists","asta/constants.py:ARRAY_TYPES, GENERIC_TYPES")],
 observe=["isinstance(x, Scalar)"])
p("C20","The equation solver's verdicts are correct",
 "A system of symbolic dimension equations is reported solvable exactly when an assignment of sizes to the symbols satisfies it.",
 ["inputs"],"every system of equations",
 "Tests solve a handful of linear systems.",
 ["asta/utils.py"],[("solver","sympy.solvers.solve, called from asta/utils.py:astasolver")],observe=["isinstance with symbols"])
p("C21","Concurrent typechecked calls do not disturb each other",
 "The verdict on a typechecked call made while other threads make typechecked calls is the verdict it would have had alone, as long as no register or option is being changed.",
 ["schedules"],"every interleaving of calls in several threads",
 "Tests are single-threaded.",
 ["asta/decorators.py","asta/config.py"],[("shared option object","asta/config.py:get_ox"),("header bookkeeping","asta/decorators.py:_wrapper")],observe=["TypeError from a decorated call"])
open("properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
