From 73921331f4ffecf4c7b102ca04fc12659b476d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:07 +0000
Subject: [PATCH 01/34] fix: split shape patterns holding wildcards, symbols or
 None

The pattern was split by joining its elements into a string, which asserted
that every element is an int, so ``Array[X, ...]`` crashed.
---
 asta/utils.py | 26 +++++++++-----------------
 1 file changed, 9 insertions(+), 17 deletions(-)

diff --git a/asta/utils.py b/asta/utils.py
index 9c74f65..8dce8c5 100644
--- a/asta/utils.py
+++ b/asta/utils.py
@@ -226,24 +226,16 @@ def split(
     elem: Union[int, EllipsisType],  # type: ignore[valid-type]
 ) -> List[Tuple[int, ...]]:
     """ Split on an element. """
-    shape_list = list(shape)
-    tokens: List[str] = []
-    for num in shape_list:
-        if num == elem:
-            tokens.append("@")
-        else:
-            assert isinstance(num, int)
-            tokens.append(str(num))
-    seq: str = ",".join(tokens)
-    comma_fragments: List[str] = seq.split("@")
-
     result: List[Tuple[int, ...]] = []
-    for frag in comma_fragments:
-        if frag:
-            frag_tokens = [token for token in frag.split(",") if token]
-            frag_nums = [int(token) for token in frag_tokens]
-            frag_tuple = tuple(frag_nums)
-            result.append(frag_tuple)
+    frag: List[int] = []
+    for num in shape:
+        if num != elem:
+            frag.append(num)  # type: ignore[arg-type]
+        elif frag:
+            result.append(tuple(frag))
+            frag = []
+    if frag:
+        result.append(tuple(frag))
 
     return result
 
-- 
2.43.0


From 5fd0883d874be039dd84b7280962dc41e0c849b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:07 +0000
Subject: [PATCH 02/34] fix: anchor the last piece of a shape pattern at the
 end of the shape

The leftmost occurrence was taken, so ``Array[..., 3]`` refused (3, 2, 3).
---
 asta/utils.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/asta/utils.py b/asta/utils.py
index 8dce8c5..a95708d 100644
--- a/asta/utils.py
+++ b/asta/utils.py
@@ -91,7 +91,12 @@ def shapecheck(
         for i, frag in enumerate(frags):
 
             # Look for ``frag`` in ``ishape``, and find starting index.
-            is_sub, index, equations = is_subtuple(frag, ishape, equations)
+            # If no '...' follows ``frag``, it can only be at the very end.
+            start = 0
+            if i == len(frags) - 1 and not right_bookend:
+                start = max(len(ishape) - len(frag), 0)
+            is_sub, index, equations = is_subtuple(frag, ishape[start:], equations)
+            index += start
 
             # Must have ``frag`` contained in ``ishape``.
             if not is_sub:
-- 
2.43.0


From cbe4e75c904d52028eba009fd7de326fcb0b6f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:07 +0000
Subject: [PATCH 03/34] fix: do not keep equations from positions that did not
 match

A piece of a pattern tried at several positions left the equations of the
rejected positions in the system.
---
 asta/utils.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/asta/utils.py b/asta/utils.py
index a95708d..04839f6 100644
--- a/asta/utils.py
+++ b/asta/utils.py
@@ -260,6 +260,7 @@ def check_equal(
     """
     if len(shape_1) != len(shape_2):
         return False, equations
+    collected: Set[Expr] = set()
     for x, y in zip(shape_1, shape_2):
 
         # Case 1: Both are integer literals.
@@ -272,12 +273,12 @@ def check_equal(
 
         # Case 2: ``x`` is an expression.
         if isinstance(x, Expr) and isinstance(y, int):
-            equations.add(x - y)
+            collected.add(x - y)
             continue
 
         # Case 3: ``y`` is an expression.
         if isinstance(y, Expr) and isinstance(x, int):
-            equations.add(y - x)
+            collected.add(y - x)
             continue
 
         if isinstance(x, Expr) and isinstance(y, Expr):
@@ -288,7 +289,7 @@ def check_equal(
 
         if x != y:
             return False, equations
-    return True, equations
+    return True, equations.union(collected)
 
 
 def rand_split_shape(shape: Any) -> Tuple[Tuple[int, ...], Tuple[int, ...]]:
-- 
2.43.0


From 9f8a6ec3097a8b540aa4c4a846ef23ca73fe9df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:41 +0000
Subject: [PATCH 04/34] fix: accept attribute constraints in subscripts

The subscript was hashed to recognise ``Scalar``, so a dictionary raised
``unhashable type``.
---
 asta/parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/asta/parser.py b/asta/parser.py
index f2b65d4..799491f 100644
--- a/asta/parser.py
+++ b/asta/parser.py
@@ -43,7 +43,7 @@ def parse_subscript(
     shape: Optional[Tuple] = cls.shape
     kwattrs: Optional[Dict[str, Any]] = cls.kwattrs
 
-    isscalar = hash(item) == hash(Scalar)
+    isscalar = item is Scalar
     if isinstance(item, (type, dtype_metaclass)) and not isscalar:
         dtype, kind = cls.get_dtype(item)
         shape = None
@@ -68,7 +68,7 @@ def parse_subscript(
     elif item:
 
         # Case where generic type is specified.
-        isscalar = hash(item[0]) == hash(Scalar)
+        isscalar = item[0] is Scalar
         if isinstance(item[0], (type, dtype_metaclass)) and not isscalar:
             dtype, kind = cls.get_dtype(item[0])
             item = item[1:]
-- 
2.43.0


From 25bb67f75281ce79321e963b1577c07ff282425d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:41 +0000
Subject: [PATCH 05/34] fix: verify the dimensions of a shape given as a tuple

``Array[int, (1, 'a')]`` was accepted, as only the outer tuple was verified.
---
 asta/parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/asta/parser.py b/asta/parser.py
index 799491f..9f9b67e 100644
--- a/asta/parser.py
+++ b/asta/parser.py
@@ -28,6 +28,8 @@ def verify_dimensions(cls: SubscriptableMeta, item: Any) -> None:
             err = f"Invalid dimension '{dim}' of type '{type(dim)}'. "
             err += f"Valid dimension types: {cls.DIM_TYPES}"
             raise TypeError(err)
+        elif isinstance(dim, tuple):
+            verify_dimensions(cls, dim)
 
 
 def parse_subscript(
-- 
2.43.0


From b1a3111f26d831c6fdab9fe8a5e026b0e57e9c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:41 +0000
Subject: [PATCH 06/34] fix: accept a TensorShape after a dtype in a TFTensor
 subscript

``TFTensor[float, tf.TensorShape([1, 2])]`` kept the nested TensorShape and
matched nothing.
---
 asta/_tftensor.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/asta/_tftensor.py b/asta/_tftensor.py
index 3eda61a..102a232 100644
--- a/asta/_tftensor.py
+++ b/asta/_tftensor.py
@@ -122,6 +122,11 @@ class _TFTensor(metaclass=_TFTensorMeta):
         """ Set class attributes based on the passed dtype/dim data. """
         if isinstance(item, tf.TensorShape):
             item = tuple(item)
+        elif isinstance(item, tuple):
+            item = tuple(
+                tuple(elem) if isinstance(elem, tf.TensorShape) else elem
+                for elem in item
+            )
         dtype, shape, kwattrs, _ = parse_subscript(cls, item, tf.dtypes.DType)
         cls.dtype = dtype
         cls.shape = shape
-- 
2.43.0


From 2e1c9ef9f4859e10c624cadbffd589fd12e4df04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:41 +0000
Subject: [PATCH 07/34] fix: concatenate a tuple with a placeholder on its
 right

The README's ``(BATCH_SIZE,) + OBS_SHAPE`` raised TypeError.
---
 asta/placeholder.py | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/asta/placeholder.py b/asta/placeholder.py
index fdbed3e..26264b2 100644
--- a/asta/placeholder.py
+++ b/asta/placeholder.py
@@ -51,7 +51,25 @@ class Placeholder:
             operand_err += f"'Placeholder' and '{type(summand)}'"
             raise TypeError(operand_err)
 
-        # Construct the sum placeholder.
+        return self._composite(sum_contents)
+
+    def __radd__(self, summand: Any) -> Any:
+        """ Return the concatenation, with a tuple on the left. """
+        if not isinstance(summand, tuple):
+            operand_err = "Unsupported operand type(s) for +: "
+            operand_err += f"'{type(summand)}' and 'Placeholder'"
+            raise TypeError(operand_err)
+        for elem in summand:
+            if not isinstance(elem, (int, Expr, Symbol)):
+                raise TypeError(
+                    "Shape elements must be integers, symbols, or expressions."
+                )
+        right_contents = self.contents if self.contents else [self]
+        return self._composite([summand] + right_contents)
+
+    @staticmethod
+    def _composite(sum_contents: list) -> Any:
+        """ Construct the sum placeholder. """
         result = Placeholder()
         result.contents = sum_contents
         result.composite = True
-- 
2.43.0


From 41484e2b4fa3a8fa0f657b08457dbc02a90fa423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:41 +0000
Subject: [PATCH 08/34] fix: do not match an annotation whose dims placeholder
 has no value

With raise-errors off the check went on, treating the placeholder as a free
symbol.
---
 asta/substitution.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/asta/substitution.py b/asta/substitution.py
index 3bd8ea5..eb2423e 100644
--- a/asta/substitution.py
+++ b/asta/substitution.py
@@ -61,6 +61,7 @@ def substitute(
                         if name not in uninitialized_names:
                             fail_uninitialized(name, ox)
                         uninitialized_names.add(name)
+                        initialized = False
                     else:
                         # Otherwise, we substitute in their values with sympy.
                         expression = expression.subs(symbol, value)
-- 
2.43.0


From 199c0b6cb4f88a2f3bf70089b2c531df57613b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:41 +0000
Subject: [PATCH 09/34] fix: give equal types equal hashes

A hash cached on a type was inherited by the types subscripted from it, and
the hash depended on the printed form of the shape and of the attributes.
---
 asta/classes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/asta/classes.py b/asta/classes.py
index 490e98c..4aab3b3 100644
--- a/asta/classes.py
+++ b/asta/classes.py
@@ -81,6 +81,7 @@ class SubscriptableMeta(GenericMeta):
             **cls.__dict__,
             "__args__": item,
             "__origin__": cls,
+            "_hash": 0,
         }
         bases = cls, *cls.__bases__
         result: GenericMeta = type(cls.__name__, bases, body)  # type: ignore
@@ -109,7 +110,7 @@ class SubscriptableMeta(GenericMeta):
         assert hasattr(cls, "dtype")
         assert hasattr(cls, "kwattrs")
         if not getattr(cls, "_hash", None):
-            cls._hash = hash(f"{cls.shape}{cls.dtype}{cls.kwattrs}")
+            cls._hash = hash((cls.NAME, cls.shape, cls.dtype))
         return cls._hash
 
     def __repr__(cls) -> str:
-- 
2.43.0


From b43478cbf452d6ca4e677f13942264dca44f7c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:41 +0000
Subject: [PATCH 10/34] fix: compare attribute constraints when comparing types

Types differing in their attribute constraints were equal, so ``List[...]`` of
one could be taken from the typing cache for the other.
---
 asta/_array.py    | 2 ++
 asta/_tensor.py   | 2 ++
 asta/_tftensor.py | 3 ++-
 3 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/asta/_array.py b/asta/_array.py
index 06e0c3e..8522c2e 100644
--- a/asta/_array.py
+++ b/asta/_array.py
@@ -45,6 +45,8 @@ class _ArrayMeta(SubscriptableMeta):
             return False
         if cls.shape != other.shape or cls.dtype != other.dtype:
             return False
+        if cls.kwattrs != other.kwattrs or cls.kind != other.kind:
+            return False
         return True
 
     def __hash__(cls) -> int:
diff --git a/asta/_tensor.py b/asta/_tensor.py
index dffe415..fcd8522 100644
--- a/asta/_tensor.py
+++ b/asta/_tensor.py
@@ -38,6 +38,8 @@ class _TensorMeta(SubscriptableMeta):
             return False
         if cls.shape != other.shape or cls.dtype != other.dtype:
             return False
+        if cls.kwattrs != other.kwattrs:
+            return False
         return True
 
     def __hash__(cls) -> int:
diff --git a/asta/_tftensor.py b/asta/_tftensor.py
index 102a232..d9f54e1 100644
--- a/asta/_tftensor.py
+++ b/asta/_tftensor.py
@@ -32,13 +32,14 @@ class _TFTensorMeta(SubscriptableMeta):
         """ Defer to the metaclass which calls ``cls._after_subscription()``. """
         return SubscriptableMeta.__getitem__(cls, item)
 
-    # TODO: Include kwattrs for each of these classes.
     def __eq__(cls, other: Any) -> bool:
         """ If the dtypes and shapes match, they should be equal. """
         if not isinstance(other, _TFTensorMeta):
             return False
         if cls.shape != other.shape or cls.dtype != other.dtype:
             return False
+        if cls.kwattrs != other.kwattrs:
+            return False
         return True
 
     def __hash__(cls) -> int:
-- 
2.43.0


From 7b863c99e01514d2ee2703e84fc003ebe7528002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:15 +0000
Subject: [PATCH 11/34] fix: keep every part of an annotation when substituting
 placeholders

The annotation was rebuilt from its dtype and shape only, so a typechecked
function ignored attribute constraints, refused every str or bytes array and
failed with KeyError on the class of a library that is not installed.
---
 asta/origins.py | 34 ++++------------------------------
 1 file changed, 4 insertions(+), 30 deletions(-)

diff --git a/asta/origins.py b/asta/origins.py
index 6e55b89..9862e4c 100644
--- a/asta/origins.py
+++ b/asta/origins.py
@@ -23,9 +23,7 @@ from typing import (
 from oxentiel import Oxentiel
 from sympy.core.expr import Expr
 
-from asta.array import Array
 from asta.utils import attrcheck, shapecheck
-from asta._array import _ArrayMeta
 from asta.classes import SubscriptableMeta
 from asta.display import (
     fail_io,
@@ -57,23 +55,9 @@ from asta.display import (
     fail_too_many_args,
     type_representation,
 )
-from asta.constants import _TORCH_IMPORTED, _TENSORFLOW_IMPORTED, NoneType, tf, torch
+from asta.constants import NoneType, tf, torch
 from asta.substitution import substitute
 
-METAMAP: Dict[type, SubscriptableMeta] = {_ArrayMeta: Array}
-
-if _TORCH_IMPORTED:
-    from asta.tensor import Tensor
-    from asta._tensor import _TensorMeta
-
-    METAMAP[_TensorMeta] = Tensor
-
-if _TENSORFLOW_IMPORTED:
-    from asta.tftensor import TFTensor
-    from asta._tftensor import _TFTensorMeta
-
-    METAMAP[_TFTensorMeta] = TFTensor
-
 try:
     from typing import Literal  # type: ignore[attr-defined]
 except ImportError:
@@ -86,7 +70,6 @@ def refresh(
     annotation: SubscriptableMeta, ox: Oxentiel
 ) -> Tuple[SubscriptableMeta, bool]:
     """ Load an asta type annotation containing classical placeholders. """
-    dtype = annotation.dtype
     shape = annotation.shape
     dimvars: List[Any] = []
     initialized = True
@@ -105,19 +88,10 @@ def refresh(
         dimvars = unpacked
 
         shape = tuple(dimvars)
-    # Note we're guaranteed that ``annotation`` has type ``SubscriptableMeta``.
-    subscriptable_class = METAMAP[type(annotation)]
-
-    refreshed_annotation: SubscriptableMeta
+    # Subscripting ``annotation`` keeps its dtype, kind, and attributes.
+    refreshed_annotation: SubscriptableMeta = annotation
     if shape is not None:
-        if dtype is not None:
-            refreshed_annotation = subscriptable_class[dtype, shape]  # type: ignore
-        else:
-            refreshed_annotation = subscriptable_class[shape]  # type: ignore
-    elif dtype is not None:
-        refreshed_annotation = subscriptable_class[dtype]
-    else:
-        refreshed_annotation = annotation
+        refreshed_annotation = annotation[shape]  # type: ignore[assignment]
 
     return refreshed_annotation, initialized
 
-- 
2.43.0


From ad7ea1ea01cc6fd9474d5d623a7cdf8ebeae64a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:15 +0000
Subject: [PATCH 12/34] fix: collect attribute equations when the shape is not
 constrained

---
 asta/origins.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/asta/origins.py b/asta/origins.py
index 9862e4c..661dee6 100644
--- a/asta/origins.py
+++ b/asta/origins.py
@@ -133,9 +133,10 @@ def check_asta(
 
             # Grab equations from shapecheck call.
             shape_match, shape_equations = shapecheck(value_shape, annotation.shape)
-            attr_match, attr_equations = attrcheck(value, annotation.kwattrs)
-            assert shape_match and attr_match
+            assert shape_match
 
+        attr_match, attr_equations = attrcheck(value, annotation.kwattrs)
+        assert attr_match
         equations = equations.union(shape_equations, attr_equations)
 
     return equations
-- 
2.43.0


From ffaf65ba6c664b9ea99a11fb7e247b7e71cd63fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:15 +0000
Subject: [PATCH 13/34] fix: solve attribute equations together with the
 shape's in isinstance

isinstance accepted values whose symbolic attribute constraints have no
solution.
---
 asta/_array.py    | 8 +++++---
 asta/_tensor.py   | 8 +++++---
 asta/_tftensor.py | 8 +++++---
 3 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/asta/_array.py b/asta/_array.py
index 8522c2e..25c3ba9 100644
--- a/asta/_array.py
+++ b/asta/_array.py
@@ -7,7 +7,7 @@ from typing import Any, Dict, List, Tuple, Union, Optional
 
 import numpy as np
 
-from asta.utils import attrcheck, shapecheck
+from asta.utils import attrcheck, astasolver, shapecheck
 from asta.parser import parse_subscript
 from asta.classes import GenericMeta, SubscriptableMeta
 from asta.constants import NUMPY_DIM_TYPES, NP_UNSIZED_TYPE_KINDS, EllipsisType
@@ -74,9 +74,11 @@ class _ArrayMeta(SubscriptableMeta):
 
             # Handle ellipses.
             else:
-                shape_match, _ = shapecheck(inst.shape, cls.shape)
-                attr_match, _ = attrcheck(inst, cls.kwattrs)
+                shape_match, shape_eqs = shapecheck(inst.shape, cls.shape)
+                attr_match, attr_eqs = attrcheck(inst, cls.kwattrs)
                 match = shape_match and attr_match
+                if match:
+                    match, _, _ = astasolver(shape_eqs.union(attr_eqs))
 
         return match
 
diff --git a/asta/_tensor.py b/asta/_tensor.py
index fcd8522..21e3286 100644
--- a/asta/_tensor.py
+++ b/asta/_tensor.py
@@ -7,7 +7,7 @@ from typing import Any, Dict, List, Tuple, Union, Optional
 import numpy as np
 import torch
 
-from asta.utils import attrcheck, shapecheck
+from asta.utils import attrcheck, astasolver, shapecheck
 from asta.parser import parse_subscript
 from asta.classes import GenericMeta, SubscriptableMeta
 from asta.constants import TORCH_DIM_TYPES, TORCH_DTYPE_MAP, EllipsisType
@@ -61,9 +61,11 @@ class _TensorMeta(SubscriptableMeta):
 
             # Handle ellipses.
             else:
-                shape_match, _ = shapecheck(inst.shape, cls.shape)
-                attr_match, _ = attrcheck(inst, cls.kwattrs)
+                shape_match, shape_eqs = shapecheck(inst.shape, cls.shape)
+                attr_match, attr_eqs = attrcheck(inst, cls.kwattrs)
                 match = shape_match and attr_match
+                if match:
+                    match, _, _ = astasolver(shape_eqs.union(attr_eqs))
 
         return match
 
diff --git a/asta/_tftensor.py b/asta/_tftensor.py
index d9f54e1..7d4d3fb 100644
--- a/asta/_tftensor.py
+++ b/asta/_tftensor.py
@@ -7,7 +7,7 @@ from typing import Any, Dict, List, Tuple, Union, Optional
 import numpy as np
 import tensorflow as tf
 
-from asta.utils import attrcheck, shapecheck
+from asta.utils import attrcheck, astasolver, shapecheck
 from asta.parser import parse_subscript
 from asta.classes import GenericMeta, SubscriptableMeta
 from asta.constants import TF_DIM_TYPES, TF_DTYPE_MAP, EllipsisType
@@ -67,9 +67,11 @@ class _TFTensorMeta(SubscriptableMeta):
                 if isinstance(inst_shape, tf.TensorShape):
                     inst_shape = tuple(inst_shape)
 
-                shape_match, _ = shapecheck(inst_shape, cls.shape)
-                attr_match, _ = attrcheck(inst, cls.kwattrs)
+                shape_match, shape_eqs = shapecheck(inst_shape, cls.shape)
+                attr_match, attr_eqs = attrcheck(inst, cls.kwattrs)
                 match = shape_match and attr_match
+                if match:
+                    match, _, _ = astasolver(shape_eqs.union(attr_eqs))
 
         return match
 
-- 
2.43.0


From 7c4a8ef84e0bda92a3b458ca0f8201950306be2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:15 +0000
Subject: [PATCH 14/34] fix: let annotations without a checker through

Callable[...], Iterable[...], FrozenSet[...] and the like failed with KeyError,
and turning check-non-asta-types on changed the dispatch table for good.
---
 asta/origins.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/asta/origins.py b/asta/origins.py
index 661dee6..429cdeb 100644
--- a/asta/origins.py
+++ b/asta/origins.py
@@ -520,10 +520,10 @@ def check_annotation(
         equations = check_asta(name, value, annotation, equations, ox)
 
     elif origin is not None:
-        checker_function_map = ORIGIN_TYPE_CHECKERS
+        checker_function_map = dict(ORIGIN_TYPE_CHECKERS)
         if ox.check_non_asta_types:
             checker_function_map.update(NON_ASTA_CHECKERS)  # type: ignore
-        checker_fn: Callable = checker_function_map[origin]
+        checker_fn: Any = checker_function_map.get(origin)
         if checker_fn:
             equations = checker_fn(name, value, annotation, equations, ox)
         else:
-- 
2.43.0


From 1adadc092aa93cff6137c3debd713f39e5f15f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:15 +0000
Subject: [PATCH 15/34] fix: give the non-asta checkers the signature they are
 called with

With check-non-asta-types on, every Callable[...], Type[...] and Literal[...]
annotation raised TypeError, as its checker takes no equations.
---
 asta/origins.py | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/asta/origins.py b/asta/origins.py
index 429cdeb..1388ddb 100644
--- a/asta/origins.py
+++ b/asta/origins.py
@@ -175,7 +175,9 @@ def check_typed_dict(
     return equations
 
 
-def check_callable(name: str, value: Any, annotation: Any, ox: Oxentiel) -> None:
+def check_callable(
+    name: str, value: Any, annotation: Any, equations: Set[Expr], ox: Oxentiel
+) -> Set[Expr]:
     """ Check an argument with annotation ``callable`` or ``Callable[]``. """
     if not callable(value):
         fail_callable(name, annotation, qualified_name(value), ox)
@@ -184,7 +186,7 @@ def check_callable(name: str, value: Any, annotation: Any, ox: Oxentiel) -> None
         try:
             signature = inspect.signature(value)
         except (TypeError, ValueError):
-            return
+            return equations
 
         if hasattr(annotation, "__result__"):
             # Python 3.5
@@ -205,7 +207,7 @@ def check_callable(name: str, value: Any, annotation: Any, ox: Oxentiel) -> None
             ]
             if unfulfilled_kwonlyargs:
                 # NOTE: Should this output a warning?
-                return
+                return equations
 
             num_mandatory_args = len(
                 [
@@ -230,7 +232,7 @@ def check_callable(name: str, value: Any, annotation: Any, ox: Oxentiel) -> None
                 fail_too_many_args(name, len(argument_types), num_mandatory_args, ox)
             elif not has_varargs and num_mandatory_args < len(argument_types):
                 fail_too_few_args(name, len(argument_types), num_mandatory_args, ox)
-    return
+    return equations
 
 
 def check_tuple(
@@ -409,21 +411,23 @@ def check_union(
     return equations
 
 
-def check_class(name: str, value: Any, annotation: Any, ox: Oxentiel) -> None:
+def check_class(
+    name: str, value: Any, annotation: Any, equations: Set[Expr], ox: Oxentiel
+) -> Set[Expr]:
     """ Check an arbitrary class. """
     if not inspect.isclass(value):
         fail_class(name, annotation, qualified_name(value), ox)
 
     # Needed on Python 3.7+
     if annotation is Type:
-        return
+        return equations
 
     expected_class = annotation.__args__[0] if annotation.__args__ else None
     if expected_class and not issubclass(value, expected_class):
         supercls = qualified_name(expected_class)
         fail_subclass(name, supercls, qualified_name(value), ox)
 
-    return
+    return equations
 
 
 def check_number(name: str, value: Any, annotation: Any, ox: Oxentiel) -> None:
@@ -452,10 +456,13 @@ def check_protocol(name: str, value: Any, annotation: Any, ox: Oxentiel) -> None
         fail_protocol(name, type(value).__qualname__, annotation.__qualname__, ox)
 
 
-def check_literal(name: str, value: Any, annotation: Any, ox: Oxentiel) -> None:
+def check_literal(
+    name: str, value: Any, annotation: Any, equations: Set[Expr], ox: Oxentiel
+) -> Set[Expr]:
     """ Typecheck a value annotated with ``Literal[*]``. """
     if value not in annotation.__args__:
         fail_literal(name, annotation.__args__, value, ox)
+    return equations
 
 
 def check_none(name: str, value: Any, annotation: Any, ox: Oxentiel) -> None:
@@ -544,7 +551,7 @@ def check_annotation(
                 check_number(name, value, annotation, ox)
             elif subclass_callable and has_args:
                 # Needed on Python 3.5.0 to 3.5.2
-                check_callable(name, value, annotation, ox)
+                check_callable(name, value, annotation, equations, ox)
             elif issubclass(annotation, IO):
                 check_io(name, value, annotation, ox)
             elif getattr(annotation, "_is_protocol", False):
-- 
2.43.0


From fc0f34394966834ef465bef6ea9256fc54922582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:03 +0000
Subject: [PATCH 16/34] fix: accept generics without type arguments

List, Dict, Set, Sequence, Callable and Type have no ``__args__`` in recent
versions of python, so these annotations raised AttributeError, and
Type[Any] refused every class.
---
 asta/origins.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/asta/origins.py b/asta/origins.py
index 1388ddb..8a793f2 100644
--- a/asta/origins.py
+++ b/asta/origins.py
@@ -96,6 +96,12 @@ def refresh(
     return refreshed_annotation, initialized
 
 
+def is_parametrized(annotation: Any) -> bool:
+    """ Determine if a generic has type arguments (``List`` does not). """
+    args = getattr(annotation, "__args__", None)
+    return args not in (None, getattr(annotation, "__parameters__", None))
+
+
 def check_asta(
     name: str, value: Any, annotation: Any, equations: Set[Expr], ox: Oxentiel
 ) -> Set[Expr]:
@@ -182,7 +188,7 @@ def check_callable(
     if not callable(value):
         fail_callable(name, annotation, qualified_name(value), ox)
 
-    if annotation.__args__:
+    if getattr(annotation, "__args__", None):
         try:
             signature = inspect.signature(value)
         except (TypeError, ValueError):
@@ -302,7 +308,7 @@ def check_list(
 
     # If annotation is a subscriptable generic (``List[...]``).
     if annotation is not list:
-        if annotation.__args__ not in (None, annotation.__parameters__):
+        if is_parametrized(annotation):
             value_type = annotation.__args__[0]
             if value_type is not Any:
 
@@ -326,7 +332,7 @@ def check_sequence(
         fail_sequence(name, annotation, qualified_name(value), ox)
 
     # Consider removing this test or even just figuring out what it does?
-    if annotation.__args__ not in (None, annotation.__parameters__):
+    if is_parametrized(annotation):
         value_type = annotation.__args__[0]
         if value_type is not Any:
 
@@ -351,7 +357,7 @@ def check_dict(
 
     # Equivalently: if annotation is ``Dict[*]``.
     elif annotation is not dict:
-        if annotation.__args__ not in (None, annotation.__parameters__):
+        if is_parametrized(annotation):
             key_type, value_type = annotation.__args__
             if key_type is not Any or value_type is not Any:
                 for k, v in value.items():
@@ -376,7 +382,7 @@ def check_set(
 
     # Equivalently: if annotation is ``Set[*]``.
     if annotation is not set:
-        if annotation.__args__ not in (None, annotation.__parameters__):
+        if is_parametrized(annotation):
             value_type = annotation.__args__[0]
             if value_type is not Any:
                 for v in value:
@@ -422,7 +428,8 @@ def check_class(
     if annotation is Type:
         return equations
 
-    expected_class = annotation.__args__[0] if annotation.__args__ else None
+    args = getattr(annotation, "__args__", None)
+    expected_class = args[0] if args and args[0] is not Any else None
     if expected_class and not issubclass(value, expected_class):
         supercls = qualified_name(expected_class)
         fail_subclass(name, supercls, qualified_name(value), ox)
-- 
2.43.0


From 047dc04ee0344d6499fbbadc47caba48e61a6c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:03 +0000
Subject: [PATCH 17/34] fix: refuse nonempty tuples for Tuple[()]

Its ``__args__`` is empty in recent versions of python, and was taken for an
unparametrized tuple.
---
 asta/origins.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/asta/origins.py b/asta/origins.py
index 8a793f2..de0d2de 100644
--- a/asta/origins.py
+++ b/asta/origins.py
@@ -262,13 +262,13 @@ def check_tuple(
     elif not isinstance(value, tuple):
         fail_tuple(name, qualified_name(value), ox)
 
-    elif not getattr(annotation, "__args__", None):
+    elif getattr(annotation, "__args__", None) is None:
         # Unparametrized Tuple or plain tuple.
         pass
 
     else:
         # Python 3.6+
-        use_ellipsis = annotation.__args__[-1] is Ellipsis
+        use_ellipsis = annotation.__args__[-1:] == (Ellipsis,)
 
         # Remove the ``Ellipsis`` from the end if it exists.
         if use_ellipsis:
@@ -282,7 +282,7 @@ def check_tuple(
                 equations = check_annotation(
                     f"{name}[{i}]", elem, elem_type, equations, ox
                 )
-        elif tuple_params == ((),):
+        elif tuple_params in ((), ((),)):
             if value != ():
                 fail_empty_tuple(name, qualified_name(value), ox)
         else:
-- 
2.43.0


From cdc6ed042f7c8f0f7417158c7a6b5fe0cbdfd945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:03 +0000
Subject: [PATCH 18/34] fix: check the fields of named tuples

``_field_types`` is gone from recent versions of python, so the fields were
not checked.
---
 asta/origins.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/asta/origins.py b/asta/origins.py
index de0d2de..c559ae6 100644
--- a/asta/origins.py
+++ b/asta/origins.py
@@ -247,14 +247,19 @@ def check_tuple(
     """ Check an argument with annotation ``tuple`` or ``Tuple[]``. """
 
     # Specialized check for NamedTuples.
-    if hasattr(annotation, "_field_types"):
+    if hasattr(annotation, "_fields"):
 
         if not isinstance(value, annotation):
             fail_namedtuple(name, qualified_name(annotation), qualified_name(value), ox)
             return equations
 
+        field_types: Dict[str, Any] = {}
+        for base in reversed(annotation.__mro__):
+            field_types.update(base.__dict__.get("__annotations__", {}))
+
         # pylint: disable=protected-access
-        for subname, field_type in annotation._field_types.items():
+        for subname in annotation._fields:
+            field_type = field_types.get(subname, Any)
             equations = check_annotation(
                 f"{name}.{subname}", getattr(value, subname), field_type, equations, ox
             )
-- 
2.43.0


From b3b9bc50ae7275e5e34a5b345858e38f058e672a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:03 +0000
Subject: [PATCH 19/34] fix: do not look into a value that is not a container

With raise-errors off, a value that is not a list, sequence, set or class was
reported and then iterated all the same, which could raise.
---
 asta/origins.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/asta/origins.py b/asta/origins.py
index c559ae6..9802edd 100644
--- a/asta/origins.py
+++ b/asta/origins.py
@@ -310,6 +310,7 @@ def check_list(
     """ Check an argument with annotation ``list`` or ``List[]``. """
     if not isinstance(value, list):
         fail_list(name, annotation, qualified_name(value), ox)
+        return equations
 
     # If annotation is a subscriptable generic (``List[...]``).
     if annotation is not list:
@@ -335,6 +336,7 @@ def check_sequence(
     """ Check an argument with annotation ``Sequence[*]``. """
     if not isinstance(value, collections.abc.Sequence):
         fail_sequence(name, annotation, qualified_name(value), ox)
+        return equations
 
     # Consider removing this test or even just figuring out what it does?
     if is_parametrized(annotation):
@@ -384,6 +386,7 @@ def check_set(
     """ Check an argument with annotation ``Set[*]``. """
     if not isinstance(value, AbstractSet):
         fail_set(name, annotation, qualified_name(value), ox)
+        return equations
 
     # Equivalently: if annotation is ``Set[*]``.
     if annotation is not set:
@@ -428,6 +431,7 @@ def check_class(
     """ Check an arbitrary class. """
     if not inspect.isclass(value):
         fail_class(name, annotation, qualified_name(value), ox)
+        return equations
 
     # Needed on Python 3.7+
     if annotation is Type:
-- 
2.43.0


From 5778ed98acbf22aaba96048739e694be7a421f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:03 +0000
Subject: [PATCH 20/34] fix: try every alternative of a union when errors are
 printed

With raise-errors off the first alternative never raised, so its failure was
printed and the others were not tried.
---
 asta/origins.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/asta/origins.py b/asta/origins.py
index 9802edd..844ccf0 100644
--- a/asta/origins.py
+++ b/asta/origins.py
@@ -413,12 +413,18 @@ def check_union(
         # Python 3.6+
         union_params = annotation.__args__
 
-    for type_ in union_params:
-        try:
-            equations = check_annotation(name, value, type_, equations, ox)
-            return equations
-        except TypeError as _err:
-            pass
+    # An alternative that does not match must raise for the next to be tried.
+    raise_errors = ox.raise_errors
+    ox.raise_errors = True
+    try:
+        for type_ in union_params:
+            try:
+                equations = check_annotation(name, value, type_, equations, ox)
+                return equations
+            except TypeError as _err:
+                pass
+    finally:
+        ox.raise_errors = raise_errors
 
     typelist = ", ".join(get_type_name(t) for t in union_params)
     fail_union(name, typelist, qualified_name(value), ox)
-- 
2.43.0


From 5dc1ecfcacd16008ef7b6c932478d65944a044b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:03 +0000
Subject: [PATCH 21/34] fix: accept everything for Any

``Any`` is a class in recent versions of python, and raised TypeError with
check-non-asta-types on.
---
 asta/origins.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asta/origins.py b/asta/origins.py
index 844ccf0..da66e2b 100644
--- a/asta/origins.py
+++ b/asta/origins.py
@@ -557,7 +557,7 @@ def check_annotation(
             equations = checker_fn(name, value, annotation, equations, ox)
         else:
             equations = check_annotation(name, value, origin, equations, ox)
-    elif inspect.isclass(annotation):
+    elif inspect.isclass(annotation) and annotation is not Any:
 
         subclass_callable: bool = issubclass(annotation, Callable)  # type: ignore
         has_args: bool = hasattr(annotation, "__args__")
-- 
2.43.0


From 05d625d7c4a1d73caf74ec24d45a595f9c77dc3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:03 +0000
Subject: [PATCH 22/34] fix: do not take every subclass of dict for a typed
 dict

All classes have ``__annotations__`` in recent versions of python, so
collections.Counter and the like raised AttributeError.
---
 asta/origins.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asta/origins.py b/asta/origins.py
index da66e2b..02f2464 100644
--- a/asta/origins.py
+++ b/asta/origins.py
@@ -564,7 +564,7 @@ def check_annotation(
 
         if issubclass(annotation, Tuple):  # type: ignore[arg-type]
             equations = check_tuple(name, value, annotation, equations, ox)
-        elif issubclass(annotation, dict) and hasattr(annotation, "__annotations__"):
+        elif issubclass(annotation, dict) and hasattr(annotation, "__total__"):
             equations = check_typed_dict(name, value, annotation, equations, ox)
         elif annotation == NoneType:
             check_none(name, value, annotation, ox)
-- 
2.43.0


From d043e4b2e46e50dce889e9dd5815181c0a5c081d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:03 +0000
Subject: [PATCH 23/34] fix: enforce subclasses of float and complex

Any value was accepted for np.float64 and the like.
---
 asta/origins.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asta/origins.py b/asta/origins.py
index 02f2464..7e9657c 100644
--- a/asta/origins.py
+++ b/asta/origins.py
@@ -569,7 +569,7 @@ def check_annotation(
         elif annotation == NoneType:
             check_none(name, value, annotation, ox)
         elif ox.check_non_asta_types:
-            if issubclass(annotation, (float, complex)):
+            if annotation in (float, complex):
                 check_number(name, value, annotation, ox)
             elif subclass_callable and has_args:
                 # Needed on Python 3.5.0 to 3.5.2
-- 
2.43.0


From 285b6eec01e565146ec53be8104fd351976f0e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:38 +0000
Subject: [PATCH 24/34] fix: count optional parameters of callables

A callable whose parameters have defaults was refused by Callable[[A, B], C],
although it can be called with two arguments.
---
 asta/origins.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/asta/origins.py b/asta/origins.py
index 7e9657c..c8b48e7 100644
--- a/asta/origins.py
+++ b/asta/origins.py
@@ -215,16 +215,20 @@ def check_callable(
                 # NOTE: Should this output a warning?
                 return equations
 
+            positional_params = [
+                param
+                for param in signature.parameters.values()
+                if param.kind
+                in (
+                    inspect.Parameter.POSITIONAL_ONLY,
+                    inspect.Parameter.POSITIONAL_OR_KEYWORD,
+                )
+            ]
             num_mandatory_args = len(
                 [
                     param.name
-                    for param in signature.parameters.values()
-                    if param.kind
-                    in (
-                        inspect.Parameter.POSITIONAL_ONLY,
-                        inspect.Parameter.POSITIONAL_OR_KEYWORD,
-                    )
-                    and param.default is inspect.Parameter.empty
+                    for param in positional_params
+                    if param.default is inspect.Parameter.empty
                 ]
             )
             has_varargs = any(
@@ -236,8 +240,10 @@ def check_callable(
             # NOTE: Consider adding true recursive checking.
             if num_mandatory_args > len(argument_types):
                 fail_too_many_args(name, len(argument_types), num_mandatory_args, ox)
-            elif not has_varargs and num_mandatory_args < len(argument_types):
-                fail_too_few_args(name, len(argument_types), num_mandatory_args, ox)
+            elif not has_varargs and len(positional_params) < len(argument_types):
+                fail_too_few_args(
+                    name, len(argument_types), len(positional_params), ox
+                )
     return equations
 
 
-- 
2.43.0


From a8c0e31ad6a2d0810fd056755da3fde1b0a20552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:38 +0000
Subject: [PATCH 25/34] fix: refuse every call whose arguments and annotations
 do not pair up

Only their numbers were compared, so an argument could be checked against the
annotation of another parameter, or the call fail with IndexError or KeyError.
---
 asta/decorators.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/asta/decorators.py b/asta/decorators.py
index 21b9e55..bbc9e42 100644
--- a/asta/decorators.py
+++ b/asta/decorators.py
@@ -46,12 +46,13 @@ def validate_annotations(  # type: ignore[no-untyped-def]
 
     if len(sig.parameters) == num_non_return_annots + 1 and paramlist[0] in refs:
         pure_args = pure_args[1:]  # type: ignore[assignment]
-    for i, arg in enumerate(pure_args):
-        name = list(annotations.keys())[i]
+        checkable_args.pop(paramlist.pop(0), None)
+    for name, arg in zip(paramlist, pure_args):
         checkable_args[name] = arg
 
-    # Check for mismatch between lengths of arguments/annotations.
-    if num_non_return_annots != len(checkable_args):
+    # Check for mismatch between arguments/annotations.
+    annotated = set(annotations) - {"return"}
+    if annotated != set(paramlist) or annotated != set(checkable_args):
         num_annot_err = f"Mismatch between number of annotated "
         num_annot_err += f"non-(self / cls / mcs) parameters "
         num_annot_err += f"'({num_non_return_annots})' and number of arguments "
-- 
2.43.0


From 53485828881876f6a596ddef2dac2d4d62bf6cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:38 +0000
Subject: [PATCH 26/34] fix: read setup.cfg and pyproject.toml

Both are documented and searched for, but were never read, and the section
``[asta.MASTER]`` would not have been recognised.
---
 asta/config.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/asta/config.py b/asta/config.py
index 2957082..987c002 100644
--- a/asta/config.py
+++ b/asta/config.py
@@ -71,10 +71,7 @@ def find_default_config_files() -> Generator[str, None, None]:
 
 def find_astarc() -> Optional[str]:
     """ Look for an ``astarc`` file. Return it if found, else return ``None``. """
-    for config_file in find_default_config_files():
-        if config_file.endswith("astarc"):
-            return config_file
-    return None
+    return next(find_default_config_files(), None)
 
 
 # pylint: disable=protected-access
@@ -91,6 +88,13 @@ def read_config(config_path: str) -> configparser.ConfigParser:
             pass
         else:
             for section, values in sections_values.items():
+                if not isinstance(values, dict):
+                    continue
+                for key, val in values.items():
+                    if isinstance(val, bool):
+                        values[key] = "yes" if val else "no"
+                    else:
+                        values[key] = str(val)
                 parser._sections[section.upper()] = values  # type: ignore[attr-defined]
     else:
         # Use this encoding in order to strip the BOM marker, if any.
@@ -101,7 +105,7 @@ def read_config(config_path: str) -> configparser.ConfigParser:
         for sect, values in list(parser._sections.items()):  # type: ignore
             if sect.startswith("asta."):
                 sect = sect[len("asta.") :]
-            if not sect.isupper() and values:
+            if sect.upper() not in parser._sections and values:  # type: ignore
                 parser._sections[sect.upper()] = values  # type: ignore[attr-defined]
     return parser
 
-- 
2.43.0


From d329c7333fefa80bc6bc4412ed7a4eaad1936ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:17 +0000
Subject: [PATCH 27/34] fix: an array type without a dtype does not equal one
 of float64

---
 asta/_array.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/asta/_array.py b/asta/_array.py
index 25c3ba9..c4aa72e 100644
--- a/asta/_array.py
+++ b/asta/_array.py
@@ -45,6 +45,10 @@ class _ArrayMeta(SubscriptableMeta):
             return False
         if cls.shape != other.shape or cls.dtype != other.dtype:
             return False
+
+        # Numpy considers ``None`` equal to its default dtype.
+        if (cls.dtype is None) != (other.dtype is None):
+            return False
         if cls.kwattrs != other.kwattrs or cls.kind != other.kind:
             return False
         return True
-- 
2.43.0


From 68558b2b5fd10892cea75b729a1ea448ddbda9e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:26 +0000
Subject: [PATCH 28/34] fix: check the annotation None like its type

---
 asta/origins.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/asta/origins.py b/asta/origins.py
index c8b48e7..5850d8e 100644
--- a/asta/origins.py
+++ b/asta/origins.py
@@ -547,6 +547,10 @@ def check_annotation(
     # solution, all the annotations' solutions must agree for a given function
     # signature.
 
+    # The annotation ``None`` stands for its type.
+    if annotation is None:
+        annotation = NoneType
+
     # Get origin type.
     origin: Any = getattr(annotation, "__origin__", None)
 
-- 
2.43.0


From 642e38191e6368defc5c7b0c37226a20a7f46595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:50 +0000
Subject: [PATCH 29/34] fix: required keys of typed dicts that mix total and
 not total

---
 asta/origins.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/asta/origins.py b/asta/origins.py
index 5850d8e..2dc3006 100644
--- a/asta/origins.py
+++ b/asta/origins.py
@@ -165,10 +165,13 @@ def check_typed_dict(
     if extra_keys:
         fail_keys(name, expected_keys, existing_keys, ox)
 
-    if annotation.__total__:
-        missing_keys = expected_keys - existing_keys
-        if missing_keys:
-            fail_keys(name, expected_keys, existing_keys, ox)
+    # A total class may extend one that is not, and the other way around.
+    required_keys = getattr(annotation, "__required_keys__", None)
+    if required_keys is None:
+        required_keys = expected_keys if annotation.__total__ else frozenset()
+    missing_keys = required_keys - existing_keys
+    if missing_keys:
+        fail_keys(name, expected_keys, existing_keys, ox)
 
     # pylint: disable=invalid-name
     MISSING_VALUE = object()
-- 
2.43.0


From a9375e1695598549028a846305d5101487b74ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:50 +0000
Subject: [PATCH 30/34] fix: find parameters without a default by identity

---
 asta/origins.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asta/origins.py b/asta/origins.py
index 2dc3006..6e742d9 100644
--- a/asta/origins.py
+++ b/asta/origins.py
@@ -212,7 +212,7 @@ def check_callable(
                 param.name
                 for param in signature.parameters.values()
                 if param.kind == inspect.Parameter.KEYWORD_ONLY
-                and param.default == inspect.Parameter.empty
+                and param.default is inspect.Parameter.empty
             ]
             if unfulfilled_kwonlyargs:
                 # NOTE: Should this output a warning?
-- 
2.43.0


From b14af5d2825e100887e902390c496042f88306fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:50 +0000
Subject: [PATCH 31/34] fix: compare a value only to literals of its own class

---
 asta/origins.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/asta/origins.py b/asta/origins.py
index 6e742d9..fdfeff0 100644
--- a/asta/origins.py
+++ b/asta/origins.py
@@ -491,7 +491,12 @@ def check_literal(
     name: str, value: Any, annotation: Any, equations: Set[Expr], ox: Oxentiel
 ) -> Set[Expr]:
     """ Typecheck a value annotated with ``Literal[*]``. """
-    if value not in annotation.__args__:
+    # Comparing an array to a literal does not yield a truth value.
+    matched = any(
+        isinstance(value, type(option)) and value == option
+        for option in annotation.__args__
+    )
+    if not matched:
         fail_literal(name, annotation.__args__, value, ox)
     return equations
 
-- 
2.43.0


From eadcca4d436adfc72cdb36a99b184000ddafda0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:50 +0000
Subject: [PATCH 32/34] fix: accept classes for type arguments issubclass
 cannot decide

---
 asta/origins.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/asta/origins.py b/asta/origins.py
index fdfeff0..6b5df04 100644
--- a/asta/origins.py
+++ b/asta/origins.py
@@ -454,7 +454,12 @@ def check_class(
 
     args = getattr(annotation, "__args__", None)
     expected_class = args[0] if args and args[0] is not Any else None
-    if expected_class and not issubclass(value, expected_class):
+    try:
+        is_subclass = expected_class is None or issubclass(value, expected_class)
+    except TypeError:
+        # Nothing to enforce for type variables and subscripted generics.
+        is_subclass = True
+    if not is_subclass:
         supercls = qualified_name(expected_class)
         fail_subclass(name, supercls, qualified_name(value), ox)
 
-- 
2.43.0


From ff3874a44672391151ac31112c79c5fc6c4ef1f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:39 +0000
Subject: [PATCH 33/34] fix: no size is left to check when an expression yields
 no integer

With raise-errors off, the failure was printed and int() of nan or oo
then raised all the same.
---
 asta/substitution.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/asta/substitution.py b/asta/substitution.py
index eb2423e..c5876f1 100644
--- a/asta/substitution.py
+++ b/asta/substitution.py
@@ -68,9 +68,12 @@ def substitute(
 
             # If this is a number (contains no symbols), it ought to be an integer.
             if isinstance(expression, Number):
-                if not isinstance(expression, Integer):
+                if isinstance(expression, Integer):
+                    expression = int(expression)
+                else:
+                    # There is no size to check against.
                     fail_numerical_expression(shape[i], expression, ox)
-                expression = int(expression)
+                    initialized = False
             dimension_sizes.append(expression)
 
         # Case 2: ``item`` is a placeholder.
-- 
2.43.0


From 10bdc091eaec869cf4b63a31908a069b21e20f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:58 +0000
Subject: [PATCH 34/34] fix: a percent sign in a configuration value is kept as
 it is

---
 asta/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asta/config.py b/asta/config.py
index 987c002..5b091b9 100644
--- a/asta/config.py
+++ b/asta/config.py
@@ -115,7 +115,7 @@ def as_dict(config: configparser.ConfigParser) -> Dict[str, Dict[str, str]]:
     dictionary: Dict[str, Dict[str, str]] = collections.OrderedDict()
     for section in config.sections():
         dictionary[section] = {}
-        for key, val in config.items(section):
+        for key, val in config.items(section, raw=True):
             dictionary[section][key] = val
     return dictionary
 
-- 
2.43.0

