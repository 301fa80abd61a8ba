From f8918671dc2578f443f3457a86079373cada252a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:33 +0000
Subject: [PATCH 01/31] fix: raising a scalar to the power 0 recursed without
 bound

---
 ein/frontend/ndarray.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ein/frontend/ndarray.py b/ein/frontend/ndarray.py
index 4766c08..9156359 100644
--- a/ein/frontend/ndarray.py
+++ b/ein/frontend/ndarray.py
@@ -304,7 +304,9 @@ class Scalar(_Array):
                 return (1.0 / self) ** (-power)
 
             def go(k: int) -> Scalar:
-                if k == 1:
+                if k == 0:
+                    return wrap(cast(ScalarType, self.expr.type).kind(1))
+                elif k == 1:
                     return self
                 elif k % 2:
                     return go(k - 1) * self
-- 
2.43.0


From 5d922ffdf80b7cd2ab35ce7dc094b6506946e818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:33 +0000
Subject: [PATCH 02/31] fix: einsum dropped the repetition of summands that
 ignore a contracted counter

---
 ein/codegen/phi_to_yarr.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ein/codegen/phi_to_yarr.py b/ein/codegen/phi_to_yarr.py
index 63d372e..4a38f0e 100644
--- a/ein/codegen/phi_to_yarr.py
+++ b/ein/codegen/phi_to_yarr.py
@@ -96,6 +96,10 @@ def transform(
 
                         def go_product(*args: phi.Expr) -> Axial | None:
                             for counter, size in dot.contract.items():
+                                # A product independent of the counter is summed
+                                # as many times as the counter has values
+                                if not any(counter in op.free_variables for op in args):
+                                    return None
                                 for operand in args:
                                     if not would_be_memory_considerate_axis(
                                         operand, counter, size, size_class
-- 
2.43.0


From 52bb764f5be59a47ba08ef225dc300f3571917b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:33 +0000
Subject: [PATCH 03/31] fix: folds using the accumulator in both operands were
 compiled as reductions

---
 ein/codegen/phi_to_yarr.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/ein/codegen/phi_to_yarr.py b/ein/codegen/phi_to_yarr.py
index 4a38f0e..e3333aa 100644
--- a/ein/codegen/phi_to_yarr.py
+++ b/ein/codegen/phi_to_yarr.py
@@ -393,10 +393,13 @@ def match_reduction_by_body(
     for typ, kind in red.items():
         if isinstance(body, typ):
             first, second = body.operands
-            if isinstance(first, phi.Store) and first.symbol == acc:
-                return second, kind
-            elif isinstance(second, phi.Store) and second.symbol == acc:
-                return first, kind
+            for curr, elem in ((first, second), (second, first)):
+                if (
+                    isinstance(curr, phi.Store)
+                    and curr.symbol == acc
+                    and acc not in elem.free_variables
+                ):
+                    return elem, kind
     return None
 
 
-- 
2.43.0


From 59d8ef9085986cc59e43587690380683c42fe09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:05 +0000
Subject: [PATCH 04/31] fix: shifted and clipped reads with bounds outside of
 the array or with empty extents

---
 ein/codegen/array_indexing.py | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/ein/codegen/array_indexing.py b/ein/codegen/array_indexing.py
index 8eab888..332ce68 100644
--- a/ein/codegen/array_indexing.py
+++ b/ein/codegen/array_indexing.py
@@ -86,18 +86,25 @@ def transform_get(
             if use_slice_elision and is_trivial and size_class.equiv(index, dim):
                 return Axial(axes, target.expr)
             if use_slice_pads:
-                zero = Builder.const(0).expr
+                zero = Builder.const(0)
                 size = index_sizes[index]
-                dim1 = (Builder(go(dim).normal) - Builder.const(1)).expr
+                dim_expr = go(dim).normal
+                last = (Builder(dim_expr) - Builder.const(1)).max(zero)
+
+                def bound(expr: phi.Expr) -> yarr.Expr:
+                    # Reads are clamped to the array, so the bounds can be too
+                    return Builder(go(expr).normal).min(last).max(zero).expr
+
                 return Axial(
                     axes,
                     pad_slice_get(
                         target.expr,
                         target.positional_axis(0),
-                        go(shift).normal if shift is not None else zero,
-                        go(low).normal if low is not None else zero,
-                        go(high).normal if high is not None else dim1,
+                        go(shift).normal if shift is not None else zero.expr,
+                        bound(low) if low is not None else zero.expr,
+                        bound(high) if high is not None else last.expr,
                         size,
+                        dim_expr,
                     ),
                 )
     item = go(item_)
@@ -120,12 +127,13 @@ def pad_slice_get(
     low_: yarr.Expr,
     high_: yarr.Expr,
     size_: yarr.Expr,
+    dim_: yarr.Expr,
 ) -> yarr.Expr:
     rank = target.type.single.rank
     assert 0 <= axis < rank
     assert all(
         e.type.single == PrimitiveArrayType(0, int)
-        for e in (shift_, low_, high_, size_)
+        for e in (shift_, low_, high_, size_, dim_)
     )
     zero, one = Builder.const(0), Builder.const(1)
 
@@ -133,15 +141,18 @@ def pad_slice_get(
     low = Builder(low_)
     high = Builder(high_)
     size = Builder(size_)
+    dim = Builder(dim_)
 
     # We want to compute an array b such that
     #  b[i] = a[min(max(i + shift, low), high)]
     # using the operation
     #  b = pad(a[start:stop], (left, right))
     # (where indexing is along the selected axis)
+    # The size and the dimension might be zero, and then the slice is empty.
     start = shift.max(low).min(high)
     stop = (shift + size - one).max(low).min(high) + one
-    left = (low - shift).max(zero).min(size - one)
+    stop = stop.min(start + size).min(dim)
+    left = (low - shift).min(size - one).max(zero)
     right = size - (stop - start) - left
 
     return yarr.Pad(
-- 
2.43.0


From e07ead72686ad1972d0431e9c0b17c30ac912fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:05 +0000
Subject: [PATCH 05/31] fix: padding an empty array lost its extents and its
 dtype

---
 ein/backend/numpy_backend.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ein/backend/numpy_backend.py b/ein/backend/numpy_backend.py
index 00ae828..c32fb85 100644
--- a/ein/backend/numpy_backend.py
+++ b/ein/backend/numpy_backend.py
@@ -91,7 +91,8 @@ def fast_edge_pad(
     target: numpy.ndarray, pads: tuple[tuple[int, int], ...]
 ) -> numpy.ndarray:
     if not target.size:
-        return numpy.empty(tuple(lt + rt for lt, rt in pads))
+        shape = tuple(d + lt + rt for d, (lt, rt) in zip(target.shape, pads))
+        return numpy.zeros(shape, dtype=target.dtype)
     if sum(lt + rt for lt, rt in pads) == 0:
         return target.copy()
     if all(not (lt and rt) for lt, rt in pads):
-- 
2.43.0


From 17be2db17b1ecc75502e9203e92a5e8741081d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:05 +0000
Subject: [PATCH 06/31] fix: edge padding turned integer and boolean arrays
 into floats

---
 ein/backend/numpy_backend.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ein/backend/numpy_backend.py b/ein/backend/numpy_backend.py
index c32fb85..b2f7544 100644
--- a/ein/backend/numpy_backend.py
+++ b/ein/backend/numpy_backend.py
@@ -96,7 +96,9 @@ def fast_edge_pad(
     if sum(lt + rt for lt, rt in pads) == 0:
         return target.copy()
     if all(not (lt and rt) for lt, rt in pads):
-        res = numpy.empty([d + lt + rt for d, (lt, rt) in zip(target.shape, pads)])
+        res = numpy.empty(
+            [d + lt + rt for d, (lt, rt) in zip(target.shape, pads)], target.dtype
+        )
         edge_index: list[int | numpy.ndarray | slice] = []
         edge_unsqueeze: list[None | slice] = []
         dest: list[slice] = []
-- 
2.43.0


From ad78d55f890a3e1fd6209bec5e5cb8d187bb1858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:05 +0000
Subject: [PATCH 07/31] fix: comparisons were written in place into numeric
 temporaries

---
 ein/codegen/phi_to_yarr.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ein/codegen/phi_to_yarr.py b/ein/codegen/phi_to_yarr.py
index e3333aa..c94c09c 100644
--- a/ein/codegen/phi_to_yarr.py
+++ b/ein/codegen/phi_to_yarr.py
@@ -554,11 +554,13 @@ def apply_inplace_on_temporaries(program: yarr.Expr) -> yarr.Expr:
                 # This logic is really shaky and interacts with optimisations to the number of axis manipulation calls.
                 # Should have more in-depth analysis on what broadcasting might occur
                 rank = expr.type.single.rank
-                rank1, rank2 = first.type.single.rank, second.type.single.rank
+                type0, type1, type2 = (
+                    e.type.single for e in (expr, first, second)
+                )  # The kinds differ for comparisons
                 if rank:
-                    if rank == rank1 and isinstance(first, TEMPORARIES):
+                    if type0 == type1 and isinstance(first, TEMPORARIES):
                         return yarr.BinaryElementwise(kind, first, second, 0)
-                    if rank == rank2 and isinstance(second, TEMPORARIES):
+                    if type0 == type2 and isinstance(second, TEMPORARIES):
                         return yarr.BinaryElementwise(kind, first, second, 1)
         return expr
 
-- 
2.43.0


From c6013461507ba1a23ec12328973120244277de98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:05 +0000
Subject: [PATCH 08/31] fix: nested vectors of records failed to compile

---
 ein/midend/structs.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/ein/midend/structs.py b/ein/midend/structs.py
index ee0052f..8bbd421 100644
--- a/ein/midend/structs.py
+++ b/ein/midend/structs.py
@@ -31,6 +31,15 @@ def _soa_transform_type(type_: Type) -> Type:
             return Pair(
                 _soa_transform_type(Vector(first)), _soa_transform_type(Vector(second))
             )
+        case Vector(Vector() as elem):
+            match _soa_transform_type(elem):
+                case Pair(first, second):
+                    return Pair(
+                        _soa_transform_type(Vector(first)),
+                        _soa_transform_type(Vector(second)),
+                    )
+                case elem_type:
+                    return Vector(elem_type)
         case Vector(elem):
             return Vector(_soa_transform_type(elem))
         case Pair(first, second):
-- 
2.43.0


From 66c5ad60efaa4acd84268b0813152747821df00c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:01 +0000
Subject: [PATCH 09/31] fix: folds with a body independent of the indices of
 the initial value failed to compile

---
 ein/codegen/phi_to_yarr.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/ein/codegen/phi_to_yarr.py b/ein/codegen/phi_to_yarr.py
index c94c09c..39db0c7 100644
--- a/ein/codegen/phi_to_yarr.py
+++ b/ein/codegen/phi_to_yarr.py
@@ -171,11 +171,10 @@ def transform(
                 #  Doing this by constructing the body twice is a really bad idea.
                 #  But just using body.free_indices isn't deterministic enough.
                 pre_transformed = transformed.copy()
-                acc_axes = go(
-                    body_,
-                    index_sizes,
-                    var_axes | {acc: init._axes},
-                )._axes
+                acc_axes = axial._alignment(
+                    go(body_, index_sizes, var_axes | {acc: init._axes})._axes,
+                    init._axes,
+                )
                 transformed.clear()
                 transformed.update(pre_transformed)
                 body = go(
@@ -190,7 +189,7 @@ def transform(
                         size.normal,
                         acc,
                         init.aligned(acc_axes, repeats=index_sizes),
-                        body.aligned(acc_axes),
+                        body.aligned(acc_axes, repeats=index_sizes),
                     ),
                 )
             case phi.Reduce(init_, x, y, xy_, vecs_):
-- 
2.43.0


From 02f8c98fe64d3aab7cbef2d16aa290774cbcefdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:01 +0000
Subject: [PATCH 10/31] fix: record elements independent of an index were left
 with a unit axis for it

---
 ein/codegen/axial.py       | 9 ++++++---
 ein/codegen/phi_to_yarr.py | 2 +-
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/ein/codegen/axial.py b/ein/codegen/axial.py
index d416cb9..c50cde5 100644
--- a/ein/codegen/axial.py
+++ b/ein/codegen/axial.py
@@ -82,12 +82,15 @@ class Axial:
         *rest, (var, bind) = args
         return Axial(self._axes, yarr.Let(var, bind, self.expr)).within(*rest)
 
-    def cons(self, other: "Axial") -> "Axial":
+    def cons(
+        self, other: "Axial", *, repeats: dict[Axis, yarr.Expr] | None = None
+    ) -> "Axial":
         n = len(self.expr.type.elems)
         m = len(other.expr.type.elems)
         axes = _alignment(self._axes, other._axes)
-        self_expr = self.aligned(axes)
-        other_expr = other.aligned(axes)
+        # The elements may be used separately, so neither can rely on broadcasting
+        self_expr = self.aligned(axes, repeats=repeats)
+        other_expr = other.aligned(axes, repeats=repeats)
         return Axial(
             axes,
             tuple_maybe_singleton(
diff --git a/ein/codegen/phi_to_yarr.py b/ein/codegen/phi_to_yarr.py
index 39db0c7..a3468cc 100644
--- a/ein/codegen/phi_to_yarr.py
+++ b/ein/codegen/phi_to_yarr.py
@@ -277,7 +277,7 @@ def transform(
             case phi.Cons(first_, second_):
                 first = go(first_, index_sizes, var_axes)
                 second = go(second_, index_sizes, var_axes)
-                return first.cons(second)
+                return first.cons(second, repeats=index_sizes)
             case phi.First(target_):
                 assert isinstance(target_.type, Pair)
                 k = len(target_.type.first.primitive_type.elems)
-- 
2.43.0


From bb71f655fc737ea5b1b48630e003e15c1c86bded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:01 +0000
Subject: [PATCH 11/31] fix: minimum and maximum folds over an empty range
 raised instead of giving the initial value

---
 ein/backend/jax_backend.py   |  3 ++-
 ein/backend/numpy_backend.py |  3 ++-
 ein/backend/torch_backend.py | 11 ++++++++++-
 ein/codegen/yarr.py          |  5 +++++
 4 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/ein/backend/jax_backend.py b/ein/backend/jax_backend.py
index 3e43e96..072432d 100644
--- a/ein/backend/jax_backend.py
+++ b/ein/backend/jax_backend.py
@@ -176,7 +176,8 @@ def stage_in_array(
             case yarr.ReduceAxis(kind, axis, target_):
                 target = go(target_)
                 call = REDUCE[kind]
-                return lambda env: call(target(env), axis=axis)
+                identity = yarr.REDUCE_IDENTITY[kind]
+                return lambda env: call(target(env), axis=axis, initial=identity)
             case yarr.Cast(dtype, target_):
                 target = go(target_)
                 return lambda env: target(env).astype(dtype)
diff --git a/ein/backend/numpy_backend.py b/ein/backend/numpy_backend.py
index b2f7544..8514838 100644
--- a/ein/backend/numpy_backend.py
+++ b/ein/backend/numpy_backend.py
@@ -140,7 +140,8 @@ def stage_in_array(
             case yarr.ReduceAxis(kind, axis, target_):
                 target = go(target_)
                 call = yarr.REDUCE_KINDS[kind].reduce
-                return lambda env: call(target(env), axis=axis)
+                identity = yarr.REDUCE_IDENTITY[kind]
+                return lambda env: call(target(env), axis=axis, initial=identity)
             case yarr.Cast(dtype, target_):
                 target = go(target_)
                 return lambda env: target(env).astype(dtype)
diff --git a/ein/backend/torch_backend.py b/ein/backend/torch_backend.py
index 7141a88..7d008c2 100644
--- a/ein/backend/torch_backend.py
+++ b/ein/backend/torch_backend.py
@@ -133,7 +133,16 @@ def stage_in_array(
             case yarr.ReduceAxis(kind, axis, target_):
                 target = go(target_)
                 call = REDUCE[kind]
-                return lambda env: call(target(env), axis=axis)
+                identity = yarr.REDUCE_IDENTITY[kind]
+
+                def reduce_axis(env: Env) -> torch.Tensor:
+                    arr = target(env)
+                    if not arr.shape[axis]:
+                        shape = arr.shape[:axis] + arr.shape[axis + 1 :]
+                        return arr.new_full(shape, identity)
+                    return call(arr, axis=axis)
+
+                return reduce_axis
             case yarr.Cast(dtype, target_):
                 target = go(target_)
                 return lambda env: target(env).to(dtype)
diff --git a/ein/codegen/yarr.py b/ein/codegen/yarr.py
index fd025ec..e611889 100644
--- a/ein/codegen/yarr.py
+++ b/ein/codegen/yarr.py
@@ -758,6 +758,11 @@ REDUCE_KINDS: dict[Any, Any] = {
     ReduceAxis.Kind.minimum: numpy.minimum,
     ReduceAxis.Kind.maximum: numpy.maximum,
 }
+REDUCE_IDENTITY: dict[Any, float] = {
+    ReduceAxis.Kind.add: 0.0,
+    ReduceAxis.Kind.minimum: float("inf"),
+    ReduceAxis.Kind.maximum: float("-inf"),
+}
 REDUCE_UNDERLYING: dict[Any, Any] = {
     ReduceAxis.Kind.add: BinaryElementwise.Kind.add,
     ReduceAxis.Kind.minimum: BinaryElementwise.Kind.minimum,
-- 
2.43.0


From 8a76f790a093593c39907e8650d5a34b94482596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:00 +0000
Subject: [PATCH 12/31] fix: reads from empty arrays raised, also where their
 result is discarded

---
 ein/backend/array_backend.py | 14 ++++++++++++++
 ein/backend/jax_backend.py   |  9 +++++++++
 ein/backend/numpy_backend.py |  9 +++++++++
 ein/backend/torch_backend.py |  9 +++++++++
 4 files changed, 41 insertions(+)

diff --git a/ein/backend/array_backend.py b/ein/backend/array_backend.py
index 1a17c2c..4bb1450 100644
--- a/ein/backend/array_backend.py
+++ b/ein/backend/array_backend.py
@@ -81,6 +81,20 @@ class AbstractArrayBackend(abc.ABC, Generic[T]):
     def prepare_einsum(self, subs: str) -> Callable[..., T]:
         ...
 
+    @abc.abstractmethod
+    def zeros_like(self, target: T, shape: tuple[int, ...]) -> T:
+        ...
+
+    def readable(self, target: T, axes: Sequence[int]) -> T:
+        # Elements read from an empty axis are arbitrary (and usually discarded),
+        # but the read itself has to succeed.
+        shape: tuple[int, ...] = target.shape  # type: ignore
+        if all(shape[axis] for axis in axes):
+            return target
+        return self.zeros_like(
+            target, tuple(d or 1 if i in axes else d for i, d in enumerate(shape))
+        )
+
     def fold(
         self,
         index_var: Variable,
diff --git a/ein/backend/jax_backend.py b/ein/backend/jax_backend.py
index 072432d..ca60f54 100644
--- a/ein/backend/jax_backend.py
+++ b/ein/backend/jax_backend.py
@@ -68,6 +68,7 @@ class JaxBackend(AbstractArrayBackend[jnp.ndarray]):
         return jnp.expand_dims(target, axes)
 
     def gather(self, target: jnp.ndarray, item: jnp.ndarray, axis: int) -> jnp.ndarray:
+        target = self.readable(target, (axis,))
         return jnp.take_along_axis(
             target, jnp.clip(item, 0, target.shape[axis] - 1), axis
         )
@@ -76,6 +77,9 @@ class JaxBackend(AbstractArrayBackend[jnp.ndarray]):
         self, target: jnp.ndarray, items: Sequence[Optional[jnp.ndarray]]
     ) -> jnp.ndarray:
         SLICE_NONE = slice(None)
+        target = self.readable(
+            target, [axis for axis, item in enumerate(items) if item is not None]
+        )
         it: Any = (
             jnp.clip(item, 0, dim - 1) if item is not None else SLICE_NONE
             for dim, item in zip(target.shape, items)
@@ -92,6 +96,11 @@ class JaxBackend(AbstractArrayBackend[jnp.ndarray]):
     def repeat(self, target: jnp.ndarray, count: jnp.ndarray, axis: int) -> jnp.ndarray:
         return jnp.repeat(target, count, axis=axis)
 
+    def zeros_like(
+        self, target: jnp.ndarray, shape: tuple[int, ...]
+    ) -> jnp.ndarray:
+        return jnp.zeros(shape, dtype=target.dtype)
+
     def prepare_einsum(self, subs: str) -> Callable[..., jnp.ndarray]:
         return lambda *args: jnp.einsum(subs, *args)
 
diff --git a/ein/backend/numpy_backend.py b/ein/backend/numpy_backend.py
index 8514838..51df4c7 100644
--- a/ein/backend/numpy_backend.py
+++ b/ein/backend/numpy_backend.py
@@ -49,6 +49,7 @@ class NumpyBackend(AbstractArrayBackend[numpy.ndarray]):
     def gather(
         self, target: numpy.ndarray, item: numpy.ndarray, axis: int
     ) -> numpy.ndarray:
+        target = self.readable(target, (axis,))
         return numpy.take_along_axis(
             target, numpy.clip(item, 0, target.shape[axis] - 1), axis
         )
@@ -57,6 +58,9 @@ class NumpyBackend(AbstractArrayBackend[numpy.ndarray]):
         self, target: numpy.ndarray, items: Sequence[numpy.ndarray | None]
     ) -> numpy.ndarray:
         SLICE_NONE = slice(None)
+        target = self.readable(
+            target, [axis for axis, item in enumerate(items) if item is not None]
+        )
         it: Any = (
             numpy.clip(item, 0, dim - 1) if item is not None else SLICE_NONE
             for dim, item in zip(target.shape, items)
@@ -76,6 +80,11 @@ class NumpyBackend(AbstractArrayBackend[numpy.ndarray]):
     ) -> numpy.ndarray:
         return numpy.repeat(target, int(count), axis=axis)
 
+    def zeros_like(
+        self, target: numpy.ndarray, shape: tuple[int, ...]
+    ) -> numpy.ndarray:
+        return numpy.zeros(shape, dtype=target.dtype)
+
     def prepare_einsum(self, subs: str) -> Callable[..., numpy.ndarray]:
         op_subs, res_subs = subs.split("->")
         ops_subs = op_subs.split(",")
diff --git a/ein/backend/torch_backend.py b/ein/backend/torch_backend.py
index 7d008c2..8bbaa25 100644
--- a/ein/backend/torch_backend.py
+++ b/ein/backend/torch_backend.py
@@ -66,12 +66,16 @@ class TorchBackend(AbstractArrayBackend[torch.Tensor]):
     def gather(
         self, target: torch.Tensor, item: torch.Tensor, axis: int
     ) -> torch.Tensor:
+        target = self.readable(target, (axis,))
         return torch.gather(target, axis, torch.clip(item, 0, target.shape[axis] - 1))
 
     def take(
         self, target: torch.Tensor, items: Sequence[Optional[torch.Tensor]]
     ) -> torch.Tensor:
         SLICE_NONE = slice(None)
+        target = self.readable(
+            target, [axis for axis, item in enumerate(items) if item is not None]
+        )
         it = (
             torch.clip(item, 0, dim - 1) if item is not None else SLICE_NONE
             for dim, item in zip(target.shape, items)
@@ -99,6 +103,11 @@ class TorchBackend(AbstractArrayBackend[torch.Tensor]):
     ) -> torch.Tensor:
         return torch.repeat_interleave(target, int(count), axis)
 
+    def zeros_like(
+        self, target: torch.Tensor, shape: tuple[int, ...]
+    ) -> torch.Tensor:
+        return target.new_zeros(shape)
+
     def prepare_einsum(self, subs: str) -> Callable[..., torch.Tensor]:
         return lambda *args: torch.einsum(subs, *args)
 
-- 
2.43.0


From 975d8a7b20efbfb73d4d7255d9095cdf9bc632c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:00 +0000
Subject: [PATCH 13/31] fix: torch gather does not broadcast its operands

---
 ein/backend/torch_backend.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/ein/backend/torch_backend.py b/ein/backend/torch_backend.py
index 8bbaa25..d20a098 100644
--- a/ein/backend/torch_backend.py
+++ b/ein/backend/torch_backend.py
@@ -67,7 +67,15 @@ class TorchBackend(AbstractArrayBackend[torch.Tensor]):
         self, target: torch.Tensor, item: torch.Tensor, axis: int
     ) -> torch.Tensor:
         target = self.readable(target, (axis,))
-        return torch.gather(target, axis, torch.clip(item, 0, target.shape[axis] - 1))
+        item = torch.clip(item, 0, target.shape[axis] - 1)
+        shape = torch.broadcast_shapes(
+            *(t.shape[:axis] + (1,) + t.shape[axis + 1 :] for t in (target, item))
+        )
+        target, item = (
+            t.expand(shape[:axis] + (t.shape[axis],) + shape[axis + 1 :])
+            for t in (target, item)
+        )
+        return torch.gather(target, axis, item)
 
     def take(
         self, target: torch.Tensor, items: Sequence[Optional[torch.Tensor]]
-- 
2.43.0


From a9230e47f4f238ac4d7efc0006113d29f0640f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:25 +0000
Subject: [PATCH 14/31] fix: torch padded the axes in reverse order, and only
 for some ranks and dtypes

---
 ein/backend/torch_backend.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/ein/backend/torch_backend.py b/ein/backend/torch_backend.py
index d20a098..757abea 100644
--- a/ein/backend/torch_backend.py
+++ b/ein/backend/torch_backend.py
@@ -1,4 +1,3 @@
-import itertools
 from functools import cache
 from typing import Any, Callable, Optional, Sequence, TypeAlias, cast
 
@@ -96,15 +95,17 @@ class TorchBackend(AbstractArrayBackend[torch.Tensor]):
     def pad(
         self, target: torch.Tensor, pads: Sequence[tuple[int, int]]
     ) -> torch.Tensor:
-        return (
-            torch.nn.functional.pad(
-                target.unsqueeze(0).unsqueeze(0),
-                tuple(itertools.chain(*pads)),
-                mode="replicate",
-            )
-            .squeeze(0)
-            .squeeze(0)
-        )
+        # Padding in torch.nn.functional starts from the last axis, is limited in rank and dtypes,
+        # and does not accept empty tensors, so edges are repeated by indexing instead.
+        for axis, (left, right) in enumerate(pads):
+            if left or right:
+                items = torch.arange(
+                    -int(left), target.shape[axis] + int(right), device=target.device
+                )
+                target = self.readable(target, (axis,))
+                items = torch.clip(items, 0, target.shape[axis] - 1)
+                target = target.index_select(axis, items)
+        return target
 
     def repeat(
         self, target: torch.Tensor, count: torch.Tensor, axis: int
-- 
2.43.0


From 5fd8a0884b9b1cc8406a87b36e227fb3d24fa0e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:25 +0000
Subject: [PATCH 15/31] fix: edge padding of empty arrays in Jax

---
 ein/backend/jax_backend.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ein/backend/jax_backend.py b/ein/backend/jax_backend.py
index ca60f54..8a248f5 100644
--- a/ein/backend/jax_backend.py
+++ b/ein/backend/jax_backend.py
@@ -91,6 +91,9 @@ class JaxBackend(AbstractArrayBackend[jnp.ndarray]):
         return target[*slices]
 
     def pad(self, target: jnp.ndarray, pads: Sequence[tuple[int, int]]) -> jnp.ndarray:
+        if not target.size:
+            shape = tuple(d + lt + rt for d, (lt, rt) in zip(target.shape, pads))
+            return self.zeros_like(target, shape)
         return jnp.pad(target, pads, mode="edge")  # type: ignore
 
     def repeat(self, target: jnp.ndarray, count: jnp.ndarray, axis: int) -> jnp.ndarray:
-- 
2.43.0


From 3dbd3aa14ffc2a2654b21403b45b0833b752025b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:25 +0000
Subject: [PATCH 16/31] fix: sizes of arrays could not be used in scalar
 arithmetic in Jax

---
 ein/backend/jax_backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ein/backend/jax_backend.py b/ein/backend/jax_backend.py
index 8a248f5..cb33385 100644
--- a/ein/backend/jax_backend.py
+++ b/ein/backend/jax_backend.py
@@ -48,7 +48,7 @@ class JaxBackend(AbstractArrayBackend[jnp.ndarray]):
         return target
 
     def dim(self, target: jnp.ndarray, axis: int) -> jnp.ndarray:
-        return target.shape[axis]
+        return numpy.array(target.shape[axis])  # type: ignore
 
     def range(self, size: jnp.ndarray) -> jnp.ndarray:
         return jnp.arange(size)
-- 
2.43.0


From 75768183b965607500abd98d9152c9312adc356a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:25 +0000
Subject: [PATCH 17/31] fix: static offsets inside of Jax loops were traced

---
 ein/backend/jax_backend.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ein/backend/jax_backend.py b/ein/backend/jax_backend.py
index cb33385..36f2991 100644
--- a/ein/backend/jax_backend.py
+++ b/ein/backend/jax_backend.py
@@ -119,7 +119,9 @@ class JaxBackend(AbstractArrayBackend[jnp.ndarray]):
             def jax_body(i, acc):
                 env[acc_var] = acc
                 env[index_var] = i
-                ret = body(env)
+                # Extents and offsets in the body have to stay static
+                with jax.ensure_compile_time_eval():
+                    ret = body(env)
                 del env[acc_var], env[index_var]
                 return ret
 
-- 
2.43.0


From 8fe113320d51071afde371ea906b57fa2fda1513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:25 +0000
Subject: [PATCH 18/31] fix: naive interpretation of an empty comprehension
 lost the extents and kind of its elements

---
 ein/backend/naive.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/ein/backend/naive.py b/ein/backend/naive.py
index ea5150f..4ae09ea 100644
--- a/ein/backend/naive.py
+++ b/ein/backend/naive.py
@@ -16,14 +16,12 @@ def _interpret(expr: Expr, env: dict[Symbol, Value]) -> Value:
     match expr:
         case phi.Vec(index, size, body):
             evaluated_size = int(_interpret(size, env).array)
-            return Value(
-                numpy.array(
-                    [
-                        _interpret(body, env | {index: Value(numpy.array(i))}).array
-                        for i in range(evaluated_size)
-                    ]
-                )
-            )
+            elems = [
+                _interpret(body, env | {index: Value(numpy.array(i))}).array
+                for i in range(max(evaluated_size, 1))
+            ]
+            # Elements of an empty vector still determine its type
+            return Value(numpy.array(elems)[: max(evaluated_size, 0)])
         case phi.Fold(counter, size, acc_v, init, body):
             n = int(_interpret(size, env).array)
             env[acc_v] = _interpret(init, env)
@@ -50,7 +48,7 @@ def _interpret(expr: Expr, env: dict[Symbol, Value]) -> Value:
             tt = _interpret(target, env).array
             it = _interpret(item, env).array
             if not tt.size:
-                return Value(numpy.empty(tt.shape[1:], tt.dtype))
+                return Value(numpy.zeros(tt.shape[1:], tt.dtype))
             return Value(numpy.take(tt, it, axis=0, mode="clip"))
         case phi.Concat(first, second):
             return Value(
-- 
2.43.0


From a7a865b1a355791f52d63ab4b21143527451174e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:25 +0000
Subject: [PATCH 19/31] fix: naive interpretation of folds with a negative
 count

---
 ein/backend/naive.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ein/backend/naive.py b/ein/backend/naive.py
index 4ae09ea..ef30712 100644
--- a/ein/backend/naive.py
+++ b/ein/backend/naive.py
@@ -23,7 +23,7 @@ def _interpret(expr: Expr, env: dict[Symbol, Value]) -> Value:
             # Elements of an empty vector still determine its type
             return Value(numpy.array(elems)[: max(evaluated_size, 0)])
         case phi.Fold(counter, size, acc_v, init, body):
-            n = int(_interpret(size, env).array)
+            n = max(int(_interpret(size, env).array), 0)
             env[acc_v] = _interpret(init, env)
             for i in range(n):
                 env[counter] = Value(numpy.array(i))
-- 
2.43.0


From 42636793e30b1f32f8ca136680c62f1e5c4495ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:14 +0000
Subject: [PATCH 20/31] fix: torch einsum of three or more operands failed when
 one of them was empty

---
 ein/backend/torch_backend.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/ein/backend/torch_backend.py b/ein/backend/torch_backend.py
index 757abea..c9cf88a 100644
--- a/ein/backend/torch_backend.py
+++ b/ein/backend/torch_backend.py
@@ -118,7 +118,20 @@ class TorchBackend(AbstractArrayBackend[torch.Tensor]):
         return target.new_zeros(shape)
 
     def prepare_einsum(self, subs: str) -> Callable[..., torch.Tensor]:
-        return lambda *args: torch.einsum(subs, *args)
+        ops_subs, res_subs = subs.split("->")
+
+        def einsum(*args: torch.Tensor) -> torch.Tensor:
+            # The search for a contraction path might fail for empty operands
+            if not all(arg.numel() for arg in args):
+                dims = {
+                    sub: dim
+                    for op_subs, arg in zip(ops_subs.split(","), args)
+                    for sub, dim in zip(op_subs, arg.shape)
+                }
+                return args[0].new_zeros([dims[sub] for sub in res_subs])
+            return torch.einsum(subs, *args)
+
+        return einsum
 
 
 INSTANCE = TorchBackend()
-- 
2.43.0


From 082e9e84f44a063cbe860e448ec8bcac233881cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:14 +0000
Subject: [PATCH 21/31] fix: Jax gather with an empty result

---
 ein/backend/jax_backend.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ein/backend/jax_backend.py b/ein/backend/jax_backend.py
index 36f2991..6a0239f 100644
--- a/ein/backend/jax_backend.py
+++ b/ein/backend/jax_backend.py
@@ -69,6 +69,11 @@ class JaxBackend(AbstractArrayBackend[jnp.ndarray]):
 
     def gather(self, target: jnp.ndarray, item: jnp.ndarray, axis: int) -> jnp.ndarray:
         target = self.readable(target, (axis,))
+        shape = jnp.broadcast_shapes(
+            target.shape[:axis] + (1,) + target.shape[axis + 1 :], item.shape
+        )
+        if 0 in shape:
+            return self.zeros_like(target, shape)
         return jnp.take_along_axis(
             target, jnp.clip(item, 0, target.shape[axis] - 1), axis
         )
-- 
2.43.0


From c752a84147bb16e6595ce4cb510060f150a5f83a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:36 +0000
Subject: [PATCH 22/31] fix: sizes of a fold were taken as equal when its body
 resizes the accumulator in the last iteration

---
 ein/midend/size_classes.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ein/midend/size_classes.py b/ein/midend/size_classes.py
index 5259e4b..dbab744 100644
--- a/ein/midend/size_classes.py
+++ b/ein/midend/size_classes.py
@@ -117,7 +117,9 @@ def _update_size_classes(
                         phi.Dim(body, axis),
                         phi.Dim(init, axis),
                     ]
-                    for i in range(3):
+                    # The body may still resize the last accumulator
+                    # when the accumulators it saw had the initial size.
+                    for i in range(2):
                         trigger.append(
                             (
                                 {triangle[i], triangle[(i + 1) % 3]},
-- 
2.43.0


From d040c95d417d972056c276927a327053f25a2b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:37 +0000
Subject: [PATCH 23/31] fix: reductions with bodies over permuted or additional
 indices were misaligned

---
 ein/codegen/phi_to_yarr.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/ein/codegen/phi_to_yarr.py b/ein/codegen/phi_to_yarr.py
index a3468cc..0bad2d3 100644
--- a/ein/codegen/phi_to_yarr.py
+++ b/ein/codegen/phi_to_yarr.py
@@ -199,9 +199,12 @@ def transform(
                 # FIXME: Like for Fold, we trace the body twice to get a deterministic choice of axes.
                 some_axes = axial._alignment(init._axes, *(vec._axes for vec in vecs))
                 pre_transformed = transformed.copy()
-                axes = go(
-                    xy_, index_sizes, var_axes | {x: some_axes, y: some_axes}
-                )._axes
+                axes = axial._alignment(
+                    go(
+                        xy_, index_sizes, var_axes | {x: some_axes, y: some_axes}
+                    )._axes,
+                    some_axes,
+                )
                 transformed.clear()
                 transformed.update(pre_transformed)
 
@@ -211,7 +214,6 @@ def transform(
                 xy_axes = (*axes, Index())
                 xy = go(xy_, index_sizes, var_axes | {x: xy_axes, y: xy_axes})
 
-                # FIXME: There's probably something wrong here.
                 init_expr = init.aligned(axes, repeats=index_sizes)
                 vecs_expr = (
                     yarr.Tuple(
@@ -222,7 +224,14 @@ def transform(
                 )
                 return Axial(
                     axes,
-                    yarr.Reduce(init_expr, x, y, xy.expr, vecs_expr, len(axes)),
+                    yarr.Reduce(
+                        init_expr,
+                        x,
+                        y,
+                        xy.aligned(xy_axes, repeats=index_sizes),
+                        vecs_expr,
+                        len(axes),
+                    ),
                 )
 
             case phi.Get(target_, item_):
-- 
2.43.0


From cf99ebbeaafc379d374c8798e3bd94960549304e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:12 +0000
Subject: [PATCH 24/31] fix: arrays could be indexed with booleans and floats

---
 ein/phi/phi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ein/phi/phi.py b/ein/phi/phi.py
index 378ae77..b25d292 100644
--- a/ein/phi/phi.py
+++ b/ein/phi/phi.py
@@ -242,7 +242,7 @@ class Get(AbstractExpr):
             raise TypeError(f"Cannot index a non-array type {self.operand.type}")
         if not isinstance(self.item.type, Scalar):
             raise TypeError(f"Cannot index with a non-scalar type {self.item.type}")
-        if not isinstance(self.item.type, Scalar):
+        if self.item.type.kind != int:
             raise TypeError(f"Cannot index with a non-integer type {self.item.type}")
         return self.operand.type.elem
 
-- 
2.43.0


From 45d52569a72b56629e8e286cc01dbe8b8568663d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:12 +0000
Subject: [PATCH 25/31] fix: mismatched structures in concat and where were not
 reported as type errors

---
 ein/frontend/ndarray.py | 6 +++++-
 ein/frontend/std.py     | 5 ++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/ein/frontend/ndarray.py b/ein/frontend/ndarray.py
index 9156359..f135183 100644
--- a/ein/frontend/ndarray.py
+++ b/ein/frontend/ndarray.py
@@ -216,7 +216,11 @@ class Vec(_Array, Generic[T]):
         return maybe_rest(sub)
 
     def concat(self, other: "Vec[T]") -> "Vec[T]":
-        assert self.layout == other.layout
+        if self.layout != other.layout:
+            raise TypeError(
+                f"Concatenated vectors must have the same structure, "
+                f"but are {self.layout} != {other.layout}"
+            )
         return _to_array(phi.Concat(self.expr, other.expr), self.layout)
 
     def size(self, axis: int = 0) -> "Scalar":
diff --git a/ein/frontend/std.py b/ein/frontend/std.py
index c1866fb..8d014fd 100644
--- a/ein/frontend/std.py
+++ b/ein/frontend/std.py
@@ -12,7 +12,10 @@ T = TypeVar("T", Array, tuple[Array, Array], tuple[Array, Array, Array])
 def where(cond: bool | Scalar, true: T, false: T) -> T:
     layout_ = build_layout(true, lambda a: wrap(a).layout)
     layout = build_layout(false, lambda a: wrap(a).layout)
-    assert layout == layout_
+    if layout != layout_:
+        raise TypeError(
+            f"Selected values must have the same structure, but are {layout_} != {layout}"
+        )
     c = wrap(cond)
     return map_layout(
         layout,
-- 
2.43.0


From 8a8b4fb912ecfb03811db896de2dd255ebcdd154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:23 +0000
Subject: [PATCH 26/31] fix: dividing a vector by a scalar recursed without
 bound instead of raising a TypeError

---
 ein/frontend/ndarray.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ein/frontend/ndarray.py b/ein/frontend/ndarray.py
index f135183..7c54c18 100644
--- a/ein/frontend/ndarray.py
+++ b/ein/frontend/ndarray.py
@@ -295,7 +295,8 @@ class Scalar(_Array):
         return self * Scalar(phi.Reciprocal((wrap(other).expr,)))
 
     def __rtruediv__(self, other: ScalarLike) -> "Scalar":
-        return cast(Scalar, wrap(other) / self)
+        reciprocal = phi.Reciprocal((self.expr,))
+        return Scalar(phi.Multiply((wrap(other).expr, reciprocal)))
 
     def __mod__(self, other: ScalarLike) -> "Scalar":
         return Scalar(phi.Modulo((self.expr, wrap(other).expr)))
-- 
2.43.0


From 61699f5951f9c7c1941e924c927c737520fd3811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:23 +0000
Subject: [PATCH 27/31] fix: literals in place of vectors in comprehension,
 fold and reduce bodies were not wrapped

---
 ein/frontend/ndarray.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ein/frontend/ndarray.py b/ein/frontend/ndarray.py
index 7c54c18..22a0f22 100644
--- a/ein/frontend/ndarray.py
+++ b/ein/frontend/ndarray.py
@@ -54,7 +54,7 @@ def _layout_struct_to_expr(layout: Layout, struct) -> Expr:
         layout,
         [struct],
         lambda a: wrap(a).expr,
-        lambda a: a.expr,
+        lambda a: wrap(a).expr,
         lambda a, b: phi.Cons(a, b),
     )
 
-- 
2.43.0


From 6cf66dee160d358ae2ea7930c3811935fdea3758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:17 +0000
Subject: [PATCH 28/31] fix: reads of accumulators at an index they depend on
 failed to compile

---
 ein/codegen/array_indexing.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ein/codegen/array_indexing.py b/ein/codegen/array_indexing.py
index 332ce68..98d4b30 100644
--- a/ein/codegen/array_indexing.py
+++ b/ein/codegen/array_indexing.py
@@ -80,7 +80,9 @@ def transform_get(
     if use_slice_pads and ts is not None:
         index, (shift, low, high) = ts
         axes = target._axes + (index,)
-        if index not in target_.free_indices:
+        # Bound variables might depend on indices, so only the axes are conclusive
+        bounds = (go(e) for e in (shift, low, high) if e is not None)
+        if index not in target._axes and not any(bound._axes for bound in bounds):
             is_trivial = {shift, low, high} == {None}
             dim = _dim_of(target_, 0)
             if use_slice_elision and is_trivial and size_class.equiv(index, dim):
-- 
2.43.0


From 60e54cf3f29545546ce068d0c6bddb7adbadba3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:50 +0000
Subject: [PATCH 29/31] fix: fields of dict records named like a method of
 dict, or by an integer, were not found

---
 ein/frontend/layout.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/ein/frontend/layout.py b/ein/frontend/layout.py
index bdf520b..a433617 100644
--- a/ein/frontend/layout.py
+++ b/ein/frontend/layout.py
@@ -94,7 +94,9 @@ def fold_layout(layout, args, atom, vec, merge):
         def do(x):
             return (
                 getattr(x, name)
-                if isinstance(name, str) and hasattr(x, name)
+                if isinstance(name, str)
+                and not isinstance(x, dict)
+                and hasattr(x, name)
                 else x[name]
             )
 
@@ -129,7 +131,13 @@ def fold_layout(layout, args, atom, vec, merge):
 def map_layout(layout, args, atom, vec):
     def get(name):
         def do(x):
-            return getattr(x, name) if hasattr(x, name) else x[name]
+            return (
+                getattr(x, name)
+                if isinstance(name, str)
+                and not isinstance(x, dict)
+                and hasattr(x, name)
+                else x[name]
+            )
 
         return do
 
-- 
2.43.0


From 25f501e30b59974ff219c6835f3a858ad3e4601a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:44:03 +0000
Subject: [PATCH 30/31] fix: copies of folds made by substitution were confused
 with each other

---
 ein/codegen/phi_to_yarr.py | 20 +++++++++++++----
 ein/midend/lining.py       | 44 +++++++++++++++++++++++++++++++++++++-
 2 files changed, 59 insertions(+), 5 deletions(-)

diff --git a/ein/codegen/phi_to_yarr.py b/ein/codegen/phi_to_yarr.py
index 0bad2d3..e74d187 100644
--- a/ein/codegen/phi_to_yarr.py
+++ b/ein/codegen/phi_to_yarr.py
@@ -33,7 +33,7 @@ def transform(
     do_shape_cancellations: bool = True,
     do_tuple_cancellations: bool = True,
 ) -> yarr.Expr:
-    transformed: dict[phi.Expr, Axial] = {}
+    transformed: dict[tuple, Axial] = {}
 
     program = struct_of_arrays_transform(program)
     size_class = find_size_classes(program)
@@ -311,9 +311,21 @@ def transform(
         index_sizes: dict[Index, yarr.Expr],
         var_axes: dict[Variable, axial.Axes],
     ) -> Axial:
-        if expr not in transformed:
-            transformed[expr] = _go(expr, index_sizes, var_axes)
-        return transformed[expr]
+        # Binders might occur several times after substitutions into them,
+        # so the same symbol can stand for different axes and sizes
+        key = (
+            expr,
+            frozenset(
+                (var, var_axes[var]) for var in expr.free_variables & var_axes.keys()
+            ),
+            frozenset(
+                (index, index_sizes[index])
+                for index in expr.free_indices & index_sizes.keys()
+            ),
+        )
+        if key not in transformed:
+            transformed[key] = _go(expr, index_sizes, var_axes)
+        return transformed[key]
 
     # FIXME: Let-bound variables get different treatment here than free variables.
     #  Free variables are always assumed to depend on no indices (empty free-index set).
diff --git a/ein/midend/lining.py b/ein/midend/lining.py
index 8930878..459f1d8 100644
--- a/ein/midend/lining.py
+++ b/ein/midend/lining.py
@@ -1,3 +1,5 @@
+import dataclasses
+from functools import cache
 from typing import TYPE_CHECKING, Iterable, TypeAlias, overload
 
 import networkx
@@ -37,6 +39,46 @@ def _apply_insertions(program: Term, insertions: Insertions) -> Term:
     return go(program, {})
 
 
+def _separate_binders(program: Term) -> Term:
+    # Substitutions leave copies of binders, which are different but bind the same symbols.
+    # Subexpressions of these are not common, as they are in different scopes.
+    binder_of: dict[Symbol, Term] = {}
+
+    def rename(term: Term, subs: dict[Symbol, Symbol]) -> Term:
+        return dataclasses.replace(
+            term,
+            **{
+                name: subs[value]
+                for name, value in term._fields
+                if isinstance(value, Symbol) and value in subs
+            },
+        )
+
+    def rename_free(term: Term, subs: dict[Symbol, Symbol]) -> Term:
+        @cache
+        def visit(sub: Term) -> Term:
+            if not sub.free_symbols & subs.keys():
+                return sub
+            if sub.unwrap_symbol() is not None:
+                return rename(sub, subs)
+            return sub.map(visit)
+
+        return visit(term)
+
+    @cache
+    def go(expr: Term) -> Term:
+        subs: dict[Symbol, Symbol] = {
+            symbol: type(symbol)()
+            for symbol in expr.captured_symbols
+            if binder_of.setdefault(symbol, expr) is not expr
+        }
+        if subs:
+            expr = rename(expr.map(lambda sub: rename_free(sub, subs)), subs)
+        return expr.map(go)
+
+    return go(program)
+
+
 def _bind_common_subexpressions(program: Term) -> Insertions:
     graph = networkx.MultiDiGraph()
     order: list[Term] = []
@@ -130,7 +172,7 @@ def outline(program: Term) -> Term:
         ), f"Internal error: free symbol set changed from {free_symbols} to {prog.free_symbols}"
 
     # Get rid of any existing let-bindings
-    program = inline(program)
+    program = _separate_binders(inline(program))
     check(program, tree=False)
     # Bind subexpressions so they occur at most once, creating a syntax tree
     program = _apply_insertions(program, _bind_common_subexpressions(program))
-- 
2.43.0


From 7cc13d24a61259c56ca1b4ac444de9d2406b39fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:45 +0000
Subject: [PATCH 31/31] fix: fold compares the structure of its step's result
 with the initial value

The check compared the initial value's layout with itself, so a step returning
records with other fields (or array-of-record fields in another order) was
accepted and relabelled by position or silently dropped fields.
---
 ein/frontend/comprehension.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ein/frontend/comprehension.py b/ein/frontend/comprehension.py
index ebce77c..ebf71bd 100644
--- a/ein/frontend/comprehension.py
+++ b/ein/frontend/comprehension.py
@@ -161,9 +161,9 @@ def fold(init: T, step: _WithIndex[T], count: Size | None = None) -> T:
     acc = phi.variable(Variable(), init_expr.type)
     arg_acc = _to_array(acc, layout)
     body = step(arg_index, arg_acc)
-    layout_ = build_layout(init, lambda a: wrap(a).layout)
+    layout_ = build_layout(body, lambda a: wrap(a).layout)
     if layout != layout_:
-        raise ValueError(
+        raise TypeError(
             f"Expected initialiser and fold body layouts to match, "
             f"got {layout} and {layout_}"
         )
-- 
2.43.0

