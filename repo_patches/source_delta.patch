From a0ad822f52f80cb66902528d674454a69ef83885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:49 +0000
Subject: [PATCH 01/41] fix: raising a scalar to the zeroth power no longer
 recurses forever

---
 ein/frontend/ndarray.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ein/frontend/ndarray.py b/ein/frontend/ndarray.py
index 4766c08..a9237b1 100644
--- a/ein/frontend/ndarray.py
+++ b/ein/frontend/ndarray.py
@@ -304,6 +304,8 @@ class Scalar(_Array):
                 return (1.0 / self) ** (-power)
 
             def go(k: int) -> Scalar:
+                if k == 0:
+                    return wrap(1 if self.expr.type == ScalarType(int) else 1.0)
                 if k == 1:
                     return self
                 elif k % 2:
-- 
2.43.0


From da1e85af4c0112274bd3879e17cc264e6c95a5ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:49 +0000
Subject: [PATCH 02/41] fix: record keys named like dict attributes are looked
 up as keys

---
 ein/frontend/layout.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/ein/frontend/layout.py b/ein/frontend/layout.py
index bdf520b..f32e7a1 100644
--- a/ein/frontend/layout.py
+++ b/ein/frontend/layout.py
@@ -92,11 +92,7 @@ def build_layout(obj, f) -> Layout:
 def fold_layout(layout, args, atom, vec, merge):
     def get(name):
         def do(x):
-            return (
-                getattr(x, name)
-                if isinstance(name, str) and hasattr(x, name)
-                else x[name]
-            )
+            return x[name] if isinstance(x, dict) else getattr(x, name)
 
         return do
 
@@ -129,7 +125,7 @@ def fold_layout(layout, args, atom, vec, merge):
 def map_layout(layout, args, atom, vec):
     def get(name):
         def do(x):
-            return getattr(x, name) if hasattr(x, name) else x[name]
+            return x[name] if isinstance(x, dict) else getattr(x, name)
 
         return do
 
-- 
2.43.0


From 3e31459debcb6e5b691c2bbac7487176669d4f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:49 +0000
Subject: [PATCH 03/41] fix: reject indexing with non-integer scalars at
 construction

---
 ein/phi/phi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ein/phi/phi.py b/ein/phi/phi.py
index 378ae77..b25d292 100644
--- a/ein/phi/phi.py
+++ b/ein/phi/phi.py
@@ -242,7 +242,7 @@ class Get(AbstractExpr):
             raise TypeError(f"Cannot index a non-array type {self.operand.type}")
         if not isinstance(self.item.type, Scalar):
             raise TypeError(f"Cannot index with a non-scalar type {self.item.type}")
-        if not isinstance(self.item.type, Scalar):
+        if self.item.type.kind != int:
             raise TypeError(f"Cannot index with a non-integer type {self.item.type}")
         return self.operand.type.elem
 
-- 
2.43.0


From 63ea4b9b53eb40d870377a5ccc7b6fdc3aa4f38b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:49 +0000
Subject: [PATCH 04/41] fix: drop leftover debug print from the JAX backend

---
 ein/backend/jax_backend.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/ein/backend/jax_backend.py b/ein/backend/jax_backend.py
index 3e43e96..692bc7c 100644
--- a/ein/backend/jax_backend.py
+++ b/ein/backend/jax_backend.py
@@ -83,7 +83,6 @@ class JaxBackend(AbstractArrayBackend[jnp.ndarray]):
         return target[*it]
 
     def slice(self, target: jnp.ndarray, slices: Sequence[slice]) -> jnp.ndarray:
-        print(slices)
         return target[*slices]
 
     def pad(self, target: jnp.ndarray, pads: Sequence[tuple[int, int]]) -> jnp.ndarray:
-- 
2.43.0


From 8cf93668db861ee6be850e6c275e102f0931e20b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:49 +0000
Subject: [PATCH 05/41] fix: bind arrays whose memory is owned by a non-NumPy
 object

---
 ein/backend/numpy_backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ein/backend/numpy_backend.py b/ein/backend/numpy_backend.py
index 00ae828..cd47f6d 100644
--- a/ein/backend/numpy_backend.py
+++ b/ein/backend/numpy_backend.py
@@ -19,7 +19,7 @@ class NumpyBackend(AbstractArrayBackend[numpy.ndarray]):
         return value.array
 
     def preprocess_bound(self, target: numpy.ndarray) -> numpy.ndarray:
-        if target.base is not None:
+        if isinstance(target.base, numpy.ndarray):
             base = target.base.strides
             # Memory order non-monotonic
             if any(x < y for x, y in zip(base, base[1:])):
-- 
2.43.0


From e823795f15ed8c67b911fc54b7cd365ff0bec93a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:07 +0000
Subject: [PATCH 06/41] fix: keep slice-pad indexing within arrays for
 out-of-range bounds and empty arrays

---
 ein/codegen/array_indexing.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/ein/codegen/array_indexing.py b/ein/codegen/array_indexing.py
index 8eab888..4ff723e 100644
--- a/ein/codegen/array_indexing.py
+++ b/ein/codegen/array_indexing.py
@@ -86,17 +86,24 @@ def transform_get(
             if use_slice_elision and is_trivial and size_class.equiv(index, dim):
                 return Axial(axes, target.expr)
             if use_slice_pads:
-                zero = Builder.const(0).expr
+                zero = Builder.const(0)
                 size = index_sizes[index]
-                dim1 = (Builder(go(dim).normal) - Builder.const(1)).expr
+                dim1 = Builder(go(dim).normal) - Builder.const(1)
+
+                def bound(expr: phi.Expr | None, default: Builder) -> yarr.Expr:
+                    # Explicit bounds may lie outside the array
+                    if expr is None:
+                        return default.expr
+                    return Builder(go(expr).normal).max(zero).min(dim1).expr
+
                 return Axial(
                     axes,
                     pad_slice_get(
                         target.expr,
                         target.positional_axis(0),
-                        go(shift).normal if shift is not None else zero,
-                        go(low).normal if low is not None else zero,
-                        go(high).normal if high is not None else dim1,
+                        go(shift).normal if shift is not None else zero.expr,
+                        bound(low, zero),
+                        bound(high, dim1),
                         size,
                     ),
                 )
@@ -139,9 +146,10 @@ def pad_slice_get(
     # using the operation
     #  b = pad(a[start:stop], (left, right))
     # (where indexing is along the selected axis)
-    start = shift.max(low).min(high)
-    stop = (shift + size - one).max(low).min(high) + one
-    left = (low - shift).max(zero).min(size - one)
+    # Both the array and the result may be empty, hence the outermost bounds.
+    start = shift.max(low).min(high).max(zero)
+    stop = ((shift + size - one).max(low).min(high) + one).min(start + size)
+    left = (low - shift).min(size - one).max(zero)
     right = size - (stop - start) - left
 
     return yarr.Pad(
-- 
2.43.0


From e87c3700d96102d508ba696bf81080a3502cd03c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:07 +0000
Subject: [PATCH 07/41] fix: index with accumulators that vary along
 comprehension axes

---
 ein/codegen/array_indexing.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ein/codegen/array_indexing.py b/ein/codegen/array_indexing.py
index 4ff723e..2ea8041 100644
--- a/ein/codegen/array_indexing.py
+++ b/ein/codegen/array_indexing.py
@@ -80,7 +80,11 @@ def transform_get(
     if use_slice_pads and ts is not None:
         index, (shift, low, high) = ts
         axes = target._axes + (index,)
-        if index not in target_.free_indices:
+        # Accumulators may vary along axes which do not occur as free indices
+        varies = index in target._axes or any(
+            go(offset)._axes for offset in (shift, low, high) if offset is not None
+        )
+        if index not in target_.free_indices and not varies:
             is_trivial = {shift, low, high} == {None}
             dim = _dim_of(target_, 0)
             if use_slice_elision and is_trivial and size_class.equiv(index, dim):
-- 
2.43.0


From 86e78d08e6800061e329a5614a83366665261394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:07 +0000
Subject: [PATCH 08/41] fix: edge padding in the NumPy backend keeps the dtype
 and shape

---
 ein/backend/numpy_backend.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ein/backend/numpy_backend.py b/ein/backend/numpy_backend.py
index cd47f6d..c6dc985 100644
--- a/ein/backend/numpy_backend.py
+++ b/ein/backend/numpy_backend.py
@@ -91,11 +91,14 @@ def fast_edge_pad(
     target: numpy.ndarray, pads: tuple[tuple[int, int], ...]
 ) -> numpy.ndarray:
     if not target.size:
-        return numpy.empty(tuple(lt + rt for lt, rt in pads))
+        shape = [d + lt + rt for d, (lt, rt) in zip(target.shape, pads)]
+        return numpy.zeros(shape, target.dtype)
     if sum(lt + rt for lt, rt in pads) == 0:
         return target.copy()
     if all(not (lt and rt) for lt, rt in pads):
-        res = numpy.empty([d + lt + rt for d, (lt, rt) in zip(target.shape, pads)])
+        res = numpy.empty(
+            [d + lt + rt for d, (lt, rt) in zip(target.shape, pads)], target.dtype
+        )
         edge_index: list[int | numpy.ndarray | slice] = []
         edge_unsqueeze: list[None | slice] = []
         dest: list[slice] = []
-- 
2.43.0


From 89058cdee77fb3d5a86b68c5b7be670e093efc4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:49 +0000
Subject: [PATCH 09/41] fix: torch padding of any rank, broadcasting gathers
 and indexing into empty tensors

---
 ein/backend/torch_backend.py | 42 ++++++++++++++++++++++++++----------
 1 file changed, 31 insertions(+), 11 deletions(-)

diff --git a/ein/backend/torch_backend.py b/ein/backend/torch_backend.py
index 7141a88..ff6a7ea 100644
--- a/ein/backend/torch_backend.py
+++ b/ein/backend/torch_backend.py
@@ -1,4 +1,3 @@
-import itertools
 from functools import cache
 from typing import Any, Callable, Optional, Sequence, TypeAlias, cast
 
@@ -66,12 +65,27 @@ class TorchBackend(AbstractArrayBackend[torch.Tensor]):
     def gather(
         self, target: torch.Tensor, item: torch.Tensor, axis: int
     ) -> torch.Tensor:
-        return torch.gather(target, axis, torch.clip(item, 0, target.shape[axis] - 1))
+        target = with_nonempty_axis(target, axis)
+        item = torch.clip(item, 0, target.shape[axis] - 1)
+        # Unlike in NumPy, gather does not broadcast the other axes
+        shape = list(
+            torch.broadcast_shapes(
+                target.shape[:axis] + (1,) + target.shape[axis + 1 :],
+                item.shape[:axis] + (1,) + item.shape[axis + 1 :],
+            )
+        )
+        shape[axis] = target.shape[axis]
+        target = target.expand(shape)
+        shape[axis] = item.shape[axis]
+        return torch.gather(target, axis, item.expand(shape))
 
     def take(
         self, target: torch.Tensor, items: Sequence[Optional[torch.Tensor]]
     ) -> torch.Tensor:
         SLICE_NONE = slice(None)
+        for axis, item in enumerate(items):
+            if item is not None:
+                target = with_nonempty_axis(target, axis)
         it = (
             torch.clip(item, 0, dim - 1) if item is not None else SLICE_NONE
             for dim, item in zip(target.shape, items)
@@ -84,15 +98,14 @@ class TorchBackend(AbstractArrayBackend[torch.Tensor]):
     def pad(
         self, target: torch.Tensor, pads: Sequence[tuple[int, int]]
     ) -> torch.Tensor:
-        return (
-            torch.nn.functional.pad(
-                target.unsqueeze(0).unsqueeze(0),
-                tuple(itertools.chain(*pads)),
-                mode="replicate",
-            )
-            .squeeze(0)
-            .squeeze(0)
-        )
+        for axis, (left, right) in enumerate(pads):
+            if left or right:
+                dim = target.shape[axis]
+                index = torch.arange(-int(left), dim + int(right))
+                target = with_nonempty_axis(target, axis).index_select(
+                    axis, index.clip(0, max(dim - 1, 0))
+                )
+        return target
 
     def repeat(
         self, target: torch.Tensor, count: torch.Tensor, axis: int
@@ -106,6 +119,13 @@ class TorchBackend(AbstractArrayBackend[torch.Tensor]):
 INSTANCE = TorchBackend()
 
 
+def with_nonempty_axis(tensor, axis):
+    # Indexing into an empty array has no meaningful value, but does have a shape
+    if tensor.shape[axis]:
+        return tensor
+    return tensor.new_zeros(tensor.shape[:axis] + (1,) + tensor.shape[axis + 1 :])
+
+
 def squeeze_axes(tensor, axes):
     for axis in axes:
         tensor = tensor.squeeze(axis)
-- 
2.43.0


From 700359997976a56af33a5a6da3956dc30296f490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:49 +0000
Subject: [PATCH 10/41] fix: indexing into empty arrays (or_empty) in the NumPy
 and JAX backends

---
 ein/backend/jax_backend.py   | 16 ++++++++++++++++
 ein/backend/numpy_backend.py | 13 +++++++++++++
 2 files changed, 29 insertions(+)

diff --git a/ein/backend/jax_backend.py b/ein/backend/jax_backend.py
index 692bc7c..586f425 100644
--- a/ein/backend/jax_backend.py
+++ b/ein/backend/jax_backend.py
@@ -68,6 +68,7 @@ class JaxBackend(AbstractArrayBackend[jnp.ndarray]):
         return jnp.expand_dims(target, axes)
 
     def gather(self, target: jnp.ndarray, item: jnp.ndarray, axis: int) -> jnp.ndarray:
+        target = with_nonempty_axis(target, axis)
         return jnp.take_along_axis(
             target, jnp.clip(item, 0, target.shape[axis] - 1), axis
         )
@@ -76,6 +77,9 @@ class JaxBackend(AbstractArrayBackend[jnp.ndarray]):
         self, target: jnp.ndarray, items: Sequence[Optional[jnp.ndarray]]
     ) -> jnp.ndarray:
         SLICE_NONE = slice(None)
+        for axis, item in enumerate(items):
+            if item is not None:
+                target = with_nonempty_axis(target, axis)
         it: Any = (
             jnp.clip(item, 0, dim - 1) if item is not None else SLICE_NONE
             for dim, item in zip(target.shape, items)
@@ -86,6 +90,9 @@ class JaxBackend(AbstractArrayBackend[jnp.ndarray]):
         return target[*slices]
 
     def pad(self, target: jnp.ndarray, pads: Sequence[tuple[int, int]]) -> jnp.ndarray:
+        if not target.size:
+            shape = [d + int(lt) + int(rt) for d, (lt, rt) in zip(target.shape, pads)]
+            return jnp.zeros(shape, target.dtype)
         return jnp.pad(target, pads, mode="edge")  # type: ignore
 
     def repeat(self, target: jnp.ndarray, count: jnp.ndarray, axis: int) -> jnp.ndarray:
@@ -160,6 +167,15 @@ class JaxBackend(AbstractArrayBackend[jnp.ndarray]):
 INSTANCE = JaxBackend()
 
 
+def with_nonempty_axis(target: jnp.ndarray, axis: int) -> jnp.ndarray:
+    # Indexing into an empty array has no meaningful value, but does have a shape
+    if target.shape[axis]:
+        return target
+    return jnp.zeros(
+        target.shape[:axis] + (1,) + target.shape[axis + 1 :], target.dtype
+    )
+
+
 def stage_in_array(
     program: yarr.Expr,
 ) -> Callable[[Env], jnp.ndarray | tuple[jnp.ndarray, ...]]:
diff --git a/ein/backend/numpy_backend.py b/ein/backend/numpy_backend.py
index c6dc985..5789013 100644
--- a/ein/backend/numpy_backend.py
+++ b/ein/backend/numpy_backend.py
@@ -49,6 +49,7 @@ class NumpyBackend(AbstractArrayBackend[numpy.ndarray]):
     def gather(
         self, target: numpy.ndarray, item: numpy.ndarray, axis: int
     ) -> numpy.ndarray:
+        target = with_nonempty_axis(target, axis)
         return numpy.take_along_axis(
             target, numpy.clip(item, 0, target.shape[axis] - 1), axis
         )
@@ -57,6 +58,9 @@ class NumpyBackend(AbstractArrayBackend[numpy.ndarray]):
         self, target: numpy.ndarray, items: Sequence[numpy.ndarray | None]
     ) -> numpy.ndarray:
         SLICE_NONE = slice(None)
+        for axis, item in enumerate(items):
+            if item is not None:
+                target = with_nonempty_axis(target, axis)
         it: Any = (
             numpy.clip(item, 0, dim - 1) if item is not None else SLICE_NONE
             for dim, item in zip(target.shape, items)
@@ -87,6 +91,15 @@ class NumpyBackend(AbstractArrayBackend[numpy.ndarray]):
 INSTANCE = NumpyBackend()
 
 
+def with_nonempty_axis(target: numpy.ndarray, axis: int) -> numpy.ndarray:
+    # Indexing into an empty array has no meaningful value, but does have a shape
+    if target.shape[axis]:
+        return target
+    return numpy.zeros(
+        target.shape[:axis] + (1,) + target.shape[axis + 1 :], target.dtype
+    )
+
+
 def fast_edge_pad(
     target: numpy.ndarray, pads: tuple[tuple[int, int], ...]
 ) -> numpy.ndarray:
-- 
2.43.0


From 221da15d4b6f52f7ac2804aebc6cf4ee6c4db808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:03 +0000
Subject: [PATCH 11/41] fix: only reuse temporaries in-place when they can hold
 the result

---
 ein/backend/numpy_backend.py | 12 ++++++++----
 ein/codegen/phi_to_yarr.py   |  9 ++++-----
 2 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/ein/backend/numpy_backend.py b/ein/backend/numpy_backend.py
index 5789013..a603437 100644
--- a/ein/backend/numpy_backend.py
+++ b/ein/backend/numpy_backend.py
@@ -167,15 +167,19 @@ def stage_in_array(
                 if inplace == 0:
 
                     def call_to_first(env: Env) -> numpy.ndarray:
-                        out = first(env)
-                        return call(out, second(env), out=out)
+                        out, other = first(env), second(env)
+                        if numpy.result_type(out, other) != out.dtype:
+                            return call(out, other)
+                        return call(out, other, out=out)
 
                     return call_to_first
                 elif inplace == 1:
 
                     def call_to_second(env: Env) -> numpy.ndarray:
-                        out = second(env)
-                        return call(first(env), out, out=out)
+                        out, other = second(env), first(env)
+                        if numpy.result_type(other, out) != out.dtype:
+                            return call(other, out)
+                        return call(other, out, out=out)
 
                     return call_to_second
                 return lambda env: call(first(env), second(env))
diff --git a/ein/codegen/phi_to_yarr.py b/ein/codegen/phi_to_yarr.py
index 63d372e..52e9cea 100644
--- a/ein/codegen/phi_to_yarr.py
+++ b/ein/codegen/phi_to_yarr.py
@@ -546,12 +546,11 @@ def apply_inplace_on_temporaries(program: yarr.Expr) -> yarr.Expr:
             case yarr.BinaryElementwise(kind, first, second, None):
                 # This logic is really shaky and interacts with optimisations to the number of axis manipulation calls.
                 # Should have more in-depth analysis on what broadcasting might occur
-                rank = expr.type.single.rank
-                rank1, rank2 = first.type.single.rank, second.type.single.rank
-                if rank:
-                    if rank == rank1 and isinstance(first, TEMPORARIES):
+                # Comparisons do not have the type of their operands, so these cannot hold their result.
+                if expr.type.single.rank:
+                    if expr.type == first.type and isinstance(first, TEMPORARIES):
                         return yarr.BinaryElementwise(kind, first, second, 0)
-                    if rank == rank2 and isinstance(second, TEMPORARIES):
+                    if expr.type == second.type and isinstance(second, TEMPORARIES):
                         return yarr.BinaryElementwise(kind, first, second, 1)
         return expr
 
-- 
2.43.0


From 63af59c18d5d24a5200c40fa6132fabddd041ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:19 +0000
Subject: [PATCH 12/41] fix: minimum and maximum reductions over empty ranges

---
 ein/backend/jax_backend.py   |  3 ++-
 ein/backend/numpy_backend.py |  3 ++-
 ein/backend/torch_backend.py | 12 +++++++++++-
 ein/codegen/yarr.py          |  5 +++++
 4 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/ein/backend/jax_backend.py b/ein/backend/jax_backend.py
index 586f425..ddf97d5 100644
--- a/ein/backend/jax_backend.py
+++ b/ein/backend/jax_backend.py
@@ -191,7 +191,8 @@ def stage_in_array(
             case yarr.ReduceAxis(kind, axis, target_):
                 target = go(target_)
                 call = REDUCE[kind]
-                return lambda env: call(target(env), axis=axis)
+                initial = yarr.REDUCE_INITIAL[kind]
+                return lambda env: call(target(env), axis=axis, initial=initial)
             case yarr.Cast(dtype, target_):
                 target = go(target_)
                 return lambda env: target(env).astype(dtype)
diff --git a/ein/backend/numpy_backend.py b/ein/backend/numpy_backend.py
index a603437..17eb49e 100644
--- a/ein/backend/numpy_backend.py
+++ b/ein/backend/numpy_backend.py
@@ -153,7 +153,8 @@ def stage_in_array(
             case yarr.ReduceAxis(kind, axis, target_):
                 target = go(target_)
                 call = yarr.REDUCE_KINDS[kind].reduce
-                return lambda env: call(target(env), axis=axis)
+                initial = yarr.REDUCE_INITIAL[kind]
+                return lambda env: call(target(env), axis=axis, initial=initial)
             case yarr.Cast(dtype, target_):
                 target = go(target_)
                 return lambda env: target(env).astype(dtype)
diff --git a/ein/backend/torch_backend.py b/ein/backend/torch_backend.py
index ff6a7ea..0d96604 100644
--- a/ein/backend/torch_backend.py
+++ b/ein/backend/torch_backend.py
@@ -153,7 +153,17 @@ def stage_in_array(
             case yarr.ReduceAxis(kind, axis, target_):
                 target = go(target_)
                 call = REDUCE[kind]
-                return lambda env: call(target(env), axis=axis)
+                initial = yarr.REDUCE_INITIAL[kind]
+
+                def call_reduce(env: Env) -> torch.Tensor:
+                    arr = target(env)
+                    if not arr.shape[axis]:
+                        return arr.new_full(
+                            arr.shape[:axis] + arr.shape[axis + 1 :], initial
+                        )
+                    return call(arr, axis=axis)
+
+                return call_reduce
             case yarr.Cast(dtype, target_):
                 target = go(target_)
                 return lambda env: target(env).to(dtype)
diff --git a/ein/codegen/yarr.py b/ein/codegen/yarr.py
index fd025ec..ab1830f 100644
--- a/ein/codegen/yarr.py
+++ b/ein/codegen/yarr.py
@@ -763,6 +763,11 @@ REDUCE_UNDERLYING: dict[Any, Any] = {
     ReduceAxis.Kind.minimum: BinaryElementwise.Kind.minimum,
     ReduceAxis.Kind.maximum: BinaryElementwise.Kind.maximum,
 }
+REDUCE_INITIAL: dict[Any, float] = {
+    ReduceAxis.Kind.add: 0.0,
+    ReduceAxis.Kind.minimum: float("+inf"),
+    ReduceAxis.Kind.maximum: float("-inf"),
+}
 
 ELEMENTWISE_UFUNCS: dict[Any, Any] = {
     numpy.negative: partial(UnaryElementwise, UnaryElementwise.Kind.negative),
-- 
2.43.0


From c2234232807bcb1b27ae2fb57910643becb08d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:19 +0000
Subject: [PATCH 13/41] fix: folds whose summand uses the accumulator are not
 reductions

---
 ein/codegen/phi_to_yarr.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ein/codegen/phi_to_yarr.py b/ein/codegen/phi_to_yarr.py
index 52e9cea..c4ac182 100644
--- a/ein/codegen/phi_to_yarr.py
+++ b/ein/codegen/phi_to_yarr.py
@@ -390,9 +390,13 @@ def match_reduction_by_body(
         if isinstance(body, typ):
             first, second = body.operands
             if isinstance(first, phi.Store) and first.symbol == acc:
-                return second, kind
+                elem = second
             elif isinstance(second, phi.Store) and second.symbol == acc:
-                return first, kind
+                elem = first
+            else:
+                continue
+            # The accumulator may only be combined with, not used by the elements
+            return (elem, kind) if acc not in elem.free_symbols else None
     return None
 
 
-- 
2.43.0


From 25b14b778cbffad0cda11a93ff740d11953ed8cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:08 +0000
Subject: [PATCH 14/41] fix: einsum lifting multiplies summands that do not
 vary with a counter by its count

---
 ein/codegen/phi_to_yarr.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/ein/codegen/phi_to_yarr.py b/ein/codegen/phi_to_yarr.py
index c4ac182..8e0111c 100644
--- a/ein/codegen/phi_to_yarr.py
+++ b/ein/codegen/phi_to_yarr.py
@@ -117,6 +117,13 @@ def transform(
                                 for operand in with_realised
                             ]
                             operand_axes = [operand._axes for operand in axial_operands]
+                            # An operand need not vary along a counter it mentions
+                            if any(
+                                any(counter in operand.free_symbols for operand in args)
+                                and not any(index in axes for axes in operand_axes)
+                                for counter, index in realised_counter.items()
+                            ):
+                                return None
                             result_axes = tuple(
                                 index
                                 for index in axial._alignment(*operand_axes)
@@ -496,7 +503,15 @@ class Dot:
         match expr:
             case phi.Fold() if (summation := match_summation(expr)) is not None:
                 counter, body = summation
-                return cls.lift(body).sum(counter, expr.size)
+                dot = cls.lift(body)
+                # Summands are contracted over the counters they depend on,
+                # so a summand without the counter would only be added once.
+                if all(
+                    any(counter in e.free_symbols for e in p) for p in dot.products
+                ) and not any(
+                    counter in size.free_symbols for size in dot.contract.values()
+                ):
+                    return dot.sum(counter, expr.size)
             case phi.Add((first, second)):
                 return cls.lift(first) + cls.lift(second)
             case phi.Negate((target,)):
-- 
2.43.0


From f7ccda9a65d415c165fce111871b4626f3610455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:54 +0000
Subject: [PATCH 15/41] fix: align accumulators, records and reduction bodies
 along every axis they vary over

---
 ein/codegen/axial.py       |  8 +++---
 ein/codegen/phi_to_yarr.py | 51 ++++++++++++++++++++++++++++----------
 2 files changed, 43 insertions(+), 16 deletions(-)

diff --git a/ein/codegen/axial.py b/ein/codegen/axial.py
index d416cb9..2776c56 100644
--- a/ein/codegen/axial.py
+++ b/ein/codegen/axial.py
@@ -82,12 +82,14 @@ class Axial:
         *rest, (var, bind) = args
         return Axial(self._axes, yarr.Let(var, bind, self.expr)).within(*rest)
 
-    def cons(self, other: "Axial") -> "Axial":
+    def cons(
+        self, other: "Axial", *, repeats: dict[Axis, yarr.Expr] | None = None
+    ) -> "Axial":
         n = len(self.expr.type.elems)
         m = len(other.expr.type.elems)
         axes = _alignment(self._axes, other._axes)
-        self_expr = self.aligned(axes)
-        other_expr = other.aligned(axes)
+        self_expr = self.aligned(axes, repeats=repeats)
+        other_expr = other.aligned(axes, repeats=repeats)
         return Axial(
             axes,
             tuple_maybe_singleton(
diff --git a/ein/codegen/phi_to_yarr.py b/ein/codegen/phi_to_yarr.py
index 8e0111c..5c6dc79 100644
--- a/ein/codegen/phi_to_yarr.py
+++ b/ein/codegen/phi_to_yarr.py
@@ -138,6 +138,7 @@ def transform(
                                 ),
                             )
 
+                        pre_einsum = transformed.copy()
                         summands: list[Axial] = []
                         for curr in dot.products:
                             in_array = go_product(*curr)
@@ -158,6 +159,9 @@ def transform(
                                     ),
                                 ),
                             )
+                        # Forget any accumulators that vary along the realised counters
+                        transformed.clear()
+                        transformed.update(pre_einsum)
                 if use_reductions:
                     reduced = match_reduction(
                         *(counter, size_, acc, init_, body_, size_class),  #
@@ -174,11 +178,14 @@ def transform(
                 #  Doing this by constructing the body twice is a really bad idea.
                 #  But just using body.free_indices isn't deterministic enough.
                 pre_transformed = transformed.copy()
-                acc_axes = go(
-                    body_,
-                    index_sizes,
-                    var_axes | {acc: init._axes},
-                )._axes
+                acc_axes = axial._alignment(
+                    go(
+                        body_,
+                        index_sizes,
+                        var_axes | {acc: init._axes},
+                    )._axes,
+                    init._axes,
+                )
                 transformed.clear()
                 transformed.update(pre_transformed)
                 body = go(
@@ -193,7 +200,7 @@ def transform(
                         size.normal,
                         acc,
                         init.aligned(acc_axes, repeats=index_sizes),
-                        body.aligned(acc_axes),
+                        body.aligned(acc_axes, repeats=index_sizes),
                     ),
                 )
             case phi.Reduce(init_, x, y, xy_, vecs_):
@@ -203,17 +210,28 @@ def transform(
                 # FIXME: Like for Fold, we trace the body twice to get a deterministic choice of axes.
                 some_axes = axial._alignment(init._axes, *(vec._axes for vec in vecs))
                 pre_transformed = transformed.copy()
-                axes = go(
-                    xy_, index_sizes, var_axes | {x: some_axes, y: some_axes}
-                )._axes
+                axes = axial._alignment(
+                    go(
+                        xy_, index_sizes, var_axes | {x: some_axes, y: some_axes}
+                    )._axes,
+                    some_axes,
+                )
                 transformed.clear()
                 transformed.update(pre_transformed)
 
                 # Insert the batch axis to be the first one before ones reduced
                 #   this is a convenient choice, as [vecs] also follow it
                 #   (their outermost axis is reduced, so this inserted axis corresponds to it)
-                xy_axes = (*axes, Index())
-                xy = go(xy_, index_sizes, var_axes | {x: xy_axes, y: xy_axes})
+                batch = Index()
+                xy_axes = (*axes, batch)
+                x_var = yarr.Var(
+                    x, init_.type.primitive_type.with_rank_delta(+len(xy_axes))
+                )
+                batch_size = yarr.Dim(
+                    len(axes), axial.untuple_maybe_singleton(x_var, 0)
+                )
+                xy_sizes = index_sizes | {batch: batch_size}
+                xy = go(xy_, xy_sizes, var_axes | {x: xy_axes, y: xy_axes})
 
                 # FIXME: There's probably something wrong here.
                 init_expr = init.aligned(axes, repeats=index_sizes)
@@ -226,7 +244,14 @@ def transform(
                 )
                 return Axial(
                     axes,
-                    yarr.Reduce(init_expr, x, y, xy.expr, vecs_expr, len(axes)),
+                    yarr.Reduce(
+                        init_expr,
+                        x,
+                        y,
+                        xy.aligned(xy_axes, repeats=xy_sizes),
+                        vecs_expr,
+                        len(axes),
+                    ),
                 )
 
             case phi.Get(target_, item_):
@@ -281,7 +306,7 @@ def transform(
             case phi.Cons(first_, second_):
                 first = go(first_, index_sizes, var_axes)
                 second = go(second_, index_sizes, var_axes)
-                return first.cons(second)
+                return first.cons(second, repeats=index_sizes)
             case phi.First(target_):
                 assert isinstance(target_.type, Pair)
                 k = len(target_.type.first.primitive_type.elems)
-- 
2.43.0


From 6d9a1a3f868bd3350d96306fbf41e9ef3005f283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:44 +0000
Subject: [PATCH 16/41] fix: rename bound symbols when splitting a
 comprehension over record fields

---
 ein/midend/structs.py      | 10 +++++++---
 ein/midend/substitution.py | 38 ++++++++++++++++++++++++++++++++++++++
 2 files changed, 45 insertions(+), 3 deletions(-)

diff --git a/ein/midend/structs.py b/ein/midend/structs.py
index ee0052f..37827ab 100644
--- a/ein/midend/structs.py
+++ b/ein/midend/structs.py
@@ -20,7 +20,7 @@ from ein.phi.phi import (
 from ein.phi.type_system import Pair, Scalar, Type, Vector
 from ein.symbols import Index
 
-from .substitution import substitute
+from .substitution import substitute, substitute_renaming
 
 F = TypeVar("F")
 
@@ -103,8 +103,12 @@ def struct_of_arrays_transform(program: Expr):
                 size, body = go(size), go(body)
                 if isinstance(body.type, Pair):
                     i, j = Index(), Index()
-                    body1 = cast(Expr, substitute(First(body), {index: at(i)}))
-                    body2 = cast(Expr, substitute(Second(body), {index: at(j)}))
+                    body1 = cast(
+                        Expr, substitute_renaming(First(body), {index: at(i)})
+                    )
+                    body2 = cast(
+                        Expr, substitute_renaming(Second(body), {index: at(j)})
+                    )
                     return Cons(go(Vec(i, size, body1)), go(Vec(j, size, body2)))
 
             case Reduce(init, x, y, xy, vecs):
diff --git a/ein/midend/substitution.py b/ein/midend/substitution.py
index c2a19c0..7ee27ba 100644
--- a/ein/midend/substitution.py
+++ b/ein/midend/substitution.py
@@ -1,3 +1,4 @@
+import dataclasses
 from functools import cache
 from typing import Mapping
 
@@ -18,3 +19,40 @@ def substitute(term: Term, subs: Mapping[Symbol, Term]) -> Term:
         return t.map(go)
 
     return go(term)
+
+
+def substitute_renaming(term: Term, subs: Mapping[Symbol, Term]) -> Term:
+    # Like [substitute], but also gives fresh names to the symbols bound in terms it changes,
+    # so that they may coexist with the originals (e.g. under different axes).
+    names: dict[Symbol, Symbol] = {}
+
+    @cache
+    def visit(t: Term) -> None:
+        if t.free_symbols & set(subs):
+            names.update({bound: type(bound)() for bound in t.captured_symbols})
+            for sub in t.subterms:
+                visit(sub)
+
+    visit(term)
+    relevant_symbols = set(subs) | set(names)
+
+    @cache
+    def go(t: Term) -> Term:
+        symbol = t.unwrap_symbol()
+        if symbol is not None and symbol in subs:
+            return subs[symbol]
+        if symbol is not None and symbol in names:
+            return t.wrap_var(names[symbol])
+        if not t.free_symbols & relevant_symbols:
+            return t
+        t = t.map(go)
+        return dataclasses.replace(
+            t,
+            **{
+                field: names[value]
+                for field, value in t._fields
+                if isinstance(value, Symbol) and value in names
+            },
+        )
+
+    return go(term)
-- 
2.43.0


From 5479a59736e439d12c96189368221d1f00034374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:35 +0000
Subject: [PATCH 17/41] fix: JAX sizes usable as arrays and concrete inside
 loops

---
 ein/backend/jax_backend.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ein/backend/jax_backend.py b/ein/backend/jax_backend.py
index ddf97d5..a2429c0 100644
--- a/ein/backend/jax_backend.py
+++ b/ein/backend/jax_backend.py
@@ -48,7 +48,7 @@ class JaxBackend(AbstractArrayBackend[jnp.ndarray]):
         return target
 
     def dim(self, target: jnp.ndarray, axis: int) -> jnp.ndarray:
-        return target.shape[axis]
+        return jnp.asarray(target.shape[axis])
 
     def range(self, size: jnp.ndarray) -> jnp.ndarray:
         return jnp.arange(size)
@@ -113,7 +113,9 @@ class JaxBackend(AbstractArrayBackend[jnp.ndarray]):
             def jax_body(i, acc):
                 env[acc_var] = acc
                 env[index_var] = i
-                ret = body(env)
+                # Sizes have to remain concrete in the loop
+                with jax.ensure_compile_time_eval():
+                    ret = body(env)
                 del env[acc_var], env[index_var]
                 return ret
 
-- 
2.43.0


From 20bc991423a2ecd0cf11b0888f2dfad242d59fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:50 +0000
Subject: [PATCH 18/41] fix: rename symbols bound in inferred sizes and in
 terms under renamed binders

---
 ein/frontend/comprehension.py |  2 +-
 ein/midend/size_classes.py    |  9 ++++++---
 ein/midend/substitution.py    | 25 ++++++++++++++++---------
 3 files changed, 23 insertions(+), 13 deletions(-)

diff --git a/ein/frontend/comprehension.py b/ein/frontend/comprehension.py
index ebce77c..b60654c 100644
--- a/ein/frontend/comprehension.py
+++ b/ein/frontend/comprehension.py
@@ -78,7 +78,7 @@ def _infer_sizes(
         # FIXME: This probably ends up non-deterministic in some way,
         #  and some candidates picked are worse than others.
         candidates = [
-            _with_indices_at_zero(candidate)
+            _with_indices_at_zero(candidate, renaming=True)
             for expr, captured in direct_indices.get(index, {}).items()
             for candidate in [_dim_of(expr)]
             if not candidate.free_symbols & captured
diff --git a/ein/midend/size_classes.py b/ein/midend/size_classes.py
index 5259e4b..393a82b 100644
--- a/ein/midend/size_classes.py
+++ b/ein/midend/size_classes.py
@@ -6,17 +6,20 @@ from ein.phi import phi
 from ein.symbols import Index, Symbol
 
 from .equiv import Equivalence
-from .substitution import substitute
+from .substitution import substitute, substitute_renaming
 
 T = TypeVar("T")
 S = TypeVar("S")
 
 
-def _with_indices_at_zero(expr: phi.Expr) -> phi.Expr:
+def _with_indices_at_zero(expr: phi.Expr, *, renaming: bool = False) -> phi.Expr:
+    # Renaming is needed if the result is to be part of the same program as [expr]
     subs: dict[Symbol, phi.Expr] = {
         index: phi.Const(phi.Value(0)) for index in expr.free_indices
     }
-    return cast(phi.Expr, substitute(expr, subs))
+    return cast(
+        phi.Expr, (substitute_renaming if renaming else substitute)(expr, subs)
+    )
 
 
 def _dim_of(expr: phi.Expr, axis: int = 0) -> phi.Expr:
diff --git a/ein/midend/substitution.py b/ein/midend/substitution.py
index 7ee27ba..71cb661 100644
--- a/ein/midend/substitution.py
+++ b/ein/midend/substitution.py
@@ -25,16 +25,23 @@ def substitute_renaming(term: Term, subs: Mapping[Symbol, Term]) -> Term:
     # Like [substitute], but also gives fresh names to the symbols bound in terms it changes,
     # so that they may coexist with the originals (e.g. under different axes).
     names: dict[Symbol, Symbol] = {}
+    relevant_symbols = set(subs)
 
-    @cache
-    def visit(t: Term) -> None:
-        if t.free_symbols & set(subs):
-            names.update({bound: type(bound)() for bound in t.captured_symbols})
-            for sub in t.subterms:
-                visit(sub)
-
-    visit(term)
-    relevant_symbols = set(subs) | set(names)
+    def visit(t: Term, seen: set[Term]) -> None:
+        if t in seen or not t.free_symbols & relevant_symbols:
+            return
+        seen.add(t)
+        for bound in t.captured_symbols - relevant_symbols:
+            # Terms that depend on a renamed symbol change as well
+            names[bound] = type(bound)()
+            relevant_symbols.add(bound)
+        for sub in t.subterms:
+            visit(sub, seen)
+
+    renamed = -1
+    while renamed != len(names):
+        renamed = len(names)
+        visit(term, set())
 
     @cache
     def go(t: Term) -> Term:
-- 
2.43.0


From 078777a01868f91aaa096577149891375fe2caf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:50 +0000
Subject: [PATCH 19/41] fix: arrays of records with several axes; split fields
 without transforming bodies again

---
 ein/midend/structs.py | 38 ++++++++++++++++++++++++--------------
 1 file changed, 24 insertions(+), 14 deletions(-)

diff --git a/ein/midend/structs.py b/ein/midend/structs.py
index 37827ab..09ff0aa 100644
--- a/ein/midend/structs.py
+++ b/ein/midend/structs.py
@@ -25,14 +25,17 @@ from .substitution import substitute, substitute_renaming
 F = TypeVar("F")
 
 
+def _soa_vector_type(elem: Type) -> Type:
+    if isinstance(elem, Pair):
+        return Pair(_soa_vector_type(elem.first), _soa_vector_type(elem.second))
+    return Vector(elem)
+
+
 def _soa_transform_type(type_: Type) -> Type:
     match type_:
-        case Vector(Pair(first, second)):
-            return Pair(
-                _soa_transform_type(Vector(first)), _soa_transform_type(Vector(second))
-            )
         case Vector(elem):
-            return Vector(_soa_transform_type(elem))
+            # Records inside of the elements are moved out as well
+            return _soa_vector_type(_soa_transform_type(elem))
         case Pair(first, second):
             return Pair(_soa_transform_type(first), _soa_transform_type(second))
         case Scalar():
@@ -101,15 +104,22 @@ def struct_of_arrays_transform(program: Expr):
 
             case Vec(index, size, body):
                 size, body = go(size), go(body)
-                if isinstance(body.type, Pair):
-                    i, j = Index(), Index()
-                    body1 = cast(
-                        Expr, substitute_renaming(First(body), {index: at(i)})
-                    )
-                    body2 = cast(
-                        Expr, substitute_renaming(Second(body), {index: at(j)})
-                    )
-                    return Cons(go(Vec(i, size, body1)), go(Vec(j, size, body2)))
+
+                # Fields are split after the body is transformed, rather than transforming it
+                # again, as this would put different terms under the same bound symbols.
+                def tuple_vec(index: Index, sub: Expr) -> Expr:
+                    match sub.type:
+                        case Pair():
+                            i, j = Index(), Index()
+                            first = substitute_renaming(First(sub), {index: at(i)})
+                            second = substitute_renaming(Second(sub), {index: at(j)})
+                            return Cons(
+                                tuple_vec(i, cast(Expr, first)),
+                                tuple_vec(j, cast(Expr, second)),
+                            )
+                    return Vec(index, size, sub)
+
+                return tuple_vec(index, body)
 
             case Reduce(init, x, y, xy, vecs):
                 init, xy = go(init), go(xy)
-- 
2.43.0


From 9024179ab826fbea0f06add371e1cf3030b24657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:17 +0000
Subject: [PATCH 20/41] fix: folds with negative counts run no iterations;
 reductions from varying accumulators

---
 ein/backend/naive.py       | 2 +-
 ein/codegen/phi_to_yarr.py | 6 ++++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/ein/backend/naive.py b/ein/backend/naive.py
index ea5150f..ef49447 100644
--- a/ein/backend/naive.py
+++ b/ein/backend/naive.py
@@ -30,7 +30,7 @@ def _interpret(expr: Expr, env: dict[Symbol, Value]) -> Value:
             for i in range(n):
                 env[counter] = Value(numpy.array(i))
                 env[acc_v] = _interpret(body, env)
-            if n:
+            if n > 0:
                 del env[counter]
             return env.pop(acc_v)
         case phi.Reduce(init, x, y, xy, vecs_):
diff --git a/ein/codegen/phi_to_yarr.py b/ein/codegen/phi_to_yarr.py
index 5c6dc79..3e945e5 100644
--- a/ein/codegen/phi_to_yarr.py
+++ b/ein/codegen/phi_to_yarr.py
@@ -447,6 +447,12 @@ def match_reduction(
     if red is None:
         return None
     elem, kind = red
+    # The initial value may also be an accumulator that varies along some axes
+    if go(init)._axes:
+        return None
+    # Without the counter there might be no array with this size, and it may be negative
+    if counter not in elem.free_symbols:
+        return None
     if not would_be_memory_considerate_axis(elem, counter, size, size_class):
         return None
     index = Index()
-- 
2.43.0


From 8756e6a7bcc144c960d44bb5afbe54cc3fbb7581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:50 +0000
Subject: [PATCH 21/41] fix: contractions and gathers of empty arrays in the
 torch and JAX backends

---
 ein/backend/jax_backend.py   |  5 +++++
 ein/backend/torch_backend.py | 11 ++++++++++-
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/ein/backend/jax_backend.py b/ein/backend/jax_backend.py
index a2429c0..4fe0ada 100644
--- a/ein/backend/jax_backend.py
+++ b/ein/backend/jax_backend.py
@@ -69,6 +69,11 @@ class JaxBackend(AbstractArrayBackend[jnp.ndarray]):
 
     def gather(self, target: jnp.ndarray, item: jnp.ndarray, axis: int) -> jnp.ndarray:
         target = with_nonempty_axis(target, axis)
+        shape = jnp.broadcast_shapes(
+            target.shape[:axis] + (1,) + target.shape[axis + 1 :], item.shape
+        )
+        if 0 in shape:
+            return jnp.zeros(shape, target.dtype)
         return jnp.take_along_axis(
             target, jnp.clip(item, 0, target.shape[axis] - 1), axis
         )
diff --git a/ein/backend/torch_backend.py b/ein/backend/torch_backend.py
index 0d96604..6086312 100644
--- a/ein/backend/torch_backend.py
+++ b/ein/backend/torch_backend.py
@@ -19,6 +19,7 @@ from .array_backend import AbstractArrayBackend
 
 try:
     import torch
+    from torch.backends import opt_einsum
 except ImportError:
 
     class MagicGetter:
@@ -26,6 +27,7 @@ except ImportError:
             return None
 
     torch = MagicGetter()  # type: ignore
+    opt_einsum = MagicGetter()  # type: ignore
 
 
 Env: TypeAlias = dict[Variable, torch.Tensor | tuple[torch.Tensor, ...]]
@@ -113,7 +115,14 @@ class TorchBackend(AbstractArrayBackend[torch.Tensor]):
         return torch.repeat_interleave(target, int(count), axis)
 
     def prepare_einsum(self, subs: str) -> Callable[..., torch.Tensor]:
-        return lambda *args: torch.einsum(subs, *args)
+        def einsum(*args: torch.Tensor) -> torch.Tensor:
+            if all(arg.numel() for arg in args):
+                return torch.einsum(subs, *args)
+            # Finding a contraction path fails for empty operands
+            with opt_einsum.flags(enabled=False):
+                return torch.einsum(subs, *args)
+
+        return einsum
 
 
 INSTANCE = TorchBackend()
-- 
2.43.0


From f359eb097b45d0154b9225b1cf6f91dabe717813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:26 +0000
Subject: [PATCH 22/41] fix: empty comprehensions keep their shape and dtype in
 the naive backend

---
 ein/backend/naive.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ein/backend/naive.py b/ein/backend/naive.py
index ef49447..e081dfb 100644
--- a/ein/backend/naive.py
+++ b/ein/backend/naive.py
@@ -16,6 +16,10 @@ def _interpret(expr: Expr, env: dict[Symbol, Value]) -> Value:
     match expr:
         case phi.Vec(index, size, body):
             evaluated_size = int(_interpret(size, env).array)
+            if evaluated_size <= 0:
+                # The shape and dtype of elements is only known from the body
+                elem = _interpret(body, env | {index: Value(numpy.array(0))}).array
+                return Value(numpy.empty((0, *elem.shape), elem.dtype))
             return Value(
                 numpy.array(
                     [
-- 
2.43.0


From 997d12ac711c2918623f3f9003afae3012df0f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:26 +0000
Subject: [PATCH 23/41] fix: JAX indexing with offsets that depend on values of
 variables

---
 ein/backend/jax_backend.py    |  2 +-
 ein/codegen/array_indexing.py | 18 ++++++++++++++++++
 ein/codegen/phi_to_yarr.py    |  2 ++
 3 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/ein/backend/jax_backend.py b/ein/backend/jax_backend.py
index 4fe0ada..3697910 100644
--- a/ein/backend/jax_backend.py
+++ b/ein/backend/jax_backend.py
@@ -227,7 +227,7 @@ def stage_in_array(
 def stage(
     program: phi.Expr,
 ) -> Callable[[dict[Variable, jnp.ndarray]], jnp.ndarray | tuple[jnp.ndarray, ...]]:
-    array_program = phi_to_yarr.transform(program)
+    array_program = phi_to_yarr.transform(program, use_dynamic_slices=False)
     with jax.ensure_compile_time_eval():
         staged = stage_in_array(array_program)
     free_vars = list(array_program.free_variables)
diff --git a/ein/codegen/array_indexing.py b/ein/codegen/array_indexing.py
index 2ea8041..76c5558 100644
--- a/ein/codegen/array_indexing.py
+++ b/ein/codegen/array_indexing.py
@@ -73,6 +73,7 @@ def transform_get(
     use_takes: bool,
     use_slice_pads: bool,
     use_slice_elision: bool,
+    use_dynamic_slices: bool,
 ) -> Axial:
     target = go(target_)
     rank = target.expr.type.single.rank
@@ -84,6 +85,13 @@ def transform_get(
         varies = index in target._axes or any(
             go(offset)._axes for offset in (shift, low, high) if offset is not None
         )
+        # Tracing needs shapes of slices to be known ahead of the values of variables
+        if not use_dynamic_slices and any(
+            _depends_on_values(offset)
+            for offset in (shift, low, high)
+            if offset is not None
+        ):
+            varies = True
         if index not in target_.free_indices and not varies:
             is_trivial = {shift, low, high} == {None}
             dim = _dim_of(target_, 0)
@@ -120,6 +128,16 @@ def transform_get(
     return general_get(target, item)
 
 
+@cache
+def _depends_on_values(expr: phi.Expr) -> bool:
+    match expr:
+        case phi.Dim():
+            return False
+        case phi.Store():
+            return True
+    return any(map(_depends_on_values, expr.subterms))
+
+
 def _put_at(n: int, p: int, x: T) -> tuple[T | None, ...]:
     return p * (None,) + (x,) + (n - p - 1) * (None,)
 
diff --git a/ein/codegen/phi_to_yarr.py b/ein/codegen/phi_to_yarr.py
index 3e945e5..6740c94 100644
--- a/ein/codegen/phi_to_yarr.py
+++ b/ein/codegen/phi_to_yarr.py
@@ -28,6 +28,7 @@ def transform(
     use_takes: bool = True,
     use_slice_pads: bool = True,
     use_slice_elision: bool = True,
+    use_dynamic_slices: bool = True,
     use_reductions: bool = True,
     use_einsum: bool = True,
     do_shape_cancellations: bool = True,
@@ -264,6 +265,7 @@ def transform(
                     use_takes=use_takes,
                     use_slice_pads=use_slice_pads,
                     use_slice_elision=use_slice_elision,
+                    use_dynamic_slices=use_dynamic_slices,
                 )
             case phi.Concat(first_, second_):
                 first = go(first_, index_sizes, var_axes)
-- 
2.43.0


From 2e33545983bea0be9b426ca90b33174bca301595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:10 +0000
Subject: [PATCH 24/41] fix: tanh of large arguments is not NaN

---
 ein/frontend/ndarray.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ein/frontend/ndarray.py b/ein/frontend/ndarray.py
index a9237b1..313ab1c 100644
--- a/ein/frontend/ndarray.py
+++ b/ein/frontend/ndarray.py
@@ -369,8 +369,8 @@ class Scalar(_Array):
         return Scalar(phi.Cos((self.expr,)))
 
     def tanh(self) -> "Scalar":
-        a, b = self.exp(), (-self).exp()
-        return (a - b) / (a + b)
+        # Written so that large arguments do not overflow into inf / inf
+        return 1.0 - 2.0 / ((self + self).exp() + 1.0)
 
 
 def ext(
-- 
2.43.0


From 5cdbbd1118d447320b79d38e9995e698ca82f4d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:10 +0000
Subject: [PATCH 25/41] fix: compare the layout of the fold body with the
 initialiser

---
 ein/frontend/comprehension.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ein/frontend/comprehension.py b/ein/frontend/comprehension.py
index b60654c..e95d0a5 100644
--- a/ein/frontend/comprehension.py
+++ b/ein/frontend/comprehension.py
@@ -161,7 +161,7 @@ def fold(init: T, step: _WithIndex[T], count: Size | None = None) -> T:
     acc = phi.variable(Variable(), init_expr.type)
     arg_acc = _to_array(acc, layout)
     body = step(arg_index, arg_acc)
-    layout_ = build_layout(init, lambda a: wrap(a).layout)
+    layout_ = build_layout(body, lambda a: wrap(a).layout)
     if layout != layout_:
         raise ValueError(
             f"Expected initialiser and fold body layouts to match, "
-- 
2.43.0


From 842fc44ad2155396f62fc0e108891cd238ccc661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:11 +0000
Subject: [PATCH 26/41] fix: parenthesise conditionals that are operands when
 printing

---
 ein/debug/pprint.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/ein/debug/pprint.py b/ein/debug/pprint.py
index 47ede5c..8f29618 100644
--- a/ein/debug/pprint.py
+++ b/ein/debug/pprint.py
@@ -225,15 +225,18 @@ def _pretty_phi(expr: phi.Expr, par: bool) -> Repr:
                 "", _pretty_phi(first, False), _pretty_phi(second, False)
             )
         case phi.Where((cond, true, false)):
-            return Concat(
-                (
-                    Line("if "),
-                    _pretty_phi(cond, False),
-                    Line(" then "),
-                    _pretty_phi(true, False),
-                    Line(" else "),
-                    _pretty_phi(false, False),
-                )
+            return pars(
+                Concat(
+                    (
+                        Line("if "),
+                        _pretty_phi(cond, False),
+                        Line(" then "),
+                        _pretty_phi(true, False),
+                        Line(" else "),
+                        _pretty_phi(false, False),
+                    )
+                ),
+                par,
             )
         case phi.AbstractScalarOperator(ops_):
             ops = [_pretty_phi(op, True) for op in ops_]
-- 
2.43.0


From 11358ff142e0523ab7507d84f2a7d457076482af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:11 +0000
Subject: [PATCH 27/41] fix: print programs with PyTorch and JAX constants

---
 ein/debug/pprint.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/ein/debug/pprint.py b/ein/debug/pprint.py
index 8f29618..d93648f 100644
--- a/ein/debug/pprint.py
+++ b/ein/debug/pprint.py
@@ -150,8 +150,7 @@ def _pretty_reduce(
 def _pretty_phi(expr: phi.Expr, par: bool) -> Repr:
     match expr:
         case phi.Const(value):
-            value = numpy.array(value.array).tolist()
-            return Line(str(value))
+            return Line(str(value.any_array.tolist()))
         case phi.Store(symbol, _):
             return Line(str(symbol))
         case phi.Let(var, bound, body):
@@ -254,8 +253,7 @@ def _pretty_phi(expr: phi.Expr, par: bool) -> Repr:
 def _pretty_yarr(expr: yarr.Expr, par: bool) -> Repr:
     match expr:
         case yarr.Const(value):
-            value = numpy.array(value.array).tolist()
-            return Line(str(value))
+            return Line(str(value.any_array.tolist()))
         case yarr.Var(var, _):
             return Line(str(var))
         case yarr.Let(var, bound, body):
-- 
2.43.0


From f5c448f0af6f603caf72c5452ccf6144e7165ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:11 +0000
Subject: [PATCH 28/41] fix: take the format of a saved graph from its file
 extension

---
 ein/debug/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ein/debug/graph.py b/ein/debug/graph.py
index bb1560e..7e3027c 100644
--- a/ein/debug/graph.py
+++ b/ein/debug/graph.py
@@ -91,7 +91,7 @@ def save_graph(dot: pydot.Dot, path: str, fmt: str | None = None) -> None:
     if fmt is None:
         path_no_ext, ext = os.path.splitext(path)
         if ext:
-            fmt = ext
+            fmt = ext[1:]
             path = path_no_ext
         else:
             fmt = "png"
-- 
2.43.0


From f22aafcee76185acc900b6af81c263ae80fbd081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:11 +0000
Subject: [PATCH 29/41] fix: do not cut escaped characters in graph labels

---
 ein/debug/graph.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/ein/debug/graph.py b/ein/debug/graph.py
index 7e3027c..3d10ce5 100644
--- a/ein/debug/graph.py
+++ b/ein/debug/graph.py
@@ -18,13 +18,14 @@ def _snip_limit(s: str, n: int) -> str:
 
 
 def _meta_value_repr(value: Any) -> str:
-    return _snip_limit(
-        str(
-            html.escape(repr(value))
+    # Escaped last, so that entities are not cut in half
+    return html.escape(
+        _snip_limit(
+            repr(value)
             if not hasattr(value, "__call__") or not hasattr(value, "__name__")
-            else value.__name__
-        ),
-        30,
+            else value.__name__,
+            30,
+        )
     )
 
 
-- 
2.43.0


From ad5eaef97a75f8d5515447a81636835a12590085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:56 +0000
Subject: [PATCH 30/41] fix: draw programs with external functions that have no
 name

---
 ein/phi/phi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ein/phi/phi.py b/ein/phi/phi.py
index b25d292..a215358 100644
--- a/ein/phi/phi.py
+++ b/ein/phi/phi.py
@@ -626,7 +626,7 @@ class Extrinsic(AbstractExpr):
 
     @property
     def debug(self) -> tuple[dict[str, Any], set[Expr]]:
-        return {"fun": self.fun.__name__}, {*self.operands}
+        return {"fun": getattr(self.fun, "__name__", repr(self.fun))}, {*self.operands}
 
     @cached_property
     def type(self) -> Type:
-- 
2.43.0


From b8b3151ae8cc7d9d14ea177f3669b0c6274e26fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:26 +0000
Subject: [PATCH 31/41] fix: do not compute in place in temporaries that are
 broadcast

---
 ein/backend/numpy_backend.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/ein/backend/numpy_backend.py b/ein/backend/numpy_backend.py
index 17eb49e..d825360 100644
--- a/ein/backend/numpy_backend.py
+++ b/ein/backend/numpy_backend.py
@@ -139,6 +139,14 @@ def fast_edge_pad(
     return numpy.pad(target, pads, mode="edge")  # type: ignore
 
 
+def can_hold_result(out: numpy.ndarray, other: numpy.ndarray) -> bool:
+    # Unit axes of a temporary may still be broadcast against the other operand
+    return (
+        numpy.result_type(out, other) == out.dtype
+        and numpy.broadcast_shapes(out.shape, other.shape) == out.shape
+    )
+
+
 def stage_in_array(
     program: yarr.Expr,
 ) -> Callable[[Env], numpy.ndarray | tuple[numpy.ndarray, ...]]:
@@ -169,7 +177,7 @@ def stage_in_array(
 
                     def call_to_first(env: Env) -> numpy.ndarray:
                         out, other = first(env), second(env)
-                        if numpy.result_type(out, other) != out.dtype:
+                        if not can_hold_result(out, other):
                             return call(out, other)
                         return call(out, other, out=out)
 
@@ -178,7 +186,7 @@ def stage_in_array(
 
                     def call_to_second(env: Env) -> numpy.ndarray:
                         out, other = second(env), first(env)
-                        if numpy.result_type(other, out) != out.dtype:
+                        if not can_hold_result(out, other):
                             return call(other, out)
                         return call(other, out, out=out)
 
-- 
2.43.0


From 1c82a9213fcf471b97512ff2922f6de9b08b875e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:15 +0000
Subject: [PATCH 32/41] fix: transpose scalars in the PyTorch backend

---
 ein/backend/torch_backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ein/backend/torch_backend.py b/ein/backend/torch_backend.py
index 6086312..8f2bf87 100644
--- a/ein/backend/torch_backend.py
+++ b/ein/backend/torch_backend.py
@@ -56,7 +56,7 @@ class TorchBackend(AbstractArrayBackend[torch.Tensor]):
     def transpose(
         self, target: torch.Tensor, permutation: tuple[int, ...]
     ) -> torch.Tensor:
-        return target.permute(*permutation)
+        return target.permute(permutation)
 
     def squeeze(self, target: torch.Tensor, axes: tuple[int, ...]) -> torch.Tensor:
         return squeeze_axes(target, axes)
-- 
2.43.0


From 3fc5f2137f6c0b2d472c35221eb9ecf2a3713415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:05 +0000
Subject: [PATCH 33/41] fix: outline a program with an unused binding of a free
 variable

---
 ein/midend/lining.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ein/midend/lining.py b/ein/midend/lining.py
index 8930878..0a9a01a 100644
--- a/ein/midend/lining.py
+++ b/ein/midend/lining.py
@@ -125,8 +125,9 @@ def outline(program: Term) -> Term:
 
         if tree:
             visit(prog)
+        # Symbols may only disappear, with bindings that were unused to begin with
         assert (
-            free_symbols == prog.free_symbols
+            prog.free_symbols <= free_symbols
         ), f"Internal error: free symbol set changed from {free_symbols} to {prog.free_symbols}"
 
     # Get rid of any existing let-bindings
-- 
2.43.0


From 058530b12714338b68be22de58c9a1b25e110699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:54:59 +0000
Subject: [PATCH 34/41] fix: folds that count the elements of a row of an array

---
 ein/codegen/phi_to_yarr.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ein/codegen/phi_to_yarr.py b/ein/codegen/phi_to_yarr.py
index 6740c94..18b41a2 100644
--- a/ein/codegen/phi_to_yarr.py
+++ b/ein/codegen/phi_to_yarr.py
@@ -445,6 +445,9 @@ def match_reduction(
 ) -> Axial | None:
     if init.type != Scalar(float) or init.free_indices:
         return None
+    # A dimension of an element of an array does not vary, but an axis may not have it as size
+    if size.free_indices:
+        return None
     red = match_reduction_by_body(body, acc)
     if red is None:
         return None
-- 
2.43.0


From eeffe54c2ccab5828d7fdb5635132edad7a515e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:21:50 +0000
Subject: [PATCH 35/41] fix: terms shared by a contraction and the rest of the
 program

---
 ein/codegen/phi_to_yarr.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ein/codegen/phi_to_yarr.py b/ein/codegen/phi_to_yarr.py
index 18b41a2..3b4a019 100644
--- a/ein/codegen/phi_to_yarr.py
+++ b/ein/codegen/phi_to_yarr.py
@@ -39,6 +39,11 @@ def transform(
     program = struct_of_arrays_transform(program)
     size_class = find_size_classes(program)
 
+    def forget(*variables: Variable) -> None:
+        # A term might be transformed again with other axes, if a counter around it is realised.
+        for expr in [e for e in transformed if not e.free_symbols.isdisjoint(variables)]:
+            del transformed[expr]
+
     def _go(
         expr: phi.Expr,
         index_sizes: dict[Index, yarr.Expr],
@@ -64,6 +69,7 @@ def transform(
                 raise NotImplementedError(f"Unhandled symbol of type {type(symbol)}")
             case phi.Let(var, bind_, body_):
                 bind = go(bind_, index_sizes, var_axes)
+                forget(var)
                 return go(
                     body_,
                     index_sizes,
@@ -178,6 +184,7 @@ def transform(
                 # FIXME: We need to establish an alignment that includes free indices from both init and body.
                 #  Doing this by constructing the body twice is a really bad idea.
                 #  But just using body.free_indices isn't deterministic enough.
+                forget(acc)
                 pre_transformed = transformed.copy()
                 acc_axes = axial._alignment(
                     go(
@@ -210,6 +217,7 @@ def transform(
 
                 # FIXME: Like for Fold, we trace the body twice to get a deterministic choice of axes.
                 some_axes = axial._alignment(init._axes, *(vec._axes for vec in vecs))
+                forget(x, y)
                 pre_transformed = transformed.copy()
                 axes = axial._alignment(
                     go(
-- 
2.43.0


From 447c20048e04a4229288a31cc72cb142c8f2b46b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:21:50 +0000
Subject: [PATCH 36/41] fix: sums over a counter that other loops inside count
 up to

---
 ein/codegen/phi_to_yarr.py | 37 ++++++++++++++++++++++++++++++++++++-
 1 file changed, 36 insertions(+), 1 deletion(-)

diff --git a/ein/codegen/phi_to_yarr.py b/ein/codegen/phi_to_yarr.py
index 3b4a019..dfa59b3 100644
--- a/ein/codegen/phi_to_yarr.py
+++ b/ein/codegen/phi_to_yarr.py
@@ -386,6 +386,41 @@ def cancel_tuple_ops(program: yarr.Expr) -> yarr.Expr:
     return go(program)
 
 
+def has_size_varying_with(body: phi.Expr, counter: Variable) -> bool:
+    # Sizes may not vary along axes, so an axis cannot take the place of such a counter.
+    varying: set[Symbol] = {counter}
+
+    @cache
+    def symbols_in_value(expr: phi.Expr) -> set[Symbol]:
+        match expr:
+            case phi.Dim():
+                return set()
+            case phi.Store(symbol, _):
+                return {symbol}
+        return set().union(*map(symbols_in_value, expr.subterms))
+
+    @cache
+    def go(expr: phi.Expr) -> bool:
+        match expr:
+            case phi.Let(var, bind, _body):
+                if bind.free_symbols & varying:
+                    varying.add(var)
+            case phi.Vec(_index, size, _body):
+                if size.free_symbols & varying:
+                    return True
+            case phi.Fold(_counter, size, acc, _init, _body):
+                if symbols_in_value(size) & varying:
+                    return True
+                if expr.free_symbols & varying:
+                    varying.add(acc)
+            case phi.Reduce(_init, x, y, _xy, _vecs):
+                if expr.free_symbols & varying:
+                    varying.update((x, y))
+        return any(map(go, expr.subterms))
+
+    return go(body)
+
+
 def would_be_memory_considerate_axis(
     body: phi.Expr,
     counter: Variable,
@@ -417,7 +452,7 @@ def would_be_memory_considerate_axis(
         return expr.map(go)
 
     go(body)
-    return ok
+    return ok and not has_size_varying_with(body, counter)
 
 
 def match_reduction_by_body(
-- 
2.43.0


From be40d76cbe9245d61e0932cbd7f9f8df56cbe13f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:27:09 +0000
Subject: [PATCH 37/41] fix: substitution does not touch symbols that are bound
 in the term

A sum that occurs both contracted and inside another loop had its counter
realised in both places, and the latter was counted once per element.
---
 ein/midend/substitution.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ein/midend/substitution.py b/ein/midend/substitution.py
index 71cb661..4ec27cf 100644
--- a/ein/midend/substitution.py
+++ b/ein/midend/substitution.py
@@ -16,6 +16,10 @@ def substitute(term: Term, subs: Mapping[Symbol, Term]) -> Term:
         symbol = t.unwrap_symbol()
         if symbol is not None and symbol in subs:
             return subs[symbol]
+        # Symbols that the term binds are not the ones substituted
+        bound = t.captured_symbols & relevant_symbols
+        if bound:
+            return substitute(t, {s: u for s, u in subs.items() if s not in bound})
         return t.map(go)
 
     return go(term)
-- 
2.43.0


From 025c1dce8533ecb18298dbd492ec0f2e2ba1984a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:27:30 +0000
Subject: [PATCH 38/41] fix: loops over narrow accumulators compile with JAX

The accumulator of a loop takes the type its body gives it.
---
 ein/backend/jax_backend.py | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/ein/backend/jax_backend.py b/ein/backend/jax_backend.py
index 3697910..bb056a2 100644
--- a/ein/backend/jax_backend.py
+++ b/ein/backend/jax_backend.py
@@ -21,6 +21,7 @@ try:
     import jax
     from jax import config
     from jax import numpy as jnp
+    from jax.tree_util import tree_leaves, tree_map
 
     config.update("jax_enable_x64", True)
 except ImportError:
@@ -124,7 +125,13 @@ class JaxBackend(AbstractArrayBackend[jnp.ndarray]):
                 del env[acc_var], env[index_var]
                 return ret
 
-            return jax.lax.fori_loop(0, jnp.maximum(count(env), 0), jax_body, init(env))
+            def typed_body(i, acc):
+                return tree_map(
+                    lambda x, a: jnp.asarray(x).astype(a.dtype), jax_body(i, acc), acc
+                )
+
+            acc = widen_accumulator(init(env), jax_body)
+            return jax.lax.fori_loop(0, jnp.maximum(count(env), 0), typed_body, acc)
 
         return jax_fold_impl
 
@@ -174,6 +181,21 @@ class JaxBackend(AbstractArrayBackend[jnp.ndarray]):
 INSTANCE = JaxBackend()
 
 
+def widen_accumulator(acc, body: Callable):
+    # A loop's accumulator keeps its type, which has to fit whatever the body makes of it
+    acc = tree_map(jnp.asarray, acc)
+    while any(x.dtype != bool and x.dtype.itemsize < 8 for x in tree_leaves(acc)):
+        wide = tree_map(
+            lambda x, y: x.astype(jnp.promote_types(x.dtype, y.dtype)),
+            acc,
+            jax.eval_shape(body, 0, acc),
+        )
+        if tree_map(lambda x: x.dtype, acc) == tree_map(lambda x: x.dtype, wide):
+            break
+        acc = wide
+    return acc
+
+
 def with_nonempty_axis(target: jnp.ndarray, axis: int) -> jnp.ndarray:
     # Indexing into an empty array has no meaningful value, but does have a shape
     if target.shape[axis]:
-- 
2.43.0


From ae9b0c34535db262e055814ee0b8739922acb608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:28:04 +0000
Subject: [PATCH 39/41] fix: contractions of different element types work with
 PyTorch

---
 ein/backend/torch_backend.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ein/backend/torch_backend.py b/ein/backend/torch_backend.py
index 8f2bf87..1307b5b 100644
--- a/ein/backend/torch_backend.py
+++ b/ein/backend/torch_backend.py
@@ -1,4 +1,4 @@
-from functools import cache
+from functools import cache, reduce
 from typing import Any, Callable, Optional, Sequence, TypeAlias, cast
 
 import numpy
@@ -116,6 +116,8 @@ class TorchBackend(AbstractArrayBackend[torch.Tensor]):
 
     def prepare_einsum(self, subs: str) -> Callable[..., torch.Tensor]:
         def einsum(*args: torch.Tensor) -> torch.Tensor:
+            dtype = reduce(torch.promote_types, (arg.dtype for arg in args))
+            args = tuple(arg.to(dtype) for arg in args)
             if all(arg.numel() for arg in args):
                 return torch.einsum(subs, *args)
             # Finding a contraction path fails for empty operands
-- 
2.43.0


From 00112b437dcc93622d720ec51c6df6f5a76c0e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:28:24 +0000
Subject: [PATCH 40/41] fix: positions may be read from arrays of narrow
 integers with PyTorch

---
 ein/backend/torch_backend.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ein/backend/torch_backend.py b/ein/backend/torch_backend.py
index 1307b5b..ebd3892 100644
--- a/ein/backend/torch_backend.py
+++ b/ein/backend/torch_backend.py
@@ -68,7 +68,7 @@ class TorchBackend(AbstractArrayBackend[torch.Tensor]):
         self, target: torch.Tensor, item: torch.Tensor, axis: int
     ) -> torch.Tensor:
         target = with_nonempty_axis(target, axis)
-        item = torch.clip(item, 0, target.shape[axis] - 1)
+        item = torch.clip(item.long(), 0, target.shape[axis] - 1)
         # Unlike in NumPy, gather does not broadcast the other axes
         shape = list(
             torch.broadcast_shapes(
@@ -89,7 +89,7 @@ class TorchBackend(AbstractArrayBackend[torch.Tensor]):
             if item is not None:
                 target = with_nonempty_axis(target, axis)
         it = (
-            torch.clip(item, 0, dim - 1) if item is not None else SLICE_NONE
+            torch.clip(item.long(), 0, dim - 1) if item is not None else SLICE_NONE
             for dim, item in zip(target.shape, items)
         )
         return target[*it]
-- 
2.43.0


From f1d3211d7ffce81c73d4c2c197ba44bb22a35a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:28:45 +0000
Subject: [PATCH 41/41] fix: arrays with negative strides can be used with
 PyTorch

---
 ein/backend/torch_backend.py | 11 +++++++++--
 ein/frontend/functions.py    |  4 ++--
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/ein/backend/torch_backend.py b/ein/backend/torch_backend.py
index ebd3892..89783a1 100644
--- a/ein/backend/torch_backend.py
+++ b/ein/backend/torch_backend.py
@@ -33,12 +33,19 @@ except ImportError:
 Env: TypeAlias = dict[Variable, torch.Tensor | tuple[torch.Tensor, ...]]
 
 
+def tensor_from_numpy(array: numpy.ndarray) -> torch.Tensor:
+    # Tensors share memory with arrays, but cannot have negative strides
+    if any(stride < 0 for stride in array.strides):
+        array = array.copy()
+    return torch.from_numpy(array)
+
+
 class TorchBackend(AbstractArrayBackend[torch.Tensor]):
     def constant(self, value: Value) -> torch.Tensor:
         if isinstance(value.value, torch.Tensor):
             return value.value
         array = value.array
-        ret = torch.from_numpy(array)
+        ret = tensor_from_numpy(array)
         return ret
 
     def preprocess_bound(self, target: torch.Tensor) -> torch.Tensor:
@@ -210,7 +217,7 @@ def interpret(
 ) -> torch.Tensor | tuple[torch.Tensor, ...]:
     return stage(program)(
         {
-            var: torch.from_numpy(numpy.asarray(arr))
+            var: tensor_from_numpy(numpy.asarray(arr))
             if not isinstance(arr, torch.Tensor)
             else arr
             for var, arr in env.items()
diff --git a/ein/frontend/functions.py b/ein/frontend/functions.py
index 1e3c5ee..94b90f2 100644
--- a/ein/frontend/functions.py
+++ b/ein/frontend/functions.py
@@ -56,10 +56,10 @@ class Function:
         return self._interpret(args, backend="numpy")
 
     def torch(self, *args: ndarray | _TorchTensor) -> _TorchTensor:
-        import torch
+        from ein.backend.torch_backend import tensor_from_numpy
 
         args = tuple(
-            arg if isinstance(arg, _TorchTensor) else torch.from_numpy(arg)
+            arg if isinstance(arg, _TorchTensor) else tensor_from_numpy(arg)
             for arg in args
         )
         return self._interpret(args, backend="torch")
-- 
2.43.0

