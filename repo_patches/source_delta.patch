From a5e51af3adf0031ad1b32c71091bd521097cce9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:50 +0000
Subject: [PATCH 01/19] fix: LICM hoists only out of blocks that run on every
 trip

A block that dominates every latch is still skipped by a trip that leaves the
loop early (a header test that fails at once). Hoisting a division from such a
block made zero-trip loops fault at the standard level only. Require the block
to dominate every exiting block as well.
---
 sonolus/backend/_opt/midend.pyx | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/sonolus/backend/_opt/midend.pyx b/sonolus/backend/_opt/midend.pyx
index 8c631f4..96470a8 100644
--- a/sonolus/backend/_opt/midend.pyx
+++ b/sonolus/backend/_opt/midend.pyx
@@ -3886,6 +3886,24 @@ def _licm_try_loop(Func f, Dominators D, LoopForest F, int32_t L):
     if not latches:
         return None
 
+    # exiting blocks: in-loop blocks that can leave the loop (an out-of-loop edge,
+    # or an implicit no-match exit: a block without a default edge). A block that
+    # dominates every latch but not these is skipped by a trip leaving early, e.g. the
+    # body of a loop whose header test fails at once.
+    exiting = []
+    for b in range(nb):
+        if not F.in_loop(L, b):
+            continue
+        has_default = False
+        leaves = False
+        for e in range(f.blocks[b].edge_start, f.blocks[b].edge_start + f.blocks[b].edge_count):
+            if f.edges[e].cond_kind == EDGE_COND_NONE:
+                has_default = True
+            if not F.in_loop(L, f.edges[e].dst):
+                leaves = True
+        if leaves or not has_default:
+            exiting.append(b)
+
     # invariant set: single forward pass over loop-body values (operands of a
     # non-phi value have strictly smaller ids, so one pass suffices; phis are
     # never invariant and break any cycle). The bitset walk visits vids ascending
@@ -3929,7 +3947,7 @@ def _licm_try_loop(Func f, Dominators D, LoopForest F, int32_t L):
                 if not _licm_hoist_kind(f, vid):
                     continue
                 guaranteed = True
-                for u in latches:
+                for u in latches + exiting:
                     if not D.dominates(b, u):
                         guaranteed = False
                         break
-- 
2.43.0


From c643baa4d5bea82eba85d814a88e7f9f5e79c609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:15 +0000
Subject: [PATCH 02/19] fix: run the else clause of for loops over tuples

---
 sonolus/script/internal/visitor.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sonolus/script/internal/visitor.py b/sonolus/script/internal/visitor.py
index b668946..144fcb3 100644
--- a/sonolus/script/internal/visitor.py
+++ b/sonolus/script/internal/visitor.py
@@ -767,6 +767,10 @@ class Visitor(ast.NodeVisitor):
                 continue_ctxs = [*self.loop_head_ctxs.pop(), ctx()]
                 break_ctxs.extend(self.break_ctxs.pop())
                 set_ctx(Context.meet(continue_ctxs))
+            for stmt in node.orelse:
+                if not ctx().live:
+                    break
+                self.visit(stmt)
             if break_ctxs:
                 set_ctx(Context.meet([*break_ctxs, ctx()]))
             return
-- 
2.43.0


From 07a710b5bfaeb4be39a55b3ab806af0582f13b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:59 +0000
Subject: [PATCH 03/19] fix: SCCP values only descend the lattice

---
 sonolus/backend/_opt/midend.pyx | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/sonolus/backend/_opt/midend.pyx b/sonolus/backend/_opt/midend.pyx
index 96470a8..e2d1c6a 100644
--- a/sonolus/backend/_opt/midend.pyx
+++ b/sonolus/backend/_opt/midend.pyx
@@ -2301,11 +2301,16 @@ cdef class _SCCP:
     # -- lattice helpers ---------------------------------------------------
 
     cdef bint _set_lat(self, int32_t v, int32_t kind, double cval, object sfz):
+        # Values only ever descend the lattice, or the propagation may not terminate:
+        # the 0 * x policy is not monotone (0 * -3 is -0.0, but 0 * BOTTOM is 0.0).
         cdef int32_t ok = <int32_t>self.lk[v]
+        if kind < ok:
+            return False
         if ok == kind:
             if kind == _LAT_CONST:
                 if _dbits(<double>self.lc[v]) == _dbits(cval):
                     return False
+                kind = _LAT_BOTTOM
             elif kind == _LAT_SET:
                 if self.ls[v] == sfz:
                     return False
@@ -2382,8 +2387,9 @@ cdef class _SCCP:
             # Fire only when the OTHER operand is not itself a known constant, so an
             # all-constant Multiply (e.g. 0 * inf, 0 * nan) falls through to the strict
             # fold_op path (which yields nan per IEEE) instead of being absorbed to 0.
-            if (<int32_t>self.lk[a0] == _LAT_CONST and <double>self.lc[a0] == 0.0 and <int32_t>self.lk[a1] != _LAT_CONST) or \
-               (<int32_t>self.lk[a1] == _LAT_CONST and <double>self.lc[a1] == 0.0 and <int32_t>self.lk[a0] != _LAT_CONST):
+            # An operand that may still become a constant (TOP) is waited for.
+            if (<int32_t>self.lk[a0] == _LAT_CONST and <double>self.lc[a0] == 0.0 and <int32_t>self.lk[a1] > _LAT_CONST) or \
+               (<int32_t>self.lk[a1] == _LAT_CONST and <double>self.lc[a1] == 0.0 and <int32_t>self.lk[a0] > _LAT_CONST):
                 return (_LAT_CONST, 0.0, None)
         if op == OP_And and n == 2:
             if self._and_zero(<int32_t>f.args[astart], <int32_t>f.args[astart + 1]):
-- 
2.43.0


From edf871eeba0bf88e2872377e68c3c4c0c8253fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:09 +0000
Subject: [PATCH 04/19] fix: honour the conditions of generator expressions
 over tuples

---
 sonolus/script/internal/visitor.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/sonolus/script/internal/visitor.py b/sonolus/script/internal/visitor.py
index 144fcb3..b58e269 100644
--- a/sonolus/script/internal/visitor.py
+++ b/sonolus/script/internal/visitor.py
@@ -568,7 +568,22 @@ class Visitor(ast.NodeVisitor):
             for value in tuple_iter(iterable):
                 set_ctx(ctx().branch(None))
                 self.handle_assign(generator.target, validate_value(value))
-                self.construct_genexpr(others, elt)
+                skip_ctxs = []
+                for if_expr in generator.ifs:
+                    test = self.convert_to_boolean_num(if_expr, self.visit(if_expr))
+                    if test._is_py_():
+                        if not test._as_py_():
+                            skip_ctxs.append(ctx())
+                            set_ctx(ctx().into_dead())
+                            break
+                    else:
+                        ctx().test = test.ir()
+                        if_then_ctx = ctx().branch(None)
+                        skip_ctxs.append(ctx().branch(0))
+                        set_ctx(if_then_ctx)
+                if ctx().live:
+                    self.construct_genexpr(others, elt)
+                set_ctx(Context.meet([*skip_ctxs, ctx()]))
         else:
             if initial_iterator is not None:
                 iterator = initial_iterator
-- 
2.43.0


From 53e6bcae24c774c8107689c1e9eb385ea1a1add8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:08 +0000
Subject: [PATCH 05/19] fix: zip stops at the first exhausted iterator

---
 sonolus/script/iterator.py | 21 ++++++---------------
 1 file changed, 6 insertions(+), 15 deletions(-)

diff --git a/sonolus/script/iterator.py b/sonolus/script/iterator.py
index a6fd17a..db19e73 100644
--- a/sonolus/script/iterator.py
+++ b/sonolus/script/iterator.py
@@ -73,24 +73,15 @@ class _Zipper[T](Record, SonolusIterator):
         iterators.append(v)
         return tuple(iterators)
 
-    @meta_fn
-    def _get_next_values(self) -> tuple[Any, ...]:
-        from sonolus.script.internal.visitor import compile_and_call
-
-        return tuple(compile_and_call(iterator.next) for iterator in self._get_iterators())
-
-    @meta_fn
-    def _values_to_tuple(self, values: tuple[Any, ...]) -> tuple[Any, ...]:
-        from sonolus.script.internal.visitor import compile_and_call
-
-        return tuple(compile_and_call(value.get_unsafe) for value in values)
-
     def next(self) -> Maybe[tuple[Any, ...]]:
-        values = self._get_next_values()
-        for value in values:
+        values = ()
+        for iterator in self._get_iterators():
+            value = iterator.next()
             if value.is_nothing:
+                # Later iterators must not be advanced once an earlier one is exhausted
                 return Nothing
-        return Some(self._values_to_tuple(values))
+            values = (*values, value.get_unsafe())
+        return Some(values)
 
 
 class _EmptyIterator(Record, SonolusIterator):
-- 
2.43.0


From 20b731a65b626dbdae664e558bad7578c841fa7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:38 +0000
Subject: [PATCH 06/19] fix: reversed views of variable-length arrays and
 ranges can be iterated

---
 sonolus/script/array_like.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/sonolus/script/array_like.py b/sonolus/script/array_like.py
index 07be2b0..f7e8cd6 100644
--- a/sonolus/script/array_like.py
+++ b/sonolus/script/array_like.py
@@ -60,7 +60,6 @@ class ArrayLike[T](Sequence[T]):
             value: The value to set.
         """
 
-    @meta_fn
     def get_unchecked(self, index: Num) -> T:
         """Get the element at the given index possibly without bounds checking or conversion of negative indexes.
 
@@ -75,7 +74,6 @@ class ArrayLike[T](Sequence[T]):
         """
         return self[index]
 
-    @meta_fn
     def set_unchecked(self, index: Num, value: T):
         """Set the element at the given index possibly without bounds checking or conversion of negative indexes.
 
-- 
2.43.0


From d7e0836a9b588d4f566560a45e80c13c670275c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:52 +0000
Subject: [PATCH 07/19] fix: bool() accepts run-time values

---
 sonolus/script/internal/builtin_impls.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/sonolus/script/internal/builtin_impls.py b/sonolus/script/internal/builtin_impls.py
index 401ad95..12501ee 100644
--- a/sonolus/script/internal/builtin_impls.py
+++ b/sonolus/script/internal/builtin_impls.py
@@ -386,10 +386,9 @@ class _Bool:
     _is_comptime_value_ = True
     _type_mapping_ = Num
 
-    @meta_fn
     def __call__(self, value=False):
         # Relies on the compiler to perform the conversion in a boolean context
-        if validate_value(value):  # noqa: SIM103
+        if value:  # noqa: SIM103
             return True
         else:
             return False
-- 
2.43.0


From 4d3df679790a743e99de7ae0facdbdd15a53007b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:23 +0000
Subject: [PATCH 08/19] fix: math.degrees and math.radians are available in
 compiled code

---
 sonolus/script/internal/math_impls.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sonolus/script/internal/math_impls.py b/sonolus/script/internal/math_impls.py
index fb4242a..d094e3f 100644
--- a/sonolus/script/internal/math_impls.py
+++ b/sonolus/script/internal/math_impls.py
@@ -136,4 +136,6 @@ MATH_BUILTIN_IMPLS = {
     id(round): _round,
     id(math.log): _log,
     id(math.sqrt): _sqrt,
+    id(math.degrees): _degrees,
+    id(math.radians): _radians,
 }
-- 
2.43.0


From 6ccdeb764256012dd9d0b2cb442e69f11659027a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:46 +0000
Subject: [PATCH 09/19] fix: VarArray.insert keeps an inserted element of the
 same array

---
 sonolus/script/containers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sonolus/script/containers.py b/sonolus/script/containers.py
index 3e3f306..d0bb5a3 100644
--- a/sonolus/script/containers.py
+++ b/sonolus/script/containers.py
@@ -228,6 +228,7 @@ class VarArray[T, Capacity](Record, ArrayLike[T]):
         """
         index = clamp(get_positive_index(index, self._size, include_end=True), 0, self._size)
         assert self._size < len(self._array), "Array is full"
+        value = copy(value)  # The value may be an element that is about to be shifted
         self._size += 1
         for i in range(self._size - 1, index, -1):
             self._array.set_unchecked(i, self._array.get_unchecked(i - 1))
-- 
2.43.0


From 0e3a1455aadea6b0917a891cc09f011114d30c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:49 +0000
Subject: [PATCH 10/19] fix: max and min of an array-like honour the default
 argument

---
 sonolus/script/internal/builtin_impls.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/sonolus/script/internal/builtin_impls.py b/sonolus/script/internal/builtin_impls.py
index 12501ee..f0c39f3 100644
--- a/sonolus/script/internal/builtin_impls.py
+++ b/sonolus/script/internal/builtin_impls.py
@@ -142,6 +142,10 @@ def _max(*args, default=_empty, key=None):
     elif len(args) == 1:
         (iterable,) = args
         if isinstance(iterable, ArrayLike):
+            if default is not _empty:
+                if not Num._accepts_(default):
+                    raise TypeError("default argument must be a number")
+                return compile_and_call(_max_array_default, iterable, Num._accept_(default), key=key)
             return compile_and_call(iterable._max_, key=key)
         elif has_tuple_iter(iterable) and all(_is_num(v) for v in tuple_iter(iterable)):
             t = tuple_iter(iterable)
@@ -202,6 +206,12 @@ def _max2_generic(a, b, key=_identity):
         return a
 
 
+def _max_array_default(array, default, key):
+    if len(array) == 0:
+        return default
+    return array._max_(key=key)
+
+
 def _max_num_iterator(iterable, default, key):
     iterator = iterable.__iter__()  # noqa: PLC2801
     initial = iterator.next()
@@ -238,6 +248,10 @@ def _min(*args, default=_empty, key=None):
     elif len(args) == 1:
         (iterable,) = args
         if isinstance(iterable, ArrayLike):
+            if default is not _empty:
+                if not Num._accepts_(default):
+                    raise TypeError("default argument must be a number")
+                return compile_and_call(_min_array_default, iterable, Num._accept_(default), key=key)
             return compile_and_call(iterable._min_, key=key)
         elif has_tuple_iter(iterable) and all(_is_num(v) for v in tuple_iter(iterable)):
             t = tuple_iter(iterable)
@@ -298,6 +312,12 @@ def _min2_generic(a, b, key=_identity):
         return a
 
 
+def _min_array_default(array, default, key):
+    if len(array) == 0:
+        return default
+    return array._min_(key=key)
+
+
 def _min_num_iterator(iterable, default, key):
     iterator = iterable.__iter__()  # noqa: PLC2801
     initial = iterator.next()
-- 
2.43.0


From 0d29aff371db6d173cdf9f911cef0a893c45e2f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:22 +0000
Subject: [PATCH 11/19] fix: records with array fields can be compared in
 compiled code

---
 sonolus/script/record.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/sonolus/script/record.py b/sonolus/script/record.py
index 0a8e628..9557e8f 100644
--- a/sonolus/script/record.py
+++ b/sonolus/script/record.py
@@ -1,6 +1,7 @@
 from __future__ import annotations
 
 import inspect
+import operator
 from abc import ABCMeta
 from collections.abc import Callable, Iterable
 from functools import wraps
@@ -47,6 +48,15 @@ def _bind_constructor_args(cls: type[Record], args: tuple[Any, ...], kwargs: dic
     return bound.arguments
 
 
+def _compare(op: Callable[[Any, Any], Any], method: str, a: Any, b: Any) -> Any:
+    """Compare two field values; comparing arrays and records has to be compiled when in a context."""
+    if ctx() and isinstance(a, GenericValue):
+        from sonolus.script.internal.visitor import compile_and_call
+
+        return Num._accept_(compile_and_call(getattr(a, method), b))
+    return op(a, b)
+
+
 # Protocol metaclass is a subclass of ABCMeta, but let's make ABCMeta explicit for clarity
 class RecordMeta(type(Protocol), ABCMeta):
     @meta_fn
@@ -366,7 +376,7 @@ class Record(GenericValue, metaclass=RecordMeta):
             return False
         result: Num = Num._accept_(True)
         for field in self._fields_:
-            result = result.and_(field.__get__(self) == field.__get__(other))
+            result = result.and_(_compare(operator.eq, "__eq__", field.__get__(self), field.__get__(other)))
         return result
 
     @meta_fn
@@ -375,7 +385,7 @@ class Record(GenericValue, metaclass=RecordMeta):
             return True
         result: Num = Num._accept_(False)
         for field in self._fields_:
-            result = result.or_(field.__get__(self) != field.__get__(other))
+            result = result.or_(_compare(operator.ne, "__ne__", field.__get__(self), field.__get__(other)))
         return result
 
     def __hash__(self):
-- 
2.43.0


From b4599e96ce4bd70be235d389cd57e01832ee4933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:58 +0000
Subject: [PATCH 12/19] fix: next() returns the current number rather than a
 reference a later next() overwrites

---
 sonolus/script/maybe.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/sonolus/script/maybe.py b/sonolus/script/maybe.py
index a5394eb..3b9bf8b 100644
--- a/sonolus/script/maybe.py
+++ b/sonolus/script/maybe.py
@@ -68,7 +68,9 @@ class Maybe[T](TransientValue):
     @meta_fn
     def get_unsafe(self) -> T:
         if ctx():
-            return self._value
+            # Numbers are values rather than references, and where this one is stored may be reused later on, for
+            # example by the next value of a generator.
+            return _snapshot(self._value)
         else:
             return self._value._as_py_()
 
@@ -241,6 +243,16 @@ Nothing: Maybe[Any]
 """The empty [`Maybe`][sonolus.script.maybe.Maybe] instance."""
 
 
+def _snapshot(value: Any) -> Any:
+    from sonolus.script.internal.tuple_impl import TupleImpl
+
+    if isinstance(value, Num):
+        return value._get_readonly_()
+    if isinstance(value, TupleImpl):
+        return TupleImpl(tuple(_snapshot(v) for v in value.value))
+    return value
+
+
 @meta_fn
 def _box(value):
     from sonolus.script.containers import Box
-- 
2.43.0


From 244a6eea2f64f787c66d660d9780f42f42a4f6cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:24 +0000
Subject: [PATCH 13/19] fix: a generator expression may have a condition that
 is never true

---
 sonolus/script/internal/visitor.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sonolus/script/internal/visitor.py b/sonolus/script/internal/visitor.py
index b58e269..c117fa4 100644
--- a/sonolus/script/internal/visitor.py
+++ b/sonolus/script/internal/visitor.py
@@ -614,13 +614,15 @@ class Visitor(ast.NodeVisitor):
                     else:
                         ctx().outgoing[None] = header_ctx
                         set_ctx(ctx().into_dead())
+                        break
                 else:
                     if_then_ctx = ctx().branch(None)
                     if_else_ctx = ctx().branch(0)
                     ctx().test = test.ir()
                     if_else_ctx.outgoing[None] = header_ctx
                     set_ctx(if_then_ctx)
-            self.construct_genexpr(others, elt)
+            if ctx().live:
+                self.construct_genexpr(others, elt)
             ctx().outgoing[None] = header_ctx
             set_ctx(else_ctx)
 
-- 
2.43.0


From 7ce6264d1885165d3adf92c3a20ad924e443501f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:30 +0000
Subject: [PATCH 14/19] fix: writes to parts of an exported field are emitted

---
 sonolus/script/archetype.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sonolus/script/archetype.py b/sonolus/script/archetype.py
index 2fa94a7..d771a31 100644
--- a/sonolus/script/archetype.py
+++ b/sonolus/script/archetype.py
@@ -8,7 +8,7 @@ from enum import Enum, IntEnum, StrEnum
 from types import FunctionType
 from typing import Annotated, Any, ClassVar, NamedTuple, Self, TypedDict, get_origin
 
-from sonolus.backend.ir import IRConst, IRExpr, IRInstr, IRPureInstr, IRStmt
+from sonolus.backend.ir import IRConst, IRExpr, IRInstr, IRPureInstr
 from sonolus.backend.mode import Mode
 from sonolus.backend.ops import Op
 from sonolus.script.bucket import Bucket, Judgment
@@ -55,8 +55,8 @@ class _ExportBackingValue(BackingValue):
     def read(self) -> IRExpr:
         raise NotImplementedError("Exported fields are write-only")
 
-    def write(self, value: IRExpr) -> IRStmt:
-        return IRInstr(Op.ExportValue, [self.index, value])
+    def write(self, value: IRExpr) -> None:
+        ctx().add_statement(IRInstr(Op.ExportValue, [self.index, value]))
 
 
 class _ArchetypeField(SonolusDescriptor):
-- 
2.43.0


From 0cb9e9c0861537cb3ebadbbe80a514b916da0873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:15 +0000
Subject: [PATCH 15/19] fix: copying an entity reference in level data keeps
 the entity it refers to

---
 sonolus/script/archetype.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/sonolus/script/archetype.py b/sonolus/script/archetype.py
index d771a31..1d4cd6a 100644
--- a/sonolus/script/archetype.py
+++ b/sonolus/script/archetype.py
@@ -1687,6 +1687,14 @@ class EntityRef[A: _BaseArchetype](Record):
         super()._copy_from_(value)
         if hasattr(value, "_ref_"):
             self._ref_ = value._ref_
+        elif hasattr(self, "_ref_"):
+            del self._ref_
+
+    def _copy_(self) -> Self:
+        result = super()._copy_()
+        if hasattr(self, "_ref_"):
+            result._ref_ = self._ref_
+        return result
 
     @classmethod
     def _accepts_(cls, value: Any) -> bool:
-- 
2.43.0


From 1d1855d0d40debb4ab26408411e4950abe91cef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:15 +0000
Subject: [PATCH 16/19] fix: inequality of entity references in level data
 agrees with equality

---
 sonolus/script/archetype.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sonolus/script/archetype.py b/sonolus/script/archetype.py
index 1d4cd6a..ea7772e 100644
--- a/sonolus/script/archetype.py
+++ b/sonolus/script/archetype.py
@@ -1621,6 +1621,12 @@ class EntityRef[A: _BaseArchetype](Record):
             return self._ref_ is other._ref_
         return super().__eq__(other)
 
+    @meta_fn
+    def __ne__(self, other: Any) -> bool:
+        if not ctx() and hasattr(self, "_ref_") and hasattr(other, "_ref_"):
+            return self._ref_ is not other._ref_
+        return super().__ne__(other)
+
     def __hash__(self) -> int:
         if not ctx() and hasattr(self, "_ref_"):
             return hash(id(self._ref_))
-- 
2.43.0


From 7a7057ede0f9cb15a56090fa366196e002a22343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:25 +0000
Subject: [PATCH 17/19] fix: match captures and function definitions in a loop
 are carried between iterations

---
 sonolus/backend/utils.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/sonolus/backend/utils.py b/sonolus/backend/utils.py
index 63ca082..6f22443 100644
--- a/sonolus/backend/utils.py
+++ b/sonolus/backend/utils.py
@@ -86,6 +86,15 @@ class ScanWrites(ast.NodeVisitor):
         if isinstance(node.ctx, ast.Store | ast.Delete):
             self.writes.append(node.id)
 
+    def visit_MatchAs(self, node):
+        if node.name is not None:
+            self.writes.append(node.name)
+        self.generic_visit(node)
+
+    def visit_FunctionDef(self, node):
+        self.writes.append(node.name)
+        self.generic_visit(node)
+
 
 def scan_writes(node: ast.AST) -> set[str]:
     visitor = ScanWrites()
-- 
2.43.0


From d1fc4bbe5d3ed338f5536a6113da751a13850dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:25 +0000
Subject: [PATCH 18/19] fix: reading a non-numeric variable after a loop that
 rebinds it is a conflict

---
 sonolus/script/internal/context.py | 49 +++++++++++++++++++++++-------
 sonolus/script/internal/visitor.py |  7 +----
 2 files changed, 39 insertions(+), 17 deletions(-)

diff --git a/sonolus/script/internal/context.py b/sonolus/script/internal/context.py
index 2e859f6..4f4d7a3 100644
--- a/sonolus/script/internal/context.py
+++ b/sonolus/script/internal/context.py
@@ -361,7 +361,7 @@ class Context:
                 header.scope.set_binding(name, loop_binding)
                 header.loop_variables[name] = loop_binding
             else:
-                loop_binding = ValueBinding(value)
+                loop_binding = ValueBinding(value, sources=(binding,))
                 header.scope.set_binding(name, loop_binding)
                 header.loop_variables[name] = loop_binding
         return header
@@ -391,11 +391,18 @@ class Context:
                     value = type(target_value)._accept_(value)
                     target_value._set_(value)
                 else:
-                    value = self.scope.get_value(name)
-                    if target_value is not value and binding.read_count > 0:
-                        raise RuntimeError(
-                            f"Variable '{name}' may have conflicting definitions between loop iterations"
-                        )
+                    current = self.scope.get_binding(name)
+                    if isinstance(current, ValueBinding) and (
+                        target_value is not current.value or current.has_conflict()
+                    ):
+                        if binding.read_count > 0:
+                            raise RuntimeError(
+                                f"Variable '{name}' may have conflicting definitions between loop iterations"
+                            )
+                        # Not read so far, but reads past this point (such as after the loop) are conflicts
+                        binding.is_rebound = True
+                    else:
+                        self.scope.get_value(name)
 
     def map_constant(self, value: Any) -> int:
         with self.project_state.lock:
@@ -552,6 +559,25 @@ def debug_config() -> DebugConfig:
 class ValueBinding:
     value: Value
     read_count: int = 0
+    # Bindings this one continues (across a nested loop header or a merge): reading it reads those as well
+    sources: tuple[ValueBinding, ...] = ()
+    # Set if a loop iteration rebinds the variable, in which case the value isn't its only active definition
+    is_rebound: bool = False
+
+    def lineage(self) -> list[ValueBinding]:
+        if not self.sources:
+            return [self]
+        result = {id(self): self}
+        stack = [*self.sources]
+        while stack:
+            binding = stack.pop()
+            if id(binding) not in result:
+                result[id(binding)] = binding
+                stack.extend(binding.sources)
+        return [*result.values()]
+
+    def has_conflict(self) -> bool:
+        return any(binding.is_rebound for binding in self.lineage())
 
 
 @dataclass(slots=True)
@@ -584,11 +610,12 @@ class Scope:
     def get_value(self, name: str) -> Value | Any:
         binding = self.get_binding(name)
         match binding:
-            case ValueBinding() as b:
+            case ValueBinding() as b if not b.has_conflict():
                 # we don't need to call _get_() here because _set_() is never called where it could be a problem
-                b.read_count += 1
+                for source in b.lineage():
+                    source.read_count += 1
                 return b.value
-            case ConflictBinding():
+            case ConflictBinding() | ValueBinding():
                 raise RuntimeError(
                     f"Binding '{name}' has multiple conflicting definitions or may not be guaranteed to be defined"
                 )
@@ -639,12 +666,12 @@ class Scope:
                     target_bindings[key] = ConflictBinding()
                 continue
             bindings = [source.get(key, _EMPTY_BINDING) for source in bindings_by_source]
-            if not all(isinstance(binding, ValueBinding) for binding in bindings):
+            if not all(isinstance(binding, ValueBinding) and not binding.has_conflict() for binding in bindings):
                 target_bindings[key] = ConflictBinding()
                 continue
             values = [binding.value for binding in bindings]
             if len({id(value) for value in values}) == 1:
-                target_bindings[key] = ValueBinding(values[0])
+                target_bindings[key] = ValueBinding(values[0], sources=tuple(bindings))
                 continue
             types = {type(value) for value in values}
             if len(types) > 1:
diff --git a/sonolus/script/internal/visitor.py b/sonolus/script/internal/visitor.py
index c117fa4..5ad31a2 100644
--- a/sonolus/script/internal/visitor.py
+++ b/sonolus/script/internal/visitor.py
@@ -1488,12 +1488,7 @@ class Visitor(ast.NodeVisitor):
         while v:
             binding = v.active_ctx.scope.bindings.get(name)
             if binding is not None and type(binding) is not EmptyBinding:
-                if type(binding) is ValueBinding:
-                    binding.read_count += 1
-                    result = binding.value
-                else:
-                    # Delegate to reproduce the error message from the scope
-                    return v.active_ctx.scope.get_value(name)
+                result = v.active_ctx.scope.get_value(name)
                 if v is not self:
                     used_parent_binding_values[name] = result
                 return result
-- 
2.43.0


From 0031b3fe7abaf2e8e182f04c80a4cc8236a2cec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:25 +0000
Subject: [PATCH 19/19] fix: an empty sequence pattern can be matched

---
 sonolus/script/internal/visitor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sonolus/script/internal/visitor.py b/sonolus/script/internal/visitor.py
index 5ad31a2..d1b9a43 100644
--- a/sonolus/script/internal/visitor.py
+++ b/sonolus/script/internal/visitor.py
@@ -1044,7 +1044,7 @@ class Visitor(ast.NodeVisitor):
                     true_ctx, false_ctx = self.handle_match_pattern(value, subpattern)
                     false_ctxs.append(false_ctx)
                     set_ctx(true_ctx)
-                return true_ctx, Context.meet(false_ctxs)
+                return true_ctx, Context.meet(false_ctxs) if false_ctxs else true_ctx.into_dead()
             case ast.MatchMapping():
                 raise NotImplementedError("Match mappings are not supported")
             case ast.MatchClass(cls=cls, patterns=patterns, kwd_attrs=kwd_attrs, kwd_patterns=kwd_patterns):
-- 
2.43.0

