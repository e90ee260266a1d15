From 055558b967205f5990d8ce1efd6826b862dafb2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:42 +0000
Subject: [PATCH 01/15] fix: record inherited parent edges on the parent's
 children as well

---
 core/ipyflow/slicing/mixin.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/ipyflow/slicing/mixin.py b/core/ipyflow/slicing/mixin.py
index ca389d6..c56d6cc 100644
--- a/core/ipyflow/slicing/mixin.py
+++ b/core/ipyflow/slicing/mixin.py
@@ -311,6 +311,9 @@ class SliceableMixin(Protocol):
                     common = syms & prev_syms
                     if common:
                         self.raw_parents.setdefault(prev_pid, set()).update(common)
+                        self.from_id(prev_pid).raw_children.setdefault(
+                            self.id, set()
+                        ).update(common)
             return
         self.raw_parents.setdefault(pid, set()).update(syms)
         parent.raw_children.setdefault(self.id, set()).update(syms)
-- 
2.43.0


From 79c04c95e85c6a267ea83506f5dbf01687a8bbf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:42 +0000
Subject: [PATCH 02/15] fix: carry edges of previous cell versions over when a
 placeholder id is renamed

---
 core/ipyflow/data_model/cell.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/core/ipyflow/data_model/cell.py b/core/ipyflow/data_model/cell.py
index d434ae8..c7c871b 100644
--- a/core/ipyflow/data_model/cell.py
+++ b/core/ipyflow/data_model/cell.py
@@ -286,11 +286,14 @@ class Cell(SliceableMixin):
                     for cid, syms in parent.raw_children.items()
                 }
             for cid in self.raw_children.keys():
-                child = self.from_id(cid)
-                child.raw_parents = {
-                    (new_id if pid == old_id else pid): syms
-                    for pid, syms in child.raw_parents.items()
-                }
+                child: Optional["Cell"] = self.from_id(cid)
+                # previous versions too, since later versions inherit edges from them
+                while child is not None:
+                    child.raw_parents = {
+                        (new_id if pid == old_id else pid): syms
+                        for pid, syms in child.raw_parents.items()
+                    }
+                    child = child.prev_cell
 
     def add_used_cell_counter(self, sym: "Symbol", ctr: int) -> None:
         if ctr > 0:
-- 
2.43.0


From 5e5b6846b7a82ffa96acff772500f1a8d9b446ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:40 +0000
Subject: [PATCH 03/15] fix: Cell.slice/code(stmts=True) slice statements, not
 whole cells

---
 core/ipyflow/data_model/cell.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/ipyflow/data_model/cell.py b/core/ipyflow/data_model/cell.py
index c7c871b..961e4ea 100644
--- a/core/ipyflow/data_model/cell.py
+++ b/core/ipyflow/data_model/cell.py
@@ -952,8 +952,8 @@ class Cell(SliceableMixin):
         include_cell_headers: bool = True,
     ) -> Slice:
         if stmts:
-            return self.format_multi_slice(
-                self.compute_slice_stmts(),
+            return statements().format_multi_slice(
+                self._get_stmt_timestamps(),
                 blacken=True,
                 seed_only=seed_only,
                 format_type=format_type,
-- 
2.43.0


From 444fd18b22141c71f7c32724032f6caa4a209396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:00 +0000
Subject: [PATCH 04/15] fix: set_cell_positions indexes cells that were not
 placed before

---
 core/ipyflow/data_model/cell.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/ipyflow/data_model/cell.py b/core/ipyflow/data_model/cell.py
index 961e4ea..8945bb6 100644
--- a/core/ipyflow/data_model/cell.py
+++ b/core/ipyflow/data_model/cell.py
@@ -427,11 +427,11 @@ class Cell(SliceableMixin):
             and settings.interface != Interface.IPYTHON
         ):
             cls._cell_id_by_position.clear()
+            for cell_id, pos in order_index_by_cell_id.items():
+                cls._cell_id_by_position[pos] = cell_id
             for cell_id in cls._position_by_cell_id:
                 if cell_id not in order_index_by_cell_id:
                     order_index_by_cell_id[cell_id] = cast(int, float("inf"))
-                else:
-                    cls._cell_id_by_position[order_index_by_cell_id[cell_id]] = cell_id
         cls._position_by_cell_id = order_index_by_cell_id
 
     @classmethod
-- 
2.43.0


From 4ad21528355654b9e95359c28258a29aa759745d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:47 +0000
Subject: [PATCH 05/15] fix: waiter-link closure detects changes that keep the
 size of a link set

---
 core/ipyflow/frontend.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/ipyflow/frontend.py b/core/ipyflow/frontend.py
index 9d032f5..48b7395 100644
--- a/core/ipyflow/frontend.py
+++ b/core/ipyflow/frontend.py
@@ -141,14 +141,14 @@ class FrontendCheckerResult(NamedTuple):
             waiter_link_changes = False
             for waiting_cell_id in self.waiting_cells:
                 new_waiter_links = set(self.waiter_links[waiting_cell_id])
-                original_length = len(new_waiter_links)
                 for ready_making_cell_id in self.waiter_links[waiting_cell_id]:
                     if ready_making_cell_id not in self.waiting_cells:
                         continue
                     new_waiter_links |= self.waiter_links[ready_making_cell_id]
                 new_waiter_links.discard(waiting_cell_id)
-                waiter_link_changes = waiter_link_changes or original_length != len(
-                    new_waiter_links
+                waiter_link_changes = (
+                    waiter_link_changes
+                    or new_waiter_links != self.waiter_links[waiting_cell_id]
                 )
                 self.waiter_links[waiting_cell_id] = new_waiter_links
         for waiting_cell_id in self.waiting_cells:
-- 
2.43.0


From 724ff1ba00c8d2a2ea9846747dd97e574d45dded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:38 +0000
Subject: [PATCH 06/15] fix: cells no longer in the notebook are not indexed by
 position

---
 core/ipyflow/data_model/cell.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/ipyflow/data_model/cell.py b/core/ipyflow/data_model/cell.py
index 8945bb6..0a42529 100644
--- a/core/ipyflow/data_model/cell.py
+++ b/core/ipyflow/data_model/cell.py
@@ -428,7 +428,8 @@ class Cell(SliceableMixin):
         ):
             cls._cell_id_by_position.clear()
             for cell_id, pos in order_index_by_cell_id.items():
-                cls._cell_id_by_position[pos] = cell_id
+                if pos != float("inf"):
+                    cls._cell_id_by_position[pos] = cell_id
             for cell_id in cls._position_by_cell_id:
                 if cell_id not in order_index_by_cell_id:
                     order_index_by_cell_id[cell_id] = cast(int, float("inf"))
-- 
2.43.0


From 967d3c82e065897155bc49d53e710cad3b71507e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:20 +0000
Subject: [PATCH 07/15] fix: one-line class definitions do not take over the
 enclosing scope

---
 core/ipyflow/tracing/ipyflow_tracer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/ipyflow/tracing/ipyflow_tracer.py b/core/ipyflow/tracing/ipyflow_tracer.py
index f66e931..c1c889d 100644
--- a/core/ipyflow/tracing/ipyflow_tracer.py
+++ b/core/ipyflow/tracing/ipyflow_tracer.py
@@ -1710,7 +1710,10 @@ class DataflowTracer(StackFrameManager):
                 if (
                     parent_node is not None
                     and getattr(parent_node, "lineno", None) == lineno
-                    and isinstance(parent_node, (ast.AsyncFunctionDef, ast.FunctionDef))
+                    and isinstance(
+                        parent_node,
+                        (ast.AsyncFunctionDef, ast.ClassDef, ast.FunctionDef),
+                    )
                 ):
                     stmt_node = parent_node
             return stmt_node
-- 
2.43.0


From d8a94a05fe4273b62830d219637922b105823552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:33 +0000
Subject: [PATCH 08/15] fix: memoization compares types, lengths, and current
 contents of values

---
 core/ipyflow/data_model/symbol.py | 65 ++++++++++++++++++++++++-------
 1 file changed, 52 insertions(+), 13 deletions(-)

diff --git a/core/ipyflow/data_model/symbol.py b/core/ipyflow/data_model/symbol.py
index 3f57875..cd36597 100644
--- a/core/ipyflow/data_model/symbol.py
+++ b/core/ipyflow/data_model/symbol.py
@@ -1454,7 +1454,7 @@ class Symbol:
         import numpy as np
 
         try:
-            return np.alltrue(obj1 == obj2)  # type: ignore
+            return obj1.dtype == obj2.dtype and np.array_equal(obj1, obj2)
         except Exception:
             return False
 
@@ -1466,23 +1466,40 @@ class Symbol:
             return False
 
     @staticmethod
+    def _make_typed_eq(
+        eq: Callable[[Any, Any], bool],
+    ) -> Callable[[Any, Any], bool]:
+        def typed_eq(comp1: Any, comp2: Any) -> bool:
+            # comparables of containers, arrays, etc. are tagged with the type
+            if not isinstance(comp1, tuple) or not isinstance(comp2, tuple):
+                return False
+            return comp1[0] is comp2[0] and eq(comp1[1], comp2[1])
+
+        return typed_eq
+
+    @classmethod
     def _make_list_eq(
+        cls,
         eqs: List[Callable[[Any, Any], bool]],
-    ) -> Callable[[List[Any], List[Any]], bool]:
-        def list_eq(lst1: List[Any], lst2: List[Any]) -> bool:
+    ) -> Callable[[Any, Any], bool]:
+        def list_eq(lst1: Any, lst2: Any) -> bool:
+            if not len(lst1) == len(lst2) == len(eqs):
+                return False
             for eq, obj1, obj2 in zip(eqs, lst1, lst2):
                 if not eq(obj1, obj2):
                     return False
             return True
 
-        return list_eq
+        return cls._make_typed_eq(list_eq)
 
     @classmethod
     def make_memoize_comparable_for_obj(
         cls, obj: Any, seen_ids: Set[int]
     ) -> Tuple[Any, Optional[Callable[[Any, Any], bool]], int]:
-        if isinstance(obj, (bool, bytes, bytearray, int, float, str)):
-            return obj, cls._equal, 1
+        if isinstance(obj, (bool, bytes, int, float, str)):
+            return (type(obj), obj), cls._equal, 1
+        if isinstance(obj, bytearray):
+            return (type(obj), bytes(obj)), cls._equal, 1
         if not isinstance(obj, tuple):
             if id(obj) in seen_ids:
                 return cls.NULL, None, -1
@@ -1492,7 +1509,7 @@ class Symbol:
             comp = []
             eqs: List[Callable[[Any, Any], bool]] = []
             if isinstance(obj, dict):
-                iterable: "Iterable[Any]" = sorted(obj.items())
+                iterable: "Iterable[Any]" = list(obj.items())
             else:
                 iterable = obj
             for inner in iterable:
@@ -1512,8 +1529,8 @@ class Symbol:
                 return cls.NULL, None, -1
             else:
                 iter_eq = cls._make_list_eq(eqs)
-            ret = frozenset(comp) if isinstance(obj, (frozenset, set)) else comp
-            return ret, iter_eq, size
+            ret = frozenset(comp) if isinstance(obj, (frozenset, set)) else tuple(comp)
+            return (type(obj), ret), iter_eq, size
         elif type(obj) in (type, FunctionType):
             # try to determine it based on the symbol
             for sym in flow().aliases.get(id(obj), []):
@@ -1527,15 +1544,29 @@ class Symbol:
             if module.startswith("numpy"):
                 name = getattr(type(obj), "__name__", "")
                 if name.endswith("ndarray"):
-                    return obj, cls._array_equal, obj.size
+                    if obj.size > cls._MAX_MEMOIZE_COMPARABLE_SIZE:
+                        return cls.NULL, None, -1
+                    # copy since the array could be mutated in-place later
+                    return (
+                        (type(obj), obj.copy()),
+                        cls._make_typed_eq(cls._array_equal),
+                        obj.size,
+                    )
                 else:
                     numpy = sys.modules.get("numpy")
                     if numpy is not None and isinstance(obj, numpy.number):
-                        return obj, cls._equal, 1
+                        return (type(obj), obj), cls._equal, 1
             elif module.startswith(("modin", "pandas")):
                 name = getattr(type(obj), "__name__", "")
                 if name.endswith(("DataFrame", "Series")):
-                    return obj, cls._dataframe_equal, obj.size
+                    if obj.size > cls._MAX_MEMOIZE_COMPARABLE_SIZE:
+                        return cls.NULL, None, -1
+                    # copy since the frame could be mutated in-place later
+                    return (
+                        (type(obj), obj.copy()),
+                        cls._make_typed_eq(cls._dataframe_equal),
+                        obj.size,
+                    )
             elif module.startswith("ipywidgets"):
                 ipywidgets = sys.modules.get("ipywidgets")
                 if (
@@ -1543,7 +1574,12 @@ class Symbol:
                     and isinstance(obj, ipywidgets.Widget)
                     and hasattr(obj, "value")
                 ):
-                    return obj.value, cls._equal, 1
+                    value_comp, value_eq, size = cls.make_memoize_comparable_for_obj(
+                        obj.value, seen_ids
+                    )
+                    if value_comp is cls.NULL or value_eq is not cls._equal:
+                        return cls.NULL, None, -1
+                    return (type(obj), value_comp), cls._equal, size
             return cls.NULL, None, -1
 
     def make_memoize_comparable(
@@ -1554,6 +1590,9 @@ class Symbol:
         if isinstance(
             self.stmt_node, (ast.ClassDef, ast.FunctionDef, ast.AsyncFunctionDef)
         ):
+            if self.timestamp.cell_num > self.shallow_timestamp.cell_num:
+                # something in the namespace changed since the definition
+                return self.NULL, None
             comps = [astunparse.unparse(self.stmt_node)]
             for sym in sorted(self.parents.keys()):
                 par_comp, eq = sym.make_memoize_comparable(seen_ids=seen_ids)
-- 
2.43.0


From 3c7689ce807b967c1023919ac6abde668c60ccc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:34 +0000
Subject: [PATCH 09/15] fix: memoized results account for all variables that
 were read and for changes to outputs

---
 core/ipyflow/data_model/cell.py        | 57 ++++++++++++++++----------
 core/ipyflow/data_model/symbol.py      | 20 +++++++++
 core/ipyflow/memoization/__init__.py   | 14 +++++++
 core/ipyflow/shell/interactiveshell.py |  2 +-
 4 files changed, 70 insertions(+), 23 deletions(-)

diff --git a/core/ipyflow/data_model/cell.py b/core/ipyflow/data_model/cell.py
index 0a42529..fcfdc8c 100644
--- a/core/ipyflow/data_model/cell.py
+++ b/core/ipyflow/data_model/cell.py
@@ -323,34 +323,46 @@ class Cell(SliceableMixin):
     def _maybe_memoize_params(self) -> None:
         if self.is_error:
             return
-        inputs: Dict["Symbol", MemoizedInput] = {}
+        # an edge to another cell is not recorded in case of cycles, so
+        # the symbols used by this cell need to be considered as well
+        used_symbols = set(self.used_symbols)
         for _ in flow().mut_settings.iter_slicing_contexts():
-            for edges in self.raw_parents.values():
-                for sym in edges:
-                    if sym in inputs:
-                        continue
-                    sym_ts = sym.timestamp
-                    if sym_ts.cell_num == self.cell_ctr:
-                        continue
-                    elif (
-                        not sym.is_user_accessible or not sym.containing_scope.is_global
-                    ):
-                        continue
-                    elif sym_ts.cell_num > self.cell_ctr:
+            used_symbols.update(*self.raw_parents.values())
+        inputs: Dict["Symbol", MemoizedInput] = {}
+        for used_sym in used_symbols:
+            # elements of data structures are accounted for by
+            # the variables through which they can be reached
+            for sym in used_sym.get_all_top_level():
+                if sym in inputs:
+                    continue
+                sym_ts = sym.timestamp
+                if not sym.is_user_accessible or not sym.containing_scope.is_global:
+                    continue
+                elif sym_ts.cell_num > self.cell_ctr:
+                    return
+                elif sym_ts.cell_num == self.cell_ctr:
+                    if used_sym.is_prior_value_used_by_cell(self.cell_ctr):
+                        # the value that was used is not available anymore
                         return
-                    inputs[sym] = MemoizedInput(
-                        sym,
-                        sym_ts,
-                        sym.memoize_timestamp,
-                        sym.obj_id,
-                        sym.make_memoize_comparable()[0],
-                    )
+                    continue
+                inputs[sym] = MemoizedInput(
+                    sym,
+                    sym_ts,
+                    sym.memoize_timestamp,
+                    sym.obj_id,
+                    sym.make_memoize_comparable()[0],
+                )
         outputs: Dict["Symbol", MemoizedOutput] = {}
         for sym in flow().updated_symbols:
             sym.last_updated_timestamp_by_obj_id[sym.obj_id] = sym.timestamp
             if not sym.is_user_accessible or not sym.containing_scope.is_global:
                 continue
-            outputs[sym] = MemoizedOutput(sym, sym.shallow_timestamp, sym.obj)
+            outputs[sym] = MemoizedOutput(
+                sym,
+                sym.shallow_timestamp,
+                sym.obj,
+                sym.make_memoize_comparable_for_obj(sym.obj, set())[0],
+            )
         assert self.captured_output is not None
         assert self.executed_content is not None
         self._memoized_executions.setdefault(self.executed_content, {})[
@@ -605,7 +617,8 @@ class Cell(SliceableMixin):
                 else:
                     break
             else:
-                return ctr
+                if all(output.is_intact() for output in outputs):
+                    return ctr
         return None
 
     def get_transformed_memoized_content(
diff --git a/core/ipyflow/data_model/symbol.py b/core/ipyflow/data_model/symbol.py
index cd36597..bf562da 100644
--- a/core/ipyflow/data_model/symbol.py
+++ b/core/ipyflow/data_model/symbol.py
@@ -268,6 +268,12 @@ class Symbol:
         else:
             return max(self.timestamp_by_used_time.keys())
 
+    def is_prior_value_used_by_cell(self, cell_num: int) -> bool:
+        return any(
+            used_ts.cell_num == cell_num and ts.cell_num < cell_num
+            for used_ts, ts in self.timestamp_by_used_time.items()
+        )
+
     @property
     def namespace_waiting_symbols(self) -> Set["Symbol"]:
         ns = self.namespace
@@ -514,6 +520,20 @@ class Symbol:
                     return alias.get_top_level()
             return None
 
+    def get_all_top_level(
+        self, seen: Optional[Set["Symbol"]] = None
+    ) -> Set["Symbol"]:
+        if not self.containing_scope.is_namespace_scope:
+            return {self}
+        seen = set() if seen is None else seen
+        seen.add(self)
+        containing_scope = cast("Namespace", self.containing_scope)
+        top_level: Set["Symbol"] = set()
+        for alias in flow().aliases.get(containing_scope.obj_id, []):
+            if alias.is_globally_accessible and alias not in seen:
+                top_level |= alias.get_all_top_level(seen=seen)
+        return top_level
+
     def get_import_string(self) -> str:
         if not self.is_import:
             raise ValueError("only IMPORT symbols support recreating the import string")
diff --git a/core/ipyflow/memoization/__init__.py b/core/ipyflow/memoization/__init__.py
index 5c3d52b..bf210b8 100644
--- a/core/ipyflow/memoization/__init__.py
+++ b/core/ipyflow/memoization/__init__.py
@@ -38,6 +38,20 @@ class MemoizedOutput(NamedTuple):
     symbol: "Symbol"
     ts_at_execution: "Timestamp"
     value: Any
+    comparable: Any
+
+    def is_intact(self) -> bool:
+        # whether the value is still as the execution left it
+        if self.comparable is self.symbol.NULL:
+            return True
+        current_comp, eq, _ = self.symbol.make_memoize_comparable_for_obj(
+            self.value, set()
+        )
+        return (
+            current_comp is not self.symbol.NULL
+            and eq is not None
+            and eq(current_comp, self.comparable)
+        )
 
 
 class MemoizedCellExecution(NamedTuple):
diff --git a/core/ipyflow/shell/interactiveshell.py b/core/ipyflow/shell/interactiveshell.py
index 73bcf7e..f0750af 100644
--- a/core/ipyflow/shell/interactiveshell.py
+++ b/core/ipyflow/shell/interactiveshell.py
@@ -521,7 +521,7 @@ class IPyflowInteractiveShell(singletons.IPyflowShell, InteractiveShell):
         print_purple(
             "Detected identical symbol usages to previous run; reusing memoized result..."
         )
-        for sym, out_ts, value in memoized_outputs:
+        for sym, out_ts, value, _comparable in memoized_outputs:
             if sym.obj is not value:
                 self.user_ns[sym.name] = value
                 sym.update_obj_ref(value)
-- 
2.43.0


From 19929c00a0001cdf12a8d655d84bc22a93e252f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:18 +0000
Subject: [PATCH 10/15] fix: augmented assignment of an element records its new
 value

---
 core/ipyflow/tracing/ipyflow_tracer.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/core/ipyflow/tracing/ipyflow_tracer.py b/core/ipyflow/tracing/ipyflow_tracer.py
index c1c889d..1202755 100644
--- a/core/ipyflow/tracing/ipyflow_tracer.py
+++ b/core/ipyflow/tracing/ipyflow_tracer.py
@@ -578,10 +578,7 @@ class DataflowTracer(StackFrameManager):
             if attr_or_sub is None:
                 raise
 
-        if isinstance(obj, (dict, list)) and (
-            not self.tracing_disabled_since_last_stmt
-            or self.saved_assign_rhs_obj is not None
-        ):
+        if isinstance(obj, (dict, list)) and self.saved_assign_rhs_obj is not None:
             # we can be reasonably sure that the object on the rhs is the same thing
             # that gets stashed in `obj` for these cases, so use it instead of doing
             # the lookup (which may have side effects) to reduce intrusiveness
-- 
2.43.0


From 211a380eef3981d633888e911546cca75f88b7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:18 +0000
Subject: [PATCH 11/15] fix: in-place augmented assignment propagates to
 everything downstream

---
 core/ipyflow/data_model/symbol.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/core/ipyflow/data_model/symbol.py b/core/ipyflow/data_model/symbol.py
index bf562da..980d71e 100644
--- a/core/ipyflow/data_model/symbol.py
+++ b/core/ipyflow/data_model/symbol.py
@@ -1097,6 +1097,18 @@ class Symbol:
             self.namespace.upsert_symbol_for_name(
                 self.IPYFLOW_MUTATION_VIRTUAL_SYMBOL_NAME, object(), propagate=False
             )
+        if (
+            not overwrite
+            and prev_obj is not None
+            and isinstance(self.stmt_node, ast.AugAssign)
+            and self.obj_id == self.cached_obj_id
+            and not self.is_immutable
+        ):
+            # augmented assignment changed the object in-place
+            mutated = True
+            propagate_to_namespace_descendents = (
+                propagate_to_namespace_descendents or self.obj_type is not list
+            )
         propagate = propagate and (
             mutated or deleted or not self._should_cancel_propagation(prev_obj)
         )
-- 
2.43.0


From 5d3753f01becfe400088de2977ae66d551303145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:58 +0000
Subject: [PATCH 12/15] fix: keep the tag and position lookups of a cell when
 its id is updated

---
 core/ipyflow/data_model/cell.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/core/ipyflow/data_model/cell.py b/core/ipyflow/data_model/cell.py
index fcfdc8c..88b7db2 100644
--- a/core/ipyflow/data_model/cell.py
+++ b/core/ipyflow/data_model/cell.py
@@ -261,7 +261,13 @@ class Cell(SliceableMixin):
 
     def update_id(self, new_id: IdType, update_edges: bool = True) -> None:
         old_id = self.cell_id
+        # the hash depends on the id
+        tags = [tag for tag in self.tags if self in self._cells_by_tag[tag]]
+        for tag in tags:
+            self._cells_by_tag[tag].discard(self)
         self.cell_id = new_id
+        for tag in tags:
+            self._cells_by_tag[tag].add(self)
         self._placeholder_id = False
         if self.prev_cell is not None:
             self.prev_cell.update_id(new_id, update_edges=False)
@@ -270,6 +276,8 @@ class Cell(SliceableMixin):
         pos = self._position_by_cell_id.pop(old_id, None)
         if pos is not None:
             self._position_by_cell_id[new_id] = pos
+            if self._cell_id_by_position.get(pos) == old_id:
+                self._cell_id_by_position[pos] = new_id
         current_cell = self._current_cell_by_cell_id.pop(old_id, None)
         if current_cell is not None:
             assert current_cell is self
-- 
2.43.0


From a20c62c34eacc69ec43a1a2bf0313bef6ce285eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:58 +0000
Subject: [PATCH 13/15] fix: %tag --remove makes the cell no longer found by
 the tag

---
 core/ipyflow/line_magics.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/ipyflow/line_magics.py b/core/ipyflow/line_magics.py
index 29a15f0..7002df8 100644
--- a/core/ipyflow/line_magics.py
+++ b/core/ipyflow/line_magics.py
@@ -375,6 +375,7 @@ def tag(line: str) -> None:
     cell_tags = set(cell.tags)
     if args.remove:
         cell.tags = tuple(cell_tags - {tag_name})
+        cells()._cells_by_tag[tag_name].discard(cell)
     else:
         cell.tags = tuple(cell_tags | {tag_name})
         cells()._cells_by_tag[tag_name].add(cell)
-- 
2.43.0


From d7d6aaf9c7cb2c1f729494e94e2cf9868852a3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:07 +0000
Subject: [PATCH 14/15] fix: keep track of list elements addressed by negative
 indices

---
 core/ipyflow/data_model/namespace.py | 22 ++++++++++++++++++----
 core/ipyflow/data_model/scope.py     |  4 ++++
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/core/ipyflow/data_model/namespace.py b/core/ipyflow/data_model/namespace.py
index 6dd8c2c..468bb55 100644
--- a/core/ipyflow/data_model/namespace.py
+++ b/core/ipyflow/data_model/namespace.py
@@ -315,10 +315,14 @@ class Namespace(Scope):
     ) -> None:
         if is_subscript:
             sym = self._subscript_symbol_by_name.pop(name, None)
-            if sym is None and name == -1 and isinstance(self.obj, list):
-                name = len(
-                    self.obj
-                )  # it will have already been deleted, so don't subtract 1
+            if (
+                sym is None
+                and isinstance(self.obj, list)
+                and isinstance(name, int)
+                and name < 0
+            ):
+                # it will have already been deleted, so count from one past the current length
+                name += len(self.obj) + 1
                 sym = self._subscript_symbol_by_name.pop(name, None)
             if sym is not None:
                 sym.update_deps(set(), deleted=True)
@@ -345,6 +349,16 @@ class Namespace(Scope):
             )
         return itertools.chain(*sym_collections_to_chain)
 
+    def canonical_name(self, name: SupportedIndexType) -> SupportedIndexType:
+        if (
+            isinstance(self.obj, (list, tuple))
+            and isinstance(name, int)
+            and -len(self.obj) <= name < 0
+        ):
+            # each element is tracked under its nonnegative index only
+            name += len(self.obj)
+        return name
+
     def put(self, name: SupportedIndexType, val: Symbol) -> None:
         if val.is_subscript:
             self._subscript_symbol_by_name[name] = val
diff --git a/core/ipyflow/data_model/scope.py b/core/ipyflow/data_model/scope.py
index 3e39d70..1058fcd 100644
--- a/core/ipyflow/data_model/scope.py
+++ b/core/ipyflow/data_model/scope.py
@@ -365,6 +365,9 @@ class Scope:
                 current_cell._pending_dynamic_writes.add(sym)
         return sym
 
+    def canonical_name(self, name: SupportedIndexType) -> SupportedIndexType:
+        return name
+
     def _upsert_symbol_for_name_inner(
         self,
         name: SupportedIndexType,
@@ -376,6 +379,7 @@ class Scope:
         implicit: bool = False,
     ) -> Tuple[Symbol, Optional[Symbol], Optional[Any]]:
         prev_obj = None
+        name = self.canonical_name(name)
         prev_sym = self.lookup_symbol_by_name_this_indentation(
             name,
             is_subscript=symbol_type == SymbolType.SUBSCRIPT,
-- 
2.43.0


From d26724a8aaec619c89036ef0e2f6555f7102d21f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:07 +0000
Subject: [PATCH 15/15] fix: follow the effective position of list.insert and
 the default of list.pop

---
 .../tracing/external_calls/list_handlers.py      | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/core/ipyflow/tracing/external_calls/list_handlers.py b/core/ipyflow/tracing/external_calls/list_handlers.py
index 19ebe02..563ce9b 100644
--- a/core/ipyflow/tracing/external_calls/list_handlers.py
+++ b/core/ipyflow/tracing/external_calls/list_handlers.py
@@ -53,12 +53,16 @@ class ListInsert(ListMethod):
         inserted_syms = {
             sym for sym in inserted_arg_syms if sym.obj is inserted_arg_obj
         }
-        if len(inserted_syms) > 1:
-            return
-        namespace.shuffle_symbols_upward_from(self.insert_pos)
+        # resolve negative and out-of-range positions the way list.insert() does
+        orig_len = len(namespace.obj) - 1
+        insert_pos = self.insert_pos
+        if insert_pos < 0:
+            insert_pos = max(insert_pos + orig_len, 0)
+        insert_pos = min(insert_pos, orig_len)
+        namespace.shuffle_symbols_upward_from(insert_pos)
         namespace.upsert_symbol_for_name(
-            self.insert_pos,
-            namespace.obj[self.insert_pos],
+            insert_pos,
+            namespace.obj[insert_pos],
             inserted_syms,
             self.stmt_node,
             overwrite=False,
@@ -87,5 +91,7 @@ class ListRemove(ListMethod):
 
 
 class ListPop(ListRemove):
+    remove_pos: Optional[int] = -1
+
     def process_arg(self, pop_pos: int) -> None:
         self.remove_pos = pop_pos
-- 
2.43.0

