From 29aa251e3a77b14169c020f9e2561e36d7779949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:25 +0000
Subject: [PATCH 01/25] fix: honour einsum options and interleaved input when
 sharing intermediates

---
 opt_einsum/sharing.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/opt_einsum/sharing.py b/opt_einsum/sharing.py
index c9ee583..f23b120 100644
--- a/opt_einsum/sharing.py
+++ b/opt_einsum/sharing.py
@@ -165,8 +165,13 @@ def einsum_cache_wrap(einsum: Any) -> Any:
 
         # hash modulo commutativity by computing a canonical ordering and names
         backend = kwargs.pop("backend", "numpy")
-        equation = args[0]
+
+        # calls with extra options (e.g. ``out`` or ``dtype``) are not described by the key: don't share them
+        if any(value is not None for value in kwargs.values()):
+            return einsum(*args, backend=backend, **kwargs)
+
         inputs, output, operands = parse_einsum_input(args)
+        equation = inputs + "->" + output
         inputs = inputs.split(",")
 
         _save_tensors(*operands)
-- 
2.43.0


From 72aaf3f3838d7b7b9f797164a4c72a845970b5aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:25 +0000
Subject: [PATCH 02/25] fix: write scalar results into a zero-dimensional out
 array

---
 opt_einsum/contract.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opt_einsum/contract.py b/opt_einsum/contract.py
index 9ea929f..6e52cb3 100644
--- a/opt_einsum/contract.py
+++ b/opt_einsum/contract.py
@@ -692,7 +692,7 @@ def _core_contract(
                 new_view = _transpose(new_view, axes=transpose, backend=backend)
 
                 if handle_out:
-                    out[:] = new_view  # type: ignore
+                    out[()] = new_view  # type: ignore
 
         else:
             # Call einsum
-- 
2.43.0


From 74502fd153c41fb87e76d573a97a073fe18b0261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:25 +0000
Subject: [PATCH 03/25] fix: do not pass einsum-only options to tensordot

---
 opt_einsum/contract.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/opt_einsum/contract.py b/opt_einsum/contract.py
index 6e52cb3..3471e31 100644
--- a/opt_einsum/contract.py
+++ b/opt_einsum/contract.py
@@ -663,7 +663,8 @@ def _core_contract(
         handle_out = specified_out and ((num + 1) == len(contraction_list))
 
         # Call tensordot (check if should prefer einsum, but only if available)
-        if blas_flag and ("EINSUM" not in blas_flag or no_einsum):  # type: ignore
+        #     n.b. tensordot can't take any of the extra einsum options such as ``dtype``
+        if blas_flag and not kwargs and ("EINSUM" not in blas_flag or no_einsum):  # type: ignore
             # Checks have already been handled
             input_str, results_index = einsum_str.split("->")
             input_left, input_right = input_str.split(",")
@@ -684,7 +685,7 @@ def _core_contract(
                 axes = ((), ())
 
             # Contract!
-            new_view = _tensordot(*tmp_operands, axes=axes, backend=backend, **kwargs)
+            new_view = _tensordot(*tmp_operands, axes=axes, backend=backend)
 
             # Build a new view if needed
             if (tensor_result != results_index) or handle_out:
-- 
2.43.0


From dfa5116182b894909d953cd459dd9144c2ea2b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:25 +0000
Subject: [PATCH 04/25] fix: accept spaces and ellipses in unoptimized
 contractions with unicode symbols

---
 opt_einsum/contract.py | 5 +++--
 opt_einsum/parser.py   | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/opt_einsum/contract.py b/opt_einsum/contract.py
index 3471e31..4dcb217 100644
--- a/opt_einsum/contract.py
+++ b/opt_einsum/contract.py
@@ -437,13 +437,14 @@ def _einsum(*operands: Any, **kwargs: Any) -> ArrayType:
     if not isinstance(operands[0], str):
         return fn(*operands, **kwargs)
 
-    einsum_str, operands = operands[0], operands[1:]
+    einsum_str, operands = operands[0].replace(" ", ""), operands[1:]
 
     # Do we need to temporarily map indices into [a-z,A-Z] range?
     if not parser.has_valid_einsum_chars_only(einsum_str):
         # Explicitly find output str first so as to maintain order
         if "->" not in einsum_str:
-            einsum_str += "->" + parser.find_output_str(einsum_str)
+            ellipsis = "..." if "..." in einsum_str else ""
+            einsum_str += "->" + ellipsis + parser.find_output_str(einsum_str)
 
         einsum_str = parser.convert_to_valid_einsum_chars(einsum_str)
 
diff --git a/opt_einsum/parser.py b/opt_einsum/parser.py
index 316a421..e362c90 100644
--- a/opt_einsum/parser.py
+++ b/opt_einsum/parser.py
@@ -109,7 +109,7 @@ def convert_to_valid_einsum_chars(einsum_str: str) -> str:
     >>> oe.parser.convert_to_valid_einsum_chars("Ĥěļļö")
     'cbdda'
     """
-    symbols = sorted(set(einsum_str) - set(",->"))
+    symbols = sorted(set(einsum_str) - set(".,->"))
     replacer = {x: get_symbol(i) for i, x in enumerate(symbols)}
     return "".join(replacer.get(x, x) for x in einsum_str)
 
-- 
2.43.0


From 51a908709091957dc69503ca0e78bfba9cab5cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:26 +0000
Subject: [PATCH 05/25] fix: respect the backend argument when not optimizing

---
 opt_einsum/contract.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/opt_einsum/contract.py b/opt_einsum/contract.py
index 4dcb217..93677cb 100644
--- a/opt_einsum/contract.py
+++ b/opt_einsum/contract.py
@@ -582,7 +582,8 @@ def contract(
 
     # If no optimization, run pure einsum
     if optimize is False:
-        return _einsum(*operands_list, out=out, **kwargs)
+        arrays = operands if isinstance(subscripts, str) else operands_list
+        return _einsum(*operands_list, out=out, backend=parse_backend(arrays, backend), **kwargs)
 
     # Grab non-einsum kwargs
     gen_expression = kwargs.pop("_gen_expression", False)
-- 
2.43.0


From 36112bb9a16ee815782e98082ecc1d76c3758937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:26 +0000
Subject: [PATCH 06/25] fix: write torch einsum results into out when it is
 supplied

---
 opt_einsum/backends/torch.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/opt_einsum/backends/torch.py b/opt_einsum/backends/torch.py
index f7f01f2..6f5af0c 100644
--- a/opt_einsum/backends/torch.py
+++ b/opt_einsum/backends/torch.py
@@ -45,7 +45,14 @@ def einsum(equation, *operands, **kwargs):
     equation = convert_to_valid_einsum_chars(equation)
 
     torch, _ = _get_torch_and_device()
-    return torch.einsum(equation, operands)
+    result = torch.einsum(equation, operands)
+
+    out = kwargs.get("out", None)
+    if out is not None:
+        out[()] = result
+        return out
+
+    return result
 
 
 def tensordot(x, y, axes=2):
-- 
2.43.0


From 8dd7cb5e7b2d8ee34f4cc72515c6df4fa25516d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:26 +0000
Subject: [PATCH 07/25] fix: check for already registered path functions
 case-insensitively

---
 opt_einsum/paths.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/opt_einsum/paths.py b/opt_einsum/paths.py
index 5c38c45..68e5964 100644
--- a/opt_einsum/paths.py
+++ b/opt_einsum/paths.py
@@ -1379,10 +1379,11 @@ _PATH_OPTIONS: Dict[str, PathSearchFunctionType] = {
 
 def register_path_fn(name: str, fn: PathSearchFunctionType) -> None:
     """Add path finding function ``fn`` as an option with ``name``."""
+    name = name.lower()
     if name in _PATH_OPTIONS:
         raise KeyError(f"Path optimizer '{name}' already exists.")
 
-    _PATH_OPTIONS[name.lower()] = fn
+    _PATH_OPTIONS[name] = fn
 
 
 def get_path_fn(path_type: str) -> PathSearchFunctionType:
-- 
2.43.0


From c6ceef3f8436be35172da3c0b72d804181540320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:26 +0000
Subject: [PATCH 08/25] fix: run every requested trial when searching in
 parallel

---
 opt_einsum/path_random.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/opt_einsum/path_random.py b/opt_einsum/path_random.py
index 1376822..579e81e 100644
--- a/opt_einsum/path_random.py
+++ b/opt_einsum/path_random.py
@@ -135,10 +135,9 @@ class RandomOptimizer(paths.PathOptimizer):
         # the idea here is to submit at least ``pre_dispatch`` jobs *before* we
         # yield any results, then do both in tandem, before draining the queue
         for r in repeats:
-            if len(self._futures) < self.pre_dispatch:
-                self._futures.append(self._executor.submit(trial_fn, r, *args))
-                continue
-            yield self._futures.popleft().result()
+            if len(self._futures) >= self.pre_dispatch:
+                yield self._futures.popleft().result()
+            self._futures.append(self._executor.submit(trial_fn, r, *args))
 
         while self._futures:
             yield self._futures.popleft().result()
-- 
2.43.0


From 7cc549082ce4b2459a87613a07180c8358607a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:54 +0000
Subject: [PATCH 09/25] fix: do not reuse pairwise contraction results between
 different sets of terms

---
 opt_einsum/paths.py | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/opt_einsum/paths.py b/opt_einsum/paths.py
index 68e5964..73a78fc 100644
--- a/opt_einsum/paths.py
+++ b/opt_einsum/paths.py
@@ -231,9 +231,9 @@ def optimal(
     best_flops = {"flops": float("inf")}
     best_ssa_path = {"ssa_path": (tuple(range(len(inputs))),)}
     size_cache: Dict[FrozenSet[str], int] = {}
-    result_cache: Dict[Tuple[ArrayIndexType, ArrayIndexType], Tuple[FrozenSet[str], int]] = {}
+    result_cache: Dict[Tuple[int, int], Tuple[FrozenSet[str], int]] = {}
 
-    def _optimal_iterate(path, remaining, inputs, flops):
+    def _optimal_iterate(path, remaining, inputs, flops, leaves):
         # reached end of path (only ever get here if flops is best found so far)
         if len(remaining) == 1:
             best_flops["flops"] = flops
@@ -244,7 +244,8 @@ def optimal(
         for i, j in itertools.combinations(remaining, 2):
             if i > j:
                 i, j = j, i
-            key = (inputs[i], inputs[j])
+            # n.b. which indices are kept depends on which original terms each operand contains
+            key = (leaves[i], leaves[j])
             try:
                 k12, flops12 = result_cache[key]
             except KeyError:
@@ -276,9 +277,12 @@ def optimal(
                 inputs=inputs + (k12,),
                 remaining=remaining - {i, j} | {len(inputs)},
                 flops=new_flops,
+                leaves=leaves + (leaves[i] | leaves[j],),
             )
 
-    _optimal_iterate(path=(), inputs=inputs_set, remaining=set(range(len(inputs))), flops=0)
+    # the original terms that each operand is made of, as bitmaps
+    leaves = tuple(1 << n for n in range(len(inputs)))
+    _optimal_iterate(path=(), inputs=inputs_set, remaining=set(range(len(inputs))), flops=0, leaves=leaves)
 
     return ssa_to_linear(best_ssa_path["ssa_path"])
 
@@ -400,9 +404,9 @@ class BranchBound(PathOptimizer):
         output: FrozenSet[str] = frozenset(output_)
 
         size_cache = {k: compute_size_by_dict(k, size_dict) for k in inputs}
-        result_cache: Dict[Tuple[FrozenSet[str], FrozenSet[str]], Tuple[FrozenSet[str], int]] = {}
+        result_cache: Dict[Tuple[int, int], Tuple[FrozenSet[str], int]] = {}
 
-        def _branch_iterate(path, inputs, remaining, flops, size):
+        def _branch_iterate(path, inputs, remaining, flops, size, leaves):
             # reached end of path (only ever get here if flops is best found so far)
             if len(remaining) == 1:
                 self.best["size"] = size
@@ -412,10 +416,12 @@ class BranchBound(PathOptimizer):
 
             def _assess_candidate(k1: FrozenSet[str], k2: FrozenSet[str], i: int, j: int) -> Any:
                 # find resulting indices and flops
+                #     n.b. which indices are kept depends on which original terms each operand contains
+                key = (leaves[i], leaves[j])
                 try:
-                    k12, flops12 = result_cache[k1, k2]
+                    k12, flops12 = result_cache[key]
                 except KeyError:
-                    k12, flops12 = result_cache[k1, k2] = calc_k12_flops(inputs, output, remaining, i, j, size_dict)
+                    k12, flops12 = result_cache[key] = calc_k12_flops(inputs, output, remaining, i, j, size_dict)
 
                 try:
                     size12 = size_cache[k12]
@@ -486,10 +492,13 @@ class BranchBound(PathOptimizer):
                     remaining=(remaining - {i, j}) | {len(inputs)},
                     flops=new_flops,
                     size=new_size,
+                    leaves=leaves + (leaves[i] | leaves[j],),
                 )
                 bi += 1
 
-        _branch_iterate(path=(), inputs=inputs, remaining=set(range(len(inputs))), flops=0, size=0)
+        # the original terms that each operand is made of, as bitmaps
+        leaves = tuple(1 << n for n in range(len(inputs)))
+        _branch_iterate(path=(), inputs=inputs, remaining=set(range(len(inputs))), flops=0, size=0, leaves=leaves)
 
         return self.path
 
-- 
2.43.0


From fad1705be5225df0a6e1a8b4c934e6f26c4f0b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:54 +0000
Subject: [PATCH 10/25] fix: keep the best size of a branch search in step with
 its best path

---
 opt_einsum/paths.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/opt_einsum/paths.py b/opt_einsum/paths.py
index 73a78fc..ea9ed8a 100644
--- a/opt_einsum/paths.py
+++ b/opt_einsum/paths.py
@@ -446,7 +446,8 @@ class BranchBound(PathOptimizer):
                 if (memory_limit not in _UNLIMITED_MEM) and (size12 > memory_limit):  # type: ignore
                     # terminate path here, but check all-terms contract first
                     new_flops = flops + _compute_oversize_flops(inputs, remaining, output_, size_dict)
-                    if new_flops < self.best["flops"]:
+                    if self.better(new_flops, size, self.best["flops"], self.best["size"]):
+                        self.best["size"] = size
                         self.best["flops"] = new_flops
                         self.best["ssa_path"] = path + (tuple(remaining),)
                     return None
-- 
2.43.0


From ec5687df345d0a670b45160cdddf41f1027fbf9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:54 +0000
Subject: [PATCH 11/25] fix: publish evaluated constants only after the
 matching contraction list

---
 opt_einsum/contract.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/opt_einsum/contract.py b/opt_einsum/contract.py
index 93677cb..8832028 100644
--- a/opt_einsum/contract.py
+++ b/opt_einsum/contract.py
@@ -784,8 +784,9 @@ class ContractExpression:
         except KeyError:
             new_ops, new_contraction_list = self(*tmp_const_ops, backend=backend, evaluate_constants=True)
 
-        self._evaluated_constants[backend] = new_ops
+        # n.b. the constants mark this backend as ready, so only set them once the matching list is in place
         self.contraction_list = new_contraction_list
+        self._evaluated_constants[backend] = new_ops
 
     def _get_evaluated_constants(self, backend: str) -> List[Optional[ArrayType]]:
         """Retrieve or generate the cached list of constant operators (mixed
-- 
2.43.0


From e3a281162fbbb878e01af4348136a0ee0d6f4e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:54 +0000
Subject: [PATCH 12/25] fix: treat every unlimited memory value alike in the
 dynamic programming search

---
 opt_einsum/paths.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/opt_einsum/paths.py b/opt_einsum/paths.py
index ea9ed8a..e051255 100644
--- a/opt_einsum/paths.py
+++ b/opt_einsum/paths.py
@@ -1191,6 +1191,9 @@ class DynamicProgramming(PathOptimizer):
             #> [(1, 2), (0, 4), (1, 2), (0, 2), (0, 1)]
             ```
         """
+        if memory_limit_ in _UNLIMITED_MEM:
+            memory_limit_ = None
+
         _check_contraction, naive_scale = _parse_minimize(self.minimize)
         _check_outer = (lambda x: True) if self.search_outer else (lambda x: x)
 
-- 
2.43.0


From f614bb634944cb8efd16ef6e643260b72d4e1de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:54 +0000
Subject: [PATCH 13/25] fix: do not cache the fallback function of a single
 call

---
 opt_einsum/backends/dispatch.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/opt_einsum/backends/dispatch.py b/opt_einsum/backends/dispatch.py
index dd71642..159579e 100644
--- a/opt_einsum/backends/dispatch.py
+++ b/opt_einsum/backends/dispatch.py
@@ -79,7 +79,9 @@ def get_func(func: str, backend: str = "numpy", default: Any = None) -> Any:
         return _cached_funcs[func, backend]
     except KeyError:
         fn = _import_func(func, backend, default)
-        _cached_funcs[func, backend] = fn
+        # the fallback is specific to this call: don't hand it out to others
+        if fn is not default:
+            _cached_funcs[func, backend] = fn
         return fn
 
 
-- 
2.43.0


From f4bca7759de214d655fdb84e8549b9943b829848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:13 +0000
Subject: [PATCH 14/25] fix: keep arrays converted to another backend alive
 while their results are shared

---
 opt_einsum/sharing.py | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/opt_einsum/sharing.py b/opt_einsum/sharing.py
index f23b120..829d555 100644
--- a/opt_einsum/sharing.py
+++ b/opt_einsum/sharing.py
@@ -14,7 +14,7 @@ from typing import Counter as CounterType
 from opt_einsum.parser import alpha_canonicalize, parse_einsum_input
 from opt_einsum.typing import ArrayType
 
-CacheKeyType = Union[Tuple[str, str, int, Tuple[int, ...]], Tuple[str, int]]
+CacheKeyType = Union[Tuple[str, str, int, Tuple[int, ...]], Tuple[str, int], Tuple[Any, ...]]
 CacheType = Dict[CacheKeyType, ArrayType]
 
 __all__ = [
@@ -97,6 +97,21 @@ def _save_tensors(*tensors: ArrayType) -> None:
         cache["tensor", id(tensor)] = tensor
 
 
+class _SameObject:
+    """Compares by identity, keeping the object alive so that its id can't be recycled."""
+
+    __slots__ = ("obj",)
+
+    def __init__(self, obj: Any):
+        self.obj = obj
+
+    def __hash__(self) -> int:
+        return id(self.obj)
+
+    def __eq__(self, other: Any) -> bool:
+        return isinstance(other, _SameObject) and self.obj is other.obj
+
+
 def _memoize(key: CacheKeyType, fn: Any, *args: Any, **kwargs: Any) -> ArrayType:
     """Memoize ``fn(*args, **kwargs)`` using the given ``key``.
     Results will be stored in the innermost ``cache`` yielded by
@@ -204,7 +219,7 @@ def to_backend_cache_wrap(to_backend: Any = None, constants: Any = False) -> Any
                 return to_backend(array, constant=constant)
 
             # hash by id
-            key = to_backend.__name__, id(array), constant
+            key = to_backend.__name__, _SameObject(array), constant
             return _memoize(key, to_backend, array, constant=constant)
 
     else:
@@ -215,7 +230,7 @@ def to_backend_cache_wrap(to_backend: Any = None, constants: Any = False) -> Any
                 return to_backend(array)
 
             # hash by id
-            key = to_backend.__name__, id(array)
+            key = to_backend.__name__, _SameObject(array)
             return _memoize(key, to_backend, array)
 
     return cached_to_backend
-- 
2.43.0


From 567b879d1c5b9d6b7d3548ab3f2ecb0759797395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:34 +0000
Subject: [PATCH 15/25] fix: transpose zero-dimensional torch tensors

---
 opt_einsum/backends/torch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opt_einsum/backends/torch.py b/opt_einsum/backends/torch.py
index 6f5af0c..4b0d159 100644
--- a/opt_einsum/backends/torch.py
+++ b/opt_einsum/backends/torch.py
@@ -35,7 +35,7 @@ def _get_torch_and_device():
 
 def transpose(a, axes):
     """Normal torch transpose is only valid for 2D matrices."""
-    return a.permute(*axes)
+    return a.permute(tuple(axes))
 
 
 def einsum(equation, *operands, **kwargs):
-- 
2.43.0


From d246c1a29222f82b8b102711a4b423141ea33efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:10 +0000
Subject: [PATCH 16/25] fix: dynamic programming checks outer products of
 subgraphs against memory_limit

---
 opt_einsum/paths.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/opt_einsum/paths.py b/opt_einsum/paths.py
index e051255..2e77200 100644
--- a/opt_einsum/paths.py
+++ b/opt_einsum/paths.py
@@ -1218,6 +1218,7 @@ class DynamicProgramming(PathOptimizer):
         # disconnected subgraphs and their size
         subgraph_contractions = inputs_done
         subgraph_contractions_size = [1] * len(inputs_done)
+        subgraph_contractions_inds: List[FrozenSet[int]] = [frozenset()] * len(inputs_done)
 
         if self.search_outer:
             # optimize everything together if we are considering outer products
@@ -1302,20 +1303,25 @@ class DynamicProgramming(PathOptimizer):
             i, cost, contraction = list(x[-1].values())[0]
             subgraph_contractions.append(contraction)
             subgraph_contractions_size.append(compute_size_by_dict(i, size_dict))
+            subgraph_contractions_inds.append(i)
 
         # sort the subgraph contractions by the size of the subgraphs in
         # ascending order (will give the cheapest contractions); note that
         # outer products should be performed pairwise (to use BLAS functions)
-        subgraph_contractions = [
-            subgraph_contractions[j]
-            for j in sorted(
-                range(len(subgraph_contractions_size)),
-                key=subgraph_contractions_size.__getitem__,
-            )
-        ]
+        subgraph_order = sorted(
+            range(len(subgraph_contractions_size)),
+            key=subgraph_contractions_size.__getitem__,
+        )
+        subgraph_contractions = [subgraph_contractions[j] for j in subgraph_order]
 
         # build the final contraction tree
         tree = simple_tree_tuple(subgraph_contractions)
+        if memory_limit_ is not None and len(subgraph_order) > 2:
+            # the largest intermediate of the pairwise outer products needs to
+            # fit as well, otherwise perform them all in a single contraction
+            i = frozenset().union(*(subgraph_contractions_inds[j] for j in subgraph_order[:-1]))
+            if compute_size_by_dict(i, size_dict) > memory_limit_:
+                tree = tuple(subgraph_contractions)
         return _tree_to_sequence(tree)
 
 
-- 
2.43.0


From fd7cb0b183771509bc01b9620368b8cd9b12af8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:39 +0000
Subject: [PATCH 17/25] fix: reject explicit paths that do not contract all
 operands to the output

---
 opt_einsum/contract.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/opt_einsum/contract.py b/opt_einsum/contract.py
index 8832028..1d0c8ce 100644
--- a/opt_einsum/contract.py
+++ b/opt_einsum/contract.py
@@ -408,6 +408,10 @@ def contract_path(
         contraction = (contract_inds, idx_removed, einsum_str, remaining, do_blas)
         contraction_list.append(contraction)
 
+    # A path supplied by the user might not combine all operands into the output
+    if input_list != [output_subscript]:
+        raise ValueError(f"Path {path_tuple} does not contract the operands to the output '{output_subscript}'.")
+
     opt_cost = sum(cost_list)
 
     if einsum_call_arg:
-- 
2.43.0


From f2b36ee04f4e86aa40fc953870e16fbf7a7058f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:29 +0000
Subject: [PATCH 18/25] fix: compare later calls of a path optimizer with a
 copy of its first arguments

---
 opt_einsum/paths.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/opt_einsum/paths.py b/opt_einsum/paths.py
index 2e77200..146ddc4 100644
--- a/opt_einsum/paths.py
+++ b/opt_einsum/paths.py
@@ -59,7 +59,8 @@ class PathOptimizer:
         """Utility that stateful optimizers can use to ensure they are not
         called with different contractions across separate runs.
         """
-        args = (inputs, output, size_dict)
+        # copies: the caller may reuse and modify its own containers between calls
+        args = ([frozenset(term) for term in inputs], frozenset(output), dict(size_dict))
         if not hasattr(self, "_first_call_args"):
             # simply set the attribute as currently there is no global PathOptimizer init
             self._first_call_args = args
-- 
2.43.0


From db7cc903649362715a0f2e0c0585e5a67e1fe636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:58 +0000
Subject: [PATCH 19/25] fix: evaluate expressions whose operands are all
 constant

---
 opt_einsum/contract.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/opt_einsum/contract.py b/opt_einsum/contract.py
index 1d0c8ce..a08eb42 100644
--- a/opt_einsum/contract.py
+++ b/opt_einsum/contract.py
@@ -659,8 +659,10 @@ def _core_contract(
         inds, idx_rm, einsum_str, _, blas_flag = contraction
 
         # check if we are performing the pre-pass of an expression with constants,
-        #     if so, break out upon finding first non-constant (None) operand
-        if evaluate_constants and any(operands[x] is None for x in inds):
+        #     if so, break out upon finding first non-constant (None) operand, and leave the last
+        #     step to the calls of the expression even if all its operands are constant
+        last_step = num + 1 == len(contraction_list)
+        if evaluate_constants and (last_step or any(operands[x] is None for x in inds)):
             return operands, contraction_list[num:]
 
         tmp_operands = [operands.pop(x) for x in inds]
@@ -877,7 +879,7 @@ class ContractExpression:
         Returns:
             The contracted result.
         """
-        backend = parse_backend(arrays, backend)
+        backend = parse_backend(arrays or list(self._constants_dict.values()), backend)
 
         correct_num_args = self._full_num_args if evaluate_constants else self.num_args
 
-- 
2.43.0


From 066e4019c494e9b9fcb8ef858a1daa2d1e14c6a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:55:44 +0000
Subject: [PATCH 20/25] fix: object einsum ignored broadcasting of size-1
 dimensions

---
 opt_einsum/backends/object_arrays.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/opt_einsum/backends/object_arrays.py b/opt_einsum/backends/object_arrays.py
index 8954a18..88bd1e6 100644
--- a/opt_einsum/backends/object_arrays.py
+++ b/opt_einsum/backends/object_arrays.py
@@ -36,7 +36,9 @@ def object_einsum(eq: str, *arrays: ArrayType) -> ArrayType:
     sizes = {}
     for term, array in zip(inputs, arrays):
         for k, d in zip(term, array.shape):
-            sizes[k] = d
+            # dimensions of size 1 are broadcast against the others
+            if sizes.get(k, 1) == 1:
+                sizes[k] = d
 
     out_size = tuple(sizes[k] for k in output)
     out = np.empty(out_size, dtype=object)
@@ -50,7 +52,10 @@ def object_einsum(eq: str, *arrays: ArrayType) -> ArrayType:
         def gen_inner_sum():
             for coo_i in np.ndindex(*inner_size):
                 coord.update(dict(zip(inner, coo_i)))
-                locs = (tuple(coord[k] for k in term) for term in inputs)
+                locs = (
+                    tuple(0 if d == 1 else coord[k] for k, d in zip(term, array.shape))
+                    for term, array in zip(inputs, arrays)
+                )
                 elements = (array[loc] for array, loc in zip(arrays, locs))
                 yield functools.reduce(operator.mul, elements)
 
-- 
2.43.0


From 29725820c4dbefb77f00c4b1f0ca77d04ac9a67e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:45 +0000
Subject: [PATCH 21/25] fix: dynamic programming gave up without a memory limit
 on indices of size zero

The bound beyond which no contraction can exist was the product of all sizes,
zero as soon as one index has size zero, though results without that index are
as large as ever: DynamicProgramming(minimize='size', cost_cap=1) on
'ab,bc,cd->ad' with b=0 raised 'No contraction found'.
---
 opt_einsum/paths.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/opt_einsum/paths.py b/opt_einsum/paths.py
index 146ddc4..4f9db4d 100644
--- a/opt_einsum/paths.py
+++ b/opt_einsum/paths.py
@@ -1207,7 +1207,8 @@ class DynamicProgramming(PathOptimizer):
         output = frozenset(symbol2int[c] for c in output_)
         size_dict_canonical = {symbol2int[c]: v for c, v in size_dict_.items() if c in symbol2int}
         size_dict = [size_dict_canonical[j] for j in range(len(size_dict_canonical))]
-        naive_cost = naive_scale * len(inputs) * functools.reduce(operator.mul, size_dict, 1)
+        # (indices of size zero do not make the results without them any cheaper)
+        naive_cost = naive_scale * len(inputs) * functools.reduce(operator.mul, (max(d, 1) for d in size_dict), 1)
 
         inputs, inputs_done, inputs_contractions = _dp_parse_out_single_term_ops(inputs, all_inds, ind_counts)
 
-- 
2.43.0


From 1d4e5f61845fe6ae25e796d0c1985ce2cad0a31e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:45 +0000
Subject: [PATCH 22/25] fix: dynamic programming looped forever on an
 unsatisfiable memory limit with combo and limit

Their bound was infinite, so the cost cap never exceeded it. Both have a finite
one: a step costs at most 1 + factor (combo) or max(1, factor) (limit) times
the product of all sizes. Custom functions keep the infinite bound.
---
 opt_einsum/paths.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/opt_einsum/paths.py b/opt_einsum/paths.py
index 4f9db4d..b65aaf1 100644
--- a/opt_einsum/paths.py
+++ b/opt_einsum/paths.py
@@ -1058,8 +1058,8 @@ def _parse_minimize(minimize: Union[str, Callable]) -> Tuple[Callable, Union[int
     elif minimize == "write":
         return _dp_compare_write, 1
     elif callable(minimize):
-        # default to naive_scale=inf for this and remaining options
-        # as otherwise memory_limit check can cause problems
+        # default to naive_scale=inf for custom functions, whose cost is not
+        # bounded, as otherwise memory_limit check can cause problems
         return minimize, float("inf")
 
     # parse out a customized value for the combination factor
@@ -1070,9 +1070,9 @@ def _parse_minimize(minimize: Union[str, Callable]) -> Tuple[Callable, Union[int
     minimize, custom_factor = match.groups()
     factor = float(custom_factor) if custom_factor else DEFAULT_COMBO_FACTOR
     if minimize == "combo":
-        return functools.partial(_dp_compare_combo, factor=factor, combine=sum), float("inf")
+        return functools.partial(_dp_compare_combo, factor=factor, combine=sum), 1 + factor
     elif minimize == "limit":
-        return functools.partial(_dp_compare_combo, factor=factor, combine=max), float("inf")
+        return functools.partial(_dp_compare_combo, factor=factor, combine=max), max(1, factor)
     else:
         raise ValueError(f"Couldn't parse `minimize` value: {minimize}.")
 
-- 
2.43.0


From f9962773e32410174a7c64ddf5c507f87a176f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:40 +0000
Subject: [PATCH 23/25] fix: dynamic programming overflowed a float on large
 networks with combo, limit and custom functions

A chain of 110 matrices of size 1000 raised OverflowError: the infinite scale,
or the factor parsed as a float, was multiplied with the product of all sizes.
The factor is written as an integer and stays one.
---
 opt_einsum/paths.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/opt_einsum/paths.py b/opt_einsum/paths.py
index b65aaf1..a850a9d 100644
--- a/opt_einsum/paths.py
+++ b/opt_einsum/paths.py
@@ -1068,7 +1068,7 @@ def _parse_minimize(minimize: Union[str, Callable]) -> Tuple[Callable, Union[int
         raise ValueError(f"Couldn't parse `minimize` value: {minimize}.")
 
     minimize, custom_factor = match.groups()
-    factor = float(custom_factor) if custom_factor else DEFAULT_COMBO_FACTOR
+    factor = int(custom_factor) if custom_factor else DEFAULT_COMBO_FACTOR
     if minimize == "combo":
         return functools.partial(_dp_compare_combo, factor=factor, combine=sum), 1 + factor
     elif minimize == "limit":
@@ -1208,7 +1208,9 @@ class DynamicProgramming(PathOptimizer):
         size_dict_canonical = {symbol2int[c]: v for c, v in size_dict_.items() if c in symbol2int}
         size_dict = [size_dict_canonical[j] for j in range(len(size_dict_canonical))]
         # (indices of size zero do not make the results without them any cheaper)
-        naive_cost = naive_scale * len(inputs) * functools.reduce(operator.mul, (max(d, 1) for d in size_dict), 1)
+        naive_size = len(inputs) * functools.reduce(operator.mul, (max(d, 1) for d in size_dict), 1)
+        # (an infinite scale is not multiplied: the cost may be too large for a float)
+        naive_cost = naive_scale if naive_scale == float("inf") else naive_scale * naive_size
 
         inputs, inputs_done, inputs_contractions = _dp_parse_out_single_term_ops(inputs, all_inds, ind_counts)
 
-- 
2.43.0


From 38fe72eebc7551093b292628ffc32bdf9b30b7dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:15 +0000
Subject: [PATCH 24/25] fix: a dimension of size 1 broadcast against one of
 size 0 was recorded with size 1

The planner then chose tensordot for sizes that differ: contract('ab,bc,bd->acd')
with shapes (2, 0), (1, 3), (1, 4) and path [(0, 1), (0, 1)] raised
'shape-mismatch for sum'.
---
 opt_einsum/parser.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/opt_einsum/parser.py b/opt_einsum/parser.py
index e362c90..7285318 100644
--- a/opt_einsum/parser.py
+++ b/opt_einsum/parser.py
@@ -166,7 +166,11 @@ def find_output_shape(inputs: List[str], shapes: List[TensorShapeType], output:
     >>> oe.parser.find_output_shape(["a", "a"], [(4, ), (1, )], "a")
     (4,)
     """
-    return tuple(max(shape[loc] for shape, loc in zip(shapes, [x.find(c) for x in inputs]) if loc >= 0) for c in output)
+    # n.b. a dimension of size 1 is broadcast to any other size, including 0
+    return tuple(
+        max((shape[loc] for shape, loc in zip(shapes, [x.find(c) for x in inputs]) if loc >= 0), key=lambda d: d != 1)
+        for c in output
+    )
 
 
 _BaseTypes = (bool, int, float, complex, str, bytes)
-- 
2.43.0


From 3c4a508390502197e14a2b9b7737e4b377ffa348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:15 +0000
Subject: [PATCH 25/25] fix: the shape of an empty sequence raised IndexError

get_shape([]) and get_shape([[], []]) are (0,) and (2, 0).
---
 opt_einsum/parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/opt_einsum/parser.py b/opt_einsum/parser.py
index 7285318..6ebda98 100644
--- a/opt_einsum/parser.py
+++ b/opt_einsum/parser.py
@@ -190,6 +190,8 @@ def get_shape(x: Any) -> TensorShapeType:
         shape = []
         while isinstance(x, Sequence) and not isinstance(x, _BaseTypes):
             shape.append(len(x))
+            if len(x) == 0:
+                break
             x = x[0]
         return tuple(shape)
     else:
-- 
2.43.0

