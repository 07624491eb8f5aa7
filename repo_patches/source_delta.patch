From 00f324c3654d0fad293feb6ae50129cf90270757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:16 +0000
Subject: [PATCH 01/30] fix: goos gradient accumulation double counted
 inherited fields and wrote into shared arrays

---
 spins/goos/flows.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/spins/goos/flows.py b/spins/goos/flows.py
index 748f412..4133f78 100644
--- a/spins/goos/flows.py
+++ b/spins/goos/flows.py
@@ -91,18 +91,22 @@ class FlowMeta(type):
                            for field in nonconst_fields]
 
             grad_bases = tuple(cls_base.Grad for cls_base in bases)
+            # Fields that are inherited are summed by the base classes.
+            own_fields = [
+                field[0] for field in grad_fields
+                if not any(field[0] in getattr(base, "__dataclass_fields__", {})
+                           for base in grad_bases)
+            ]
             cls.Grad = dataclasses.make_dataclass(name + ".Grad",
                                                   grad_fields,
                                                   bases=grad_bases)
 
             def __iadd__(self, value):
-                for field in grad_fields:
-                    field_val = getattr(self, field[0])
-                    value_val = getattr(value, field[0])
-                    try:
-                        field_val.__iadd__(value_val)
-                    except AttributeError:
-                        setattr(self, field[0], value_val + field_val)
+                for field in own_fields:
+                    # Do not add in place because the arrays could be shared
+                    # with other gradients.
+                    setattr(self, field,
+                            getattr(self, field) + getattr(value, field))
                 return super(cls.Grad, self).__iadd__(value)
 
             cls.Grad.__iadd__ = __iadd__
@@ -199,7 +203,9 @@ class NumericFlow(Flow):
         array_grad: np.ndarray = np_zero_field(1)
 
         def __iadd__(self, value):
-            self.array_grad += value.array_grad
+            # Do not add in place because the array could be shared with other
+            # gradients (and could have a different type).
+            self.array_grad = self.array_grad + value.array_grad
             return super().__iadd__(value)
 
         def __eq__(self, value) -> bool:
-- 
2.43.0


From 2f3035fd0bb6bbb42d8314c47731a5934f0da714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:27 +0000
Subject: [PATCH 02/30] fix: goos Sum and Product failed on operands of
 different shapes and did not sum broadcast gradients

---
 spins/goos/math.py | 35 ++++++++++++++++++++++++++++-------
 1 file changed, 28 insertions(+), 7 deletions(-)

diff --git a/spins/goos/math.py b/spins/goos/math.py
index 45c2c27..110a9fc 100644
--- a/spins/goos/math.py
+++ b/spins/goos/math.py
@@ -1,7 +1,9 @@
 from typing import List, Iterable, Union
 
 import copy
+import functools
 import numbers
+import operator
 
 import numpy as np
 
@@ -241,6 +243,18 @@ def find_dominant_numeric_flow(flow_list: List[goos.NumericFlow],
         return dom_flow
 
 
+def _unbroadcast(grad: np.ndarray, shape: tuple) -> np.ndarray:
+    """Sums `grad` over the axes along which `shape` was broadcast."""
+    extra_dims = np.ndim(grad) - len(shape)
+    if extra_dims > 0:
+        grad = np.sum(grad, axis=tuple(range(extra_dims)))
+    axes = tuple(i for i in range(len(shape))
+                 if shape[i] == 1 and np.shape(grad)[i] != 1)
+    if axes:
+        grad = np.sum(grad, axis=axes, keepdims=True)
+    return grad
+
+
 class Sum(Function):
     node_type = "goos.function.sum"
 
@@ -251,7 +265,8 @@ class Sum(Function):
     def eval(self, inputs: List[flows.NumericFlow],
              context: goos.EvalContext) -> flows.NumericFlow:
         flow = copy.deepcopy(find_dominant_numeric_flow(inputs))
-        flow.array = np.sum([x.array for x in inputs], axis=0)
+        flow.array = functools.reduce(operator.add, [x.array for x in inputs],
+                                      0)
         return flow
 
     def grad(self, inputs: List[flows.NumericFlow],
@@ -260,10 +275,13 @@ class Sum(Function):
         grads = []
         _, ind = find_dominant_numeric_flow(inputs, return_ind=True)
         for i in range(len(inputs)):
+            grad = _unbroadcast(grad_val.array_grad, np.shape(inputs[i].array))
             if ind == i:
-                grads.append(copy.deepcopy(grad_val))
+                flow = copy.deepcopy(grad_val)
+                flow.array_grad = grad
+                grads.append(flow)
             else:
-                grads.append(goos.NumericFlow.Grad(grad_val.array_grad))
+                grads.append(goos.NumericFlow.Grad(grad))
         return grads
 
     def __add__(self, obj):
@@ -289,7 +307,8 @@ class Product(Function):
 
     def eval(self, inputs: List[flows.NumericFlow]) -> flows.NumericFlow:
         flow = copy.deepcopy(find_dominant_numeric_flow(inputs))
-        flow.array = np.prod([x.array for x in inputs], axis=0)
+        flow.array = functools.reduce(operator.mul, [x.array for x in inputs],
+                                      1)
         return flow
 
     def grad(self, input_vals: List[flows.NumericFlow],
@@ -298,9 +317,11 @@ class Product(Function):
         grads = []
         for i in range(len(input_val_arr)):
             # Calculate product of everything except ith objective value.
-            prod_before = np.prod(input_val_arr[:i], axis=0)
-            prod_after = np.prod(input_val_arr[i + 1:], axis=0)
-            grads.append(prod_before * prod_after * grad_val.array_grad)
+            prod_others = functools.reduce(
+                operator.mul, input_val_arr[:i] + input_val_arr[i + 1:], 1)
+            grads.append(
+                _unbroadcast(prod_others * grad_val.array_grad,
+                             np.shape(input_val_arr[i])))
 
         grad_flows = []
         _, ind = find_dominant_numeric_flow(input_vals, return_ind=True)
-- 
2.43.0


From 46fcd77cd7e4e18a841f415b5e5312ebf4f8b94f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:09 +0000
Subject: [PATCH 03/30] fix: goos Power, Norm, Sigmoid and Slice gradients for
 complex, zero, stale and integer inputs

---
 spins/goos/math.py | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/spins/goos/math.py b/spins/goos/math.py
index 110a9fc..c0f73ac 100644
--- a/spins/goos/math.py
+++ b/spins/goos/math.py
@@ -365,8 +365,8 @@ class Power(Function):
              grad_val: flows.NumericFlow.Grad,
              context: goos.EvalContext) -> List[flows.NumericFlow.Grad]:
         new_grad_val = copy.deepcopy(grad_val)
-        new_grad_val.array_grad *= (self._pow *
-                                    input_vals[0].array**(self._pow - 1))
+        new_grad_val.array_grad = new_grad_val.array_grad * (
+            self._pow * input_vals[0].array**(self._pow - 1))
         return [new_grad_val]
 
 
@@ -463,8 +463,11 @@ class Norm(Function):
     def grad(self, input_vals: List[goos.NumericFlow],
              grad_val: goos.NumericFlow.Grad) -> List[goos.NumericFlow.Grad]:
         arr = input_vals[0].array.flatten()
-        norm_grad = np.conj(arr) * (
-            np.abs(arr) / np.linalg.norm(arr, ord=self._ord))**(self._ord - 1)
+        arr_norm = np.linalg.norm(arr, ord=self._ord)
+        if arr_norm == 0:
+            # Gradient is zero because `arr` is zero.
+            arr_norm = 1
+        norm_grad = np.conj(arr) * (np.abs(arr) / arr_norm)**(self._ord - 1)
         # Avoid division by zero.
         norm_grad[np.abs(arr) > 0] /= np.abs(arr[np.abs(arr) > 0])
         norm_grad = np.reshape(norm_grad, input_vals[0].array.shape)
@@ -530,16 +533,18 @@ class Sigmoid(Function):
         super().__init__(fun)
 
     def eval(self, inputs: List[goos.NumericFlow]) -> goos.NumericFlow:
-        self._sig = 1 / (1 + np.exp(-inputs[0].array))
-
         out = copy.deepcopy(inputs[0])
-        out.array = self._sig
+        out.array = 1 / (1 + np.exp(-inputs[0].array))
         return out
 
     def grad(self, inputs: List[goos.NumericFlow],
              grad_val: goos.NumericFlow.Grad) -> goos.NumericFlow.Grad:
+        # Do not rely on the value computed in the last call to `eval`, which
+        # could have been called with different inputs.
+        sig = 1 / (1 + np.exp(-inputs[0].array))
+
         grad_flow = copy.deepcopy(grad_val)
-        grad_flow.array_grad *= self._sig * (1 - self._sig)
+        grad_flow.array_grad = grad_flow.array_grad * sig * (1 - sig)
         return [grad_flow]
 
 
@@ -563,7 +568,11 @@ class Slice(Function):
         slices = self._make_slices(shape)
 
         grad = type(inputs[0]).Grad()
-        grad.array_grad = np.zeros_like(inputs[0].array)
+        # The input could be real or integral even if the gradient is not.
+        grad.array_grad = np.zeros_like(inputs[0].array,
+                                        dtype=np.result_type(
+                                            inputs[0].array,
+                                            grad_val.array_grad))
         grad.array_grad[slices] = grad_val.array_grad
         return [grad]
 
-- 
2.43.0


From 208efb169f8eb209a2ad422917939a3afc5bc92a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:51 +0000
Subject: [PATCH 04/30] fix: goos graph executor with dependent or overridden
 heavy nodes, shared and missing gradients, array flow flags

---
 spins/goos/array.py          |  4 ++-
 spins/goos/graph_executor.py | 60 +++++++++++++++++++++++++++---------
 2 files changed, 49 insertions(+), 15 deletions(-)

diff --git a/spins/goos/array.py b/spins/goos/array.py
index 8177c6b..8e4a66e 100644
--- a/spins/goos/array.py
+++ b/spins/goos/array.py
@@ -1,6 +1,7 @@
 """Contains nodes and flows for handling array flows."""
 from typing import List, Union
 
+import copy
 import dataclasses
 
 from spins import goos
@@ -35,7 +36,8 @@ class ArrayFlow(flows.Flow):
             for i in range(len(self.flows_grad)):
                 # `None + obj == obj` where `obj` is any valid `Grad` object.
                 if not self.flows_grad[i]:
-                    self.flows_grad[i] = value[i]
+                    # Copy because `self.flows_grad[i]` could be added to.
+                    self.flows_grad[i] = copy.deepcopy(value[i])
                 elif value[i]:
                     self.flows_grad[i] += value[i]
             return super().__iadd__(value)
diff --git a/spins/goos/graph_executor.py b/spins/goos/graph_executor.py
index d688101..9caa0d5 100644
--- a/spins/goos/graph_executor.py
+++ b/spins/goos/graph_executor.py
@@ -24,6 +24,7 @@ from typing import Dict, List, Set, Tuple, Union
 
 import collections
 import concurrent.futures
+import copy
 import inspect
 
 import numpy as np
@@ -145,10 +146,10 @@ def _eval_fun_vals(
         else:
             # If all the inputs are const, then this node must have const output.
             # If not, assume otherwise.
-            const_flags = type(fun_out).ConstFlags()
-            frozen_flags = type(fun_out).ConstFlags()
-            const_flags.set_all(all(con.const_flags for con in input_flags))
-            frozen_flags.set_all(all(con.frozen_flags for con in input_flags))
+            const_flags = _make_const_flags(
+                fun_out, all(con.const_flags for con in input_flags))
+            frozen_flags = _make_const_flags(
+                fun_out, all(con.frozen_flags for con in input_flags))
         return goos.NodeFlags(const_flags=const_flags,
                               frozen_flags=frozen_flags)
 
@@ -193,8 +194,12 @@ def _eval_fun_vals(
             # would be silently ignored.
             last_node_reached = False
             try:
-                while _is_heavy_fun(fun_map[node]):
-                    heavy_node_block.append(node)
+                # A heavy node that depends on another heavy node of the block
+                # has to wait for the next block.
+                while _is_heavy_fun(fun_map[node]) and not any(
+                        in_node in heavy_node_block for in_node in graph[node]):
+                    if node not in fun_vals:
+                        heavy_node_block.append(node)
                     node = next(node_iter)
             except StopIteration:
                 last_node_reached = True
@@ -298,18 +303,19 @@ def eval_grad(
             return fun_map[node].grad(input_vals, grad_val, context)
 
     def _update_grad_vals(node, node_grad_vals):
-        # If the gradient is `None`, we automatically create an
-        # empty gradient structure.
-        for i in range(len(node_grad_vals)):
-            if node_grad_vals[i] is None:
-                node_grad_vals[i] = type(input_vals[i]).Grad()
-
         # Update the gradient values.
         for next_node, next_fun_grad in zip(graph[node], node_grad_vals):
+            # If the gradient is `None`, we automatically create an
+            # empty gradient structure.
+            if next_fun_grad is None:
+                next_fun_grad = _make_zero_grad(fun_vals[next_node])
+
             if next_node in grad_vals:
                 grad_vals[next_node] += next_fun_grad
             else:
-                grad_vals[next_node] = next_fun_grad
+                # Copy because the node could return the same gradient object
+                # for several inputs and the gradient is accumulated in place.
+                grad_vals[next_node] = copy.deepcopy(next_fun_grad)
 
     try:
         node_iter = iter(top_sorted_nodes)
@@ -336,7 +342,10 @@ def eval_grad(
             heavy_node_block = []
             last_node_reached = False
             try:
-                while _is_heavy_fun(fun_map[node]):
+                # The gradient of a node is only complete once all the nodes
+                # that depend on it have been processed.
+                while _is_heavy_fun(fun_map[node]) and not any(
+                        node in graph[node_] for node_ in heavy_node_block):
                     heavy_node_block.append(node)
                     node = next(node_iter)
             except StopIteration:
@@ -377,6 +386,29 @@ def eval_grad(
     return grad_ret
 
 
+def _make_zero_grad(flow: "flows.Flow") -> "flows.Flow.Grad":
+    """Creates the zero gradient with respect to `flow`."""
+    if isinstance(flow, goos.ArrayFlow):
+        return goos.ArrayFlow.Grad([None] * len(flow))
+
+    grad = type(flow).Grad()
+    if isinstance(flow, flows.NumericFlow):
+        grad.array_grad = np.zeros(np.shape(flow.array))
+    return grad
+
+
+def _make_const_flags(flow: "flows.Flow",
+                      value: bool) -> "flows.Flow.ConstFlags":
+    """Creates the constant flags of `flow` with all flags set to `value`."""
+    if isinstance(flow, goos.ArrayFlow):
+        return goos.ArrayFlow.ConstFlags(
+            [_make_const_flags(sub_flow, value) for sub_flow in flow])
+
+    flags = type(flow).ConstFlags()
+    flags.set_all(value)
+    return flags
+
+
 def _create_computational_graph(
     fun_list: List["goos.Function"]
 ) -> Tuple[FunctionMap, Graph, Set[NodeId], NodeId]:
-- 
2.43.0


From 2dbdeb87d23fb0bf4a44df97f72abbaa1509491d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:31 +0000
Subject: [PATCH 05/30] fix: invdes graph executor with heavy nodes that depend
 on heavy nodes and with mixed real and complex gradients

---
 spins/invdes/problem/graph_executor.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/spins/invdes/problem/graph_executor.py b/spins/invdes/problem/graph_executor.py
index f214d71..71593f3 100644
--- a/spins/invdes/problem/graph_executor.py
+++ b/spins/invdes/problem/graph_executor.py
@@ -158,7 +158,10 @@ def _eval_fun_vals(fun_vals: Dict[NodeId, np.ndarray], fun_map: FunctionMap,
             # would be silently ignored.
             last_node_reached = False
             try:
-                while _is_heavy_fun(fun_map[node]):
+                # A heavy node that depends on another heavy node of the block
+                # has to wait for the next block.
+                while _is_heavy_fun(fun_map[node]) and not any(
+                        in_node in heavy_node_block for in_node in graph[node]):
                     heavy_node_block.append(node)
                     node = next(node_iter)
             except StopIteration:
@@ -278,7 +281,8 @@ def eval_grad(fun: "OptimizationFunction",
                     # Update the gradient values.
                     for next_node, next_fun_grad in zip(graph[node],
                                                         node_grad_vals):
-                        grad_vals[next_node] += next_fun_grad
+                        grad_vals[next_node] = (grad_vals[next_node] +
+                                                next_fun_grad)
 
                 node = next(node_iter)
 
@@ -287,7 +291,10 @@ def eval_grad(fun: "OptimizationFunction",
             heavy_node_block = []
             last_node_reached = False
             try:
-                while _is_heavy_fun(fun_map[node]):
+                # The gradient of a node is only complete once all the nodes
+                # that depend on it have been processed.
+                while _is_heavy_fun(fun_map[node]) and not any(
+                        node in graph[node_] for node_ in heavy_node_block):
                     heavy_node_block.append(node)
                     node = next(node_iter)
             except StopIteration:
@@ -308,7 +315,8 @@ def eval_grad(fun: "OptimizationFunction",
             for node_, node_grad_vals in zip(heavy_node_block, heavy_node_vals):
                 for next_node, next_fun_grad in zip(graph[node_],
                                                     node_grad_vals):
-                    grad_vals[next_node] += next_fun_grad
+                    grad_vals[next_node] = (grad_vals[next_node] +
+                                            next_fun_grad)
 
             if last_node_reached:
                 break
-- 
2.43.0


From 663a2123ebed33d8c0af3733ba7f6fdea2db5ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:21 +0000
Subject: [PATCH 06/30] fix: arithmetic of optimization functions with arrays
 and constants

---
 spins/goos/math.py                | 4 ++++
 spins/invdes/problem/objective.py | 8 +++++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/spins/goos/math.py b/spins/goos/math.py
index c0f73ac..695a65f 100644
--- a/spins/goos/math.py
+++ b/spins/goos/math.py
@@ -14,6 +14,10 @@ from spins.goos import flows
 class Function(goos.ProblemGraphNode):
     node_type = "goos.function"
 
+    # Make NumPy arrays defer to the operators defined here, e.g. in
+    # `array + fun`.
+    __array_ufunc__ = None
+
     def __add__(self, obj) -> "Sum":
         if isinstance(obj, Sum):
             return obj.__add__(self)
diff --git a/spins/invdes/problem/objective.py b/spins/invdes/problem/objective.py
index 028924a..0d5d663 100644
--- a/spins/invdes/problem/objective.py
+++ b/spins/invdes/problem/objective.py
@@ -39,6 +39,10 @@ class OptimizationFunction(metaclass=abc.ABCMeta):
     function.
     """
 
+    # Make NumPy arrays defer to the operators defined here, e.g. in
+    # `array + fun`.
+    __array_ufunc__ = None
+
     def __init__(self,
                  inputs: Union["OptimizationFunction", List[
                      "OptimizationFunction"]] = None,
@@ -147,7 +151,7 @@ class OptimizationFunction(metaclass=abc.ABCMeta):
         if isinstance(obj, numbers.Number):
             return Product([self, Constant(obj)], parallelize=False)
         if isinstance(obj, np.ndarray):
-            return Sum([self, Constant(obj)], parallelize=False)
+            return Product([self, Constant(obj)], parallelize=False)
         if isinstance(obj, OptimizationFunction):
             return Product([self, obj])
         raise TypeError("Attempting to add unknown object to objective")
@@ -420,6 +424,8 @@ class Constant(OptimizationFunction):
         return Constant(-self.value)
 
     def __pow__(self, obj):
+        if isinstance(obj, Constant):
+            obj = obj.value
         return Constant(self.value**obj)
 
     def __str__(self):
-- 
2.43.0


From 6fd32e015ee64525e6795c6d4bf8b4bf3cbbfdb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:37 +0000
Subject: [PATCH 07/30] fix: invdes Sum and Product of operands with different
 shapes or types

---
 spins/invdes/problem/objective.py | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/spins/invdes/problem/objective.py b/spins/invdes/problem/objective.py
index 0d5d663..3319dc8 100644
--- a/spins/invdes/problem/objective.py
+++ b/spins/invdes/problem/objective.py
@@ -508,6 +508,20 @@ class ValueSlice(OptimizationFunction):
         return "p[" + str(self._index) + "]"
 
 
+def _unbroadcast(grad: np.ndarray, shape: tuple) -> np.ndarray:
+    """Sums `grad` over the axes along which `shape` was broadcast."""
+    extra_dims = np.ndim(grad) - len(shape)
+    if extra_dims < 0:
+        return grad
+    if extra_dims > 0:
+        grad = np.sum(grad, axis=tuple(range(extra_dims)))
+    axes = tuple(i for i in range(len(shape))
+                 if shape[i] == 1 and np.shape(grad)[i] != 1)
+    if axes:
+        grad = np.sum(grad, axis=axes, keepdims=True)
+    return grad
+
+
 class Sum(OptimizationFunction):
     """Represents a sum of objective functions. """
 
@@ -539,7 +553,7 @@ class Sum(OptimizationFunction):
 
     def grad(self, input_vals: List[np.ndarray],
              grad_val: np.ndarray) -> List[np.ndarray]:
-        return [grad_val] * len(input_vals)
+        return [_unbroadcast(grad_val, np.shape(val)) for val in input_vals]
 
     def __add__(self, obj):
         if isinstance(obj, Sum):
@@ -586,7 +600,7 @@ class Product(OptimizationFunction):
     def eval(self, input_vals: List[np.ndarray]) -> np.ndarray:
         total = 1.0
         for obj in input_vals:
-            total *= obj
+            total = total * obj
         return total
 
     def grad(self, input_vals: List[np.ndarray],
@@ -594,9 +608,10 @@ class Product(OptimizationFunction):
         grads = []
         for i in range(len(input_vals)):
             # Calculate product of everything except ith objective value.
-            prod_before = np.prod(input_vals[:i], axis=0)
-            prod_after = np.prod(input_vals[i + 1:], axis=0)
-            grads.append(prod_before * prod_after * grad_val)
+            prod_others = self.eval(
+                list(input_vals[:i]) + list(input_vals[i + 1:]))
+            grads.append(
+                _unbroadcast(prod_others * grad_val, np.shape(input_vals[i])))
         return grads
 
     def __mul__(self, obj):
-- 
2.43.0


From 79036c1b2f743e5d663a4d2a735be80c3c0f4ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:47 +0000
Subject: [PATCH 08/30] fix: Fit2Eps gradient missed the factor two of the
 squared error

---
 spins/invdes/problem/structure_objectives.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spins/invdes/problem/structure_objectives.py b/spins/invdes/problem/structure_objectives.py
index 9ce0e86..703ab26 100644
--- a/spins/invdes/problem/structure_objectives.py
+++ b/spins/invdes/problem/structure_objectives.py
@@ -29,7 +29,7 @@ class Fit2Eps(OptimizationFunction):
         z = param.get_structure()
         err = self.eps_bg + self.S @ z - self.eps
         return np.asfortranarray(
-            np.real(np.conj(err) @ self.S @ param.calculate_gradient()))
+            2 * np.real(np.conj(err) @ self.S @ param.calculate_gradient()))
 
     def __str__(self) -> str:
         return 'fit2eps()'
-- 
2.43.0


From e440b418b13573d8081c3d9c994fa135374b5ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:52 +0000
Subject: [PATCH 09/30] fix: goos arithmetic of several arrays with scalars,
 division by integers, invdes Constant copies its value

---
 spins/goos/math.py                | 9 ++++++---
 spins/invdes/problem/objective.py | 3 ++-
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/spins/goos/math.py b/spins/goos/math.py
index 695a65f..24a56de 100644
--- a/spins/goos/math.py
+++ b/spins/goos/math.py
@@ -62,7 +62,10 @@ class Function(goos.ProblemGraphNode):
         return -1 * self
 
     def __truediv__(self, obj) -> "Product":
-        return self * obj**-1
+        if isinstance(obj, Function):
+            return self * obj**-1
+        # Do not use `**` because integers cannot have negative powers.
+        return self * (1 / obj)
 
     def __rtruediv__(self, obj) -> "Product":
         return self**-1 * obj
@@ -228,13 +231,13 @@ def find_dominant_numeric_flow(flow_list: List[goos.NumericFlow],
             ind = 0
 
     if not dom_flow:
-        # Check whether all flows but one is a scalar.
+        # Check whether all flows that are not scalars have the same shape.
         for i, flow in enumerate(flow_list):
             if np.size(flow.array) > 1:
                 if not dom_flow:
                     dom_flow = flow
                     ind = i
-                else:
+                elif np.shape(flow.array) != np.shape(dom_flow.array):
                     raise ValueError("Only one non-scalar is permitted.")
 
     if not dom_flow:
diff --git a/spins/invdes/problem/objective.py b/spins/invdes/problem/objective.py
index 3319dc8..03570c5 100644
--- a/spins/invdes/problem/objective.py
+++ b/spins/invdes/problem/objective.py
@@ -8,6 +8,7 @@ objectives.
 
 import abc
 import concurrent.futures
+import copy
 import numbers
 from typing import List, Union
 
@@ -381,7 +382,7 @@ class Constant(OptimizationFunction):
         """
         super().__init__([])
 
-        self.value = value
+        self.value = copy.deepcopy(value)
         self.value_shape = np.array(self.value).shape
 
     def calculate_objective_function(self, param: Parametrization) -> float:
-- 
2.43.0


From 31551a6412a2f018ee639f5eb18e7ff4d64e74f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:34 +0000
Subject: [PATCH 10/30] fix: functional e_full with mu, eh_full without mu,
 vec_cross of an (n, 3) array

---
 spins/fdfd_tools/functional.py |  2 +-
 spins/fdfd_tools/operators.py  | 11 ++++++-----
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/spins/fdfd_tools/functional.py b/spins/fdfd_tools/functional.py
index c0fd2d9..38ea02a 100644
--- a/spins/fdfd_tools/functional.py
+++ b/spins/fdfd_tools/functional.py
@@ -84,7 +84,7 @@ def e_full(omega: complex,
         return [c - omega**2 * e * x for c, e, x in zip(curls, epsilon, e)]
 
     def op_mu(e):
-        curls = ch([m * y for m, y in zip(mu, ce(e))])
+        curls = ch([y / m for m, y in zip(mu, ce(e))])
         return [c - omega**2 * p * x for c, p, x in zip(curls, epsilon, e)]
 
     if np.any(np.equal(mu, None)):
diff --git a/spins/fdfd_tools/operators.py b/spins/fdfd_tools/operators.py
index ffedcb6..90cdb2e 100644
--- a/spins/fdfd_tools/operators.py
+++ b/spins/fdfd_tools/operators.py
@@ -226,10 +226,11 @@ def eh_full(omega: complex,
         pm = sparse.diags(np.where(pmc, 0, 1))  # set pm to (not PMC)
 
     iwe = pe @ (1j * omega * sparse.diags(epsilon)) @ pe
-    iwm = 1j * omega
-    if not np.any(np.equal(mu, None)):
-        iwm *= sparse.diags(mu)
-    iwm = pm @ iwm @ pm
+    if np.any(np.equal(mu, None)):
+        m = sparse.eye(epsilon.size)
+    else:
+        m = sparse.diags(mu)
+    iwm = pm @ (1j * omega * m) @ pm
 
     A1 = pe @ curl_h(dxes, bloch_vec, shift_orthogonal) @ pm
     A2 = pm @ curl_e(dxes, bloch_vec, shift_orthogonal) @ pe
@@ -443,7 +444,7 @@ def vec_cross(b: vfield_t) -> sparse.spmatrix:
             sparse.diags(b[2 * n:3 * n])
         ]
     elif b.shape[1] == 3:
-        B = [sparse.diags(c) for c in np.split(b, 3)]
+        B = [sparse.diags(b[:, i]) for i in range(3)]
     return cross(B)
 
 
-- 
2.43.0


From a8de1074ecd9038343d2cb34d4f5fe1c46ac1441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:01 +0000
Subject: [PATCH 11/30] fix: composite parametrization had no adjoint Jacobian,
 bounds of cubic and Hermite parametrizations

---
 .../composite_parametrization.py              | 23 +++++++++++++++++--
 .../invdes/parametrization/parametrization.py | 18 ++++++++++++++-
 2 files changed, 38 insertions(+), 3 deletions(-)

diff --git a/spins/invdes/parametrization/composite_parametrization.py b/spins/invdes/parametrization/composite_parametrization.py
index 3f6c8c4..b1ad535 100644
--- a/spins/invdes/parametrization/composite_parametrization.py
+++ b/spins/invdes/parametrization/composite_parametrization.py
@@ -137,14 +137,33 @@ class CompositeParam(parametrization.Parametrization):
                  The product of the `jacobian` with the vector `vec`.
             """
             # Split the vector into smaller vectors.
-            split_vec = _split_vector(vec, self._param_sizes)
+            split_vec = _split_vector(np.ravel(vec), self._param_sizes)
 
             # Compute jacobian-vector product.
             return np.hstack([param.calculate_gradient() @ sub_vec for
                               param, sub_vec in zip(self._params, split_vec)])
 
+        def _jacobian_adj_vec_prod(vec: np.ndarray) -> np.ndarray:
+            """Calculate the product of the adjoint jacobian with a vector.
+
+            Args:
+                 vec: The numpy array to multiply the adjoint jacobian to.
+
+            Returns:
+                 The product of the adjoint of the jacobian with `vec`.
+            """
+            split_vec = _split_vector(
+                np.ravel(vec),
+                [param.get_structure().size for param in self._params])
+            return np.hstack([
+                linalg.aslinearoperator(
+                    param.calculate_gradient()).rmatvec(sub_vec)
+                for param, sub_vec in zip(self._params, split_vec)
+            ])
+
         return linalg.LinearOperator((self._z_size, np.sum(self._param_sizes)),
-                                     matvec=_jacobian_vec_prod)
+                                     matvec=_jacobian_vec_prod,
+                                     rmatvec=_jacobian_adj_vec_prod)
 
     def encode(self) -> np.ndarray:
         """Encode the parametrization into a vector form.
diff --git a/spins/invdes/parametrization/parametrization.py b/spins/invdes/parametrization/parametrization.py
index d3905ab..4f3b52b 100644
--- a/spins/invdes/parametrization/parametrization.py
+++ b/spins/invdes/parametrization/parametrization.py
@@ -115,6 +115,13 @@ class Parametrization(metaclass=abc.ABCMeta):
         self.from_vector(data["vector"])
 
 
+def _expand_bound(bound: Union[float, List[float]], vec_len: int) -> Tuple:
+    """Expands a bound into one bound for each entry of the vector."""
+    if bound is None or isinstance(bound, numbers.Number):
+        return (bound, ) * vec_len
+    return tuple(bound)
+
+
 class DirectParam(Parametrization):
     """ Represents a direct parametrization.
 
@@ -255,7 +262,8 @@ class CubicParam(Parametrization):
 
     def get_bounds(self):
         vec_len = len(self.vector)
-        return ((self.lower_bound, ) * vec_len, (self.upper_bound, ) * vec_len)
+        return (_expand_bound(self.lower_bound, vec_len),
+                _expand_bound(self.upper_bound, vec_len))
 
     def project(self) -> None:
         self.vector = np.clip(self.vector, self.lower_bound, self.upper_bound)
@@ -440,6 +448,14 @@ class HermiteParam(Parametrization):
     def set_k(self, k):
         self.k = k
 
+    def get_bounds(self):
+        vec_len = len(self.vector)
+        # Unbounded entries are indicated by `None`.
+        return tuple(
+            tuple(None if np.isinf(b) else b
+                  for b in _expand_bound(bound, vec_len))
+            for bound in (self.lower_bound, self.upper_bound))
+
     def project(self) -> None:
         self.vector = np.clip(self.vector, self.lower_bound, self.upper_bound)
 
-- 
2.43.0


From bbe71276a6f4407d8b945eb46252141dd7a7578a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:03:39 +0000
Subject: [PATCH 12/30] fix: Grid.ind2pos with rounded indices and its bound
 check, per-axis periodic list ignored

---
 spins/gridlock/grid.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/spins/gridlock/grid.py b/spins/gridlock/grid.py
index eb4d3c2..965d911 100644
--- a/spins/gridlock/grid.py
+++ b/spins/gridlock/grid.py
@@ -250,13 +250,13 @@ class Grid:
             else:
                 low_bound = -0.5
                 high_bound = -0.5
-            if (ind < low_bound).any() or (ind > self.shape - high_bound).any():
+            if (ind < low_bound).any() or (ind > self.shape + high_bound).any():
                 raise GridError('Position outside of grid: {}'.format(ind))
 
         if round_ind:
-            rind = np.clip(np.round(ind), 0, self.shape - 1)
+            rind = np.clip(np.round(ind), 0, self.shape - 1).astype(int)
             sxyz = self.shifted_xyz(which_shifts, which_grid)
-            position = [sxyz[a][rind[a]].astype(int) for a in range(3)]
+            position = [sxyz[a][rind[a]] for a in range(3)]
         else:
             sexyz = self.shifted_exyz(which_shifts, which_grid)
             position = [
@@ -358,7 +358,7 @@ class Grid:
         if is_scalar(periodic):
             self.periodic = [periodic] * 3
         else:
-            self.periodic = [False] * 3
+            self.periodic = list(periodic)
 
         self.shifts = np.array(shifts, dtype=float)
         self.comp_shifts = np.array(comp_shifts, dtype=float)
-- 
2.43.0


From ab7644d5b8d35786dd00a95db6f99e007078b855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:03:52 +0000
Subject: [PATCH 13/30] fix: raster of a polygon outside the grid, list-valued
 permittivity, integer fill direction, Grid.get_slice

---
 spins/gridlock/float_raster.py |  2 +-
 spins/gridlock/grid.py         | 16 ++++++++++------
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/spins/gridlock/float_raster.py b/spins/gridlock/float_raster.py
index f7fffe4..5ef69b1 100644
--- a/spins/gridlock/float_raster.py
+++ b/spins/gridlock/float_raster.py
@@ -444,7 +444,7 @@ def raster_2D(poly_xy: np.ndarray,
 
     # If the shape fell completely outside our area, just return a blank grid.
     if vertices.size == 0:
-        return zeros((grid_x.size - 1, grid_y.size - 1))
+        return np.zeros((grid_x.size - 1, grid_y.size - 1))
     # Calculate segment cover, area, and corresponding pixel's subscripts.
     poly = np.hstack((vertices, vertices[0]))
     endpoint_avg = (poly[:-1] + poly[1:]) * 0.5
diff --git a/spins/gridlock/grid.py b/spins/gridlock/grid.py
index 965d911..24bf8f4 100644
--- a/spins/gridlock/grid.py
+++ b/spins/gridlock/grid.py
@@ -494,8 +494,9 @@ class Grid:
 
         if is_scalar(eps):
             eps = np.ones(self.shifts.shape[0]) * eps
-        elif eps.ndim != 1 and eps.size != self.shifts.shape[0]:
-            raise GridErro(
+        eps = np.array(eps)
+        if eps.ndim != 1 or eps.size != self.shifts.shape[0]:
+            raise GridError(
                 'Invalid permittivity - must be scalar or vector of length equalling number of grids'
             )
         # Translating polygon by its center
@@ -526,6 +527,7 @@ class Grid:
 
         if is_scalar(eps):
             eps = np.ones(self.shifts.shape[0]) * eps
+        eps = np.array(eps)
         if eps.ndim != 1 or eps.size != self.shifts.shape[0]:
             raise GridError(
                 'Invalid permittivity - must be scalar or vector of length equalling number of grids'
@@ -558,6 +560,7 @@ class Grid:
 
         if is_scalar(eps):
             eps = np.ones(self.shifts.shape[0]) * eps
+        eps = np.array(eps)
 
         if eps.ndim != 1 or eps.size != self.shifts.shape[0]:
             raise GridError(
@@ -598,6 +601,7 @@ class Grid:
 
         if is_scalar(eps):
             eps = np.ones(self.shifts.shape[0]) * eps
+        eps = np.array(eps)
 
         if eps.ndim != 1 or eps.size != self.shifts.shape[0]:
             raise GridError(
@@ -627,7 +631,7 @@ class Grid:
             fill_dir = fill_dir.value
         elif not is_scalar(fill_dir):
             raise GridError('Invalid slab direction')
-        elif not dir_slab in range(3):
+        elif not fill_dir in range(3):
             raise GridError('Invalid slab direction')
 
         if not is_scalar(fill_pol):
@@ -660,7 +664,7 @@ class Grid:
             fill_dir = fill_dir.value
         elif not is_scalar(fill_dir):
             raise GridError('Invalid slab direction')
-        elif not dir_slab in range(3):
+        elif not fill_dir in range(3):
             raise GridError('Invalid slab direction')
 
         if not is_scalar(fill_pol):
@@ -1020,11 +1024,11 @@ class Grid:
                 'Coordinate of selected plane must be within simulation domain')
 
         # Extract grid values from planes above and below visualized slice
-        sliced_grid = zeros(self.shape[surface])
+        sliced_grid = 0
         for ci, weight in zip(centers, w):
             s = tuple(
                 ci if a == surface_normal else np.s_[::sp] for a in range(3))
-            sliced_grid += weight * self.grids[which_shifts][tuple(s)]
+            sliced_grid = sliced_grid + weight * self.grids[which_shifts][s]
 
         # Remove extra dimensions
         sliced_grid = np.squeeze(sliced_grid)
-- 
2.43.0


From 5462b64f2b9f34ff0be5bec5136f2bfb44ff818b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:15 +0000
Subject: [PATCH 14/30] fix: positions along the extrusion direction were
 truncated to integers when rendering and slicing

---
 spins/gridlock/grid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spins/gridlock/grid.py b/spins/gridlock/grid.py
index 24bf8f4..684de7c 100644
--- a/spins/gridlock/grid.py
+++ b/spins/gridlock/grid.py
@@ -807,7 +807,7 @@ class Grid:
             return np.insert(vector, self.ext_dir, z)
 
         def get_zi(z: float, which_shifts: float):
-            pos_3D = to_3D([0, 0], z)
+            pos_3D = to_3D([0.0, 0.0], z)
             grid_coords = self.pos2ind(
                 pos_3D,
                 which_shifts,
@@ -1006,7 +1006,7 @@ class Grid:
         surface = np.delete(range(3), surface_normal)
 
         # Extract indices and weights of planes
-        center3 = np.insert([0, 0], surface_normal, (center,))
+        center3 = np.insert([0.0, 0.0], surface_normal, (center,))
         center_index = self.pos2ind(
             center3, which_shifts, round_ind=False,
             check_bounds=False)[surface_normal]
-- 
2.43.0


From 1ee4e65d58344c70ce9a578742965298320963b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:46 +0000
Subject: [PATCH 15/30] fix: averaging selection matrix shifted the design
 pixels the wrong way

---
 spins/gridlock/selection_matrix.py       | 6 +++---
 spins/invdes/problem/selection_matrix.py | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/spins/gridlock/selection_matrix.py b/spins/gridlock/selection_matrix.py
index 55fd8a2..3476f37 100644
--- a/spins/gridlock/selection_matrix.py
+++ b/spins/gridlock/selection_matrix.py
@@ -47,7 +47,7 @@ def average_2xFarEdge(grid_size, design_bounds):
     # X grid averages pixels adjacent in x.
     I0 = scipy.sparse.identity(design_area[0], format='csr')
 
-    I0_shift_x = scipy.sparse.hstack([I0[:, 1:], I0[:, :1]], format='csr')
+    I0_shift_x = scipy.sparse.hstack([I0[:, -1:], I0[:, :-1]], format='csr')
     I0_shift_x[-1, 0] = 0
     I0_shift_x[-1, -1] = 1
 
@@ -64,8 +64,8 @@ def average_2xFarEdge(grid_size, design_bounds):
     Sy_flat_preshift = scipy.sparse.block_diag(
         [Sy_flat_block] * design_area[1], format='csr')
 
-    Sy_flat_shift = scipy.sparse.hstack((Sy_flat_preshift[:, design_area[0]:],
-                                         Sy_flat_preshift[:, :design_area[0]]),
+    Sy_flat_shift = scipy.sparse.hstack((Sy_flat_preshift[:, -design_area[0]:],
+                                         Sy_flat_preshift[:, :-design_area[0]]),
                                         format='csr')
     excess = Sy_flat_shift[:, 0:design_area[0]]
     # Undo circular part of shift.
diff --git a/spins/invdes/problem/selection_matrix.py b/spins/invdes/problem/selection_matrix.py
index 38743e7..3b813c7 100644
--- a/spins/invdes/problem/selection_matrix.py
+++ b/spins/invdes/problem/selection_matrix.py
@@ -41,7 +41,7 @@ def average_2xFarEdge(grid_size, design_bounds):
     # X grid averages pixels adjacent in x.
     I0 = scipy.sparse.identity(design_area[0], format='csr')
 
-    I0_shift_x = scipy.sparse.hstack([I0[:, 1:], I0[:, :1]], format='csr')
+    I0_shift_x = scipy.sparse.hstack([I0[:, -1:], I0[:, :-1]], format='csr')
     I0_shift_x[-1, 0] = 0
     I0_shift_x[-1, -1] = 1
 
@@ -58,8 +58,8 @@ def average_2xFarEdge(grid_size, design_bounds):
         [Sy_flat_block] * design_area[1], format='csr')
 
     Sy_flat_shift = scipy.sparse.hstack(
-        (Sy_flat_preshift[:, design_area[0]:],
-         Sy_flat_preshift[:, :design_area[0]]),
+        (Sy_flat_preshift[:, -design_area[0]:],
+         Sy_flat_preshift[:, :-design_area[0]]),
         format='csr')
     excess = Sy_flat_shift[:, 0:design_area[0]]
     # Undo circular part of shift.
-- 
2.43.0


From 12189751dd1ec29ac11248122e8e71f6d29c9c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:33:59 +0000
Subject: [PATCH 16/30] fix: pixel count of pixelated shapes, integer positions
 in TranslateShape, gradient with respect to pixelated shapes

---
 spins/goos/shapes.py             |  9 +++------
 spins/goos_sim/maxwell/render.py | 12 +++++++-----
 2 files changed, 10 insertions(+), 11 deletions(-)

diff --git a/spins/goos/shapes.py b/spins/goos/shapes.py
index c1bac0c..9374e5a 100644
--- a/spins/goos/shapes.py
+++ b/spins/goos/shapes.py
@@ -252,11 +252,8 @@ class PixelatedContShapeFlow(ShapeFlow, goos.NumericFlow):
         # Compute edge coordinates assuming that each pixel is `pixel_size`
         # large.
         edge_coords = []
-        for i in range(len(extents)):
-            num_pixels = np.ceil(extents[i] / pixel_size[i])
-            if num_pixels * pixel_size[i] < extents[i]:
-                num_pixels += 1
-            coord = pixel_size[i] * np.arange(0, num_pixels + 1)
+        for i, num_pixels in enumerate(cls.get_shape(extents, pixel_size)):
+            coord = pixel_size[i] * np.arange(0.0, num_pixels + 1)
             edge_coords.append(coord - (coord[0] + coord[-1]) / 2)
 
         # The edges could have smaller pixel sizes because they are cut off.
@@ -509,7 +506,7 @@ class TranslateShape(Shape):
 
     def eval(self, inputs: List[ShapeFlow]) -> ShapeFlow:
         flow = copy.deepcopy(inputs[0])
-        flow.pos += self._offset
+        flow.pos = flow.pos + self._offset
         return flow
 
     def grad(self, inputs: List[ShapeFlow],
diff --git a/spins/goos_sim/maxwell/render.py b/spins/goos_sim/maxwell/render.py
index ecd2c4e..d3a1103 100644
--- a/spins/goos_sim/maxwell/render.py
+++ b/spins/goos_sim/maxwell/render.py
@@ -140,7 +140,7 @@ class PixelatedContShapeFlowImpl(GeometryImpl):
         contrast = self.shape.material2.permittivity(
             params.wlen) - self.shape.material.permittivity(params.wlen)
         shape_coords = self.shape.get_edge_coords()
-        grad = np.zeros_like(self.shape.array)
+        grad = np.zeros(self.shape.array.shape)
         for axis in range(3):
             grid_coords = grid.shifted_exyz(axis,
                                             which_grid=gridlock.GridType.COMP)
@@ -151,10 +151,12 @@ class PixelatedContShapeFlowImpl(GeometryImpl):
             ]
             mat = get_rendering_matrix(shape_coords, grid_coords)
             grid_vals = contrast * mat.T @ grid.grids[axis].flatten()
-            grad += np.real(np.reshape(grid_vals, self.shape.array.shape))
-            # TODO(logansu): Fix complex gradient.
-            if np.iscomplexobj(grid_vals):
-                grad *= 2
+            grid_vals = np.real(np.reshape(grid_vals, self.shape.array.shape))
+            # A complex gradient with respect to the permittivity satisfies
+            # `df = 2 * real(grad * deps)`.
+            if np.iscomplexobj(grid.grids[axis]):
+                grid_vals = 2 * grid_vals
+            grad += grid_vals
 
         return goos.PixelatedContShapeFlow.Grad(array_grad=grad)
 
-- 
2.43.0


From d19722831d8c06a4f6ed3c802a6f358a275eb0ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:33:59 +0000
Subject: [PATCH 17/30] fix: grating layers within one pixel, width bounds per
 segment, edge constraint gradient, rounding of the minimum feature

---
 spins/goos/grating.py                 | 59 +++++++++++----------------
 spins/invdes/problem_graph/grating.py |  5 ++-
 2 files changed, 27 insertions(+), 37 deletions(-)

diff --git a/spins/goos/grating.py b/spins/goos/grating.py
index 97a954b..7c17273 100644
--- a/spins/goos/grating.py
+++ b/spins/goos/grating.py
@@ -301,18 +301,23 @@ class GratingL2D(goos.Action):
         if not self._use_edge_locs:
             widths = np.r_[edges[0], edges[1:] - edges[:-1]]
             plan.set_var_value(self._disc_widths, widths)
+            # `levels[i]` is the level after edge `i`, so the segment with
+            # width `widths[i]` has the level before edge `i`.
+            seg_levels = [self._start_depth_ind] + list(levels[:-1])
 
             if np.isscalar(self._min_features):
                 min_feats = self._min_features
             else:
-                min_feats = np.array([self._min_features[i] for i in levels])
+                min_feats = np.array(
+                    [self._min_features[i] for i in seg_levels])
 
             if self._max_features is None:
                 max_feats = np.inf
             elif np.isscalar(self._max_features):
                 max_feats = self._max_features
             else:
-                max_feats = np.array([self._max_features[i] for i in levels])
+                max_feats = np.array(
+                    [self._max_features[i] for i in seg_levels])
 
             ones = np.ones_like(widths)
             plan.set_var_bounds(self._disc_widths,
@@ -435,31 +440,19 @@ class MultiEtchEdgeParametrization(Parametrization):
         level_vecs = self.get_level_vecs()
         raster_vecs = [self.build_rasterized_1D(vec) for vec in level_vecs]
 
-        layer_pixels = np.diff(np.r_[0, self.etch_depths])
+        # Each raster vector fills the layer between two etch depths. What is
+        # below the last etch depth is never etched.
+        raster_vecs.append(np.ones(self.dims[0]))
+        layer_edges = np.r_[0, self.etch_depths, self.dims[1]]
         # Generate the structure.
         total_z = np.zeros(self.dims)
-        z_ind = 0
-        partial_pixels = 0
-        for i, raster_vec in enumerate(raster_vecs):
-            pixels_left = layer_pixels[i]
-            if i != 0:
-                if np.abs(partial_pixels) > 0.001:
-                    total_z[:, z_ind] += raster_vec * (1 - partial_pixels)
-                    z_ind += 1
-                    pixels_left -= (1 - partial_pixels)
-            full_pixels = int(pixels_left)
-            partial_pixels = pixels_left - full_pixels
-            if full_pixels > 0:
-                total_z[:, z_ind:z_ind + full_pixels] = np.hstack(
-                    (raster_vec[:, np.newaxis],) * full_pixels)
-                z_ind += full_pixels
-            if np.abs(partial_pixels) > 0.001:
-                total_z[:, z_ind] += raster_vec * partial_pixels
-        # Add final layers of ones.
-        if np.abs(partial_pixels) > 0.001:
-            total_z[:, z_ind] += 1 - partial_pixels
-            z_ind += 1
-        total_z[:, z_ind:self.dims[1]] = 1
+        pixel_edges = np.arange(self.dims[1] + 1)
+        for raster_vec, start, end in zip(raster_vecs, layer_edges[:-1],
+                                          layer_edges[1:]):
+            # Fraction of each pixel along the etch direction in the layer.
+            overlap = (np.clip(pixel_edges[1:], start, end) -
+                       np.clip(pixel_edges[:-1], start, end))
+            total_z += np.outer(raster_vec, overlap)
         return total_z.flatten(order='F')
 
     def get_bounds(self):
@@ -706,7 +699,8 @@ class EdgeLocConstraint(goos.Function):
         if np.isscalar(self._min_features):
             min_feats = self._min_features
         else:
-            min_feats = np.array([self._min_features[i] for i in index[:-1]])
+            min_feats = np.array(
+                [self._min_features[int(i)] for i in index[:-1]])
         val = min_feats - (vector[1:] - vector[:-1])
         # Append constraints for first and last edge.
         val = np.r_[val, -vector[0], vector[-1] - self._grating_len]
@@ -719,23 +713,18 @@ class EdgeLocConstraint(goos.Function):
 
         if self._diff_mat is None or self._diff_mat.shape[1] != len(vector):
             # Build matrix that when multiplied by a vector gives you the
-            # difference of the entries.
-            A = scipy.linalg.circulant([-1, 1] + [0] * (len(vector) - 2)).T
-            # Get rid of last row since that corresponds to differencing first
-            # element by the last.
-            A = A[:-1, :]
-
-            self._diff_mat = -A
+            # (negative of the) difference of the entries.
+            self._diff_mat = -np.diff(np.identity(len(vector)), axis=0)
 
             # Append constraints for first and last edge.
             first = np.zeros(len(vector))
-            first[0] = 1
+            first[0] = -1
             last = np.zeros(len(vector))
             last[-1] = 1
             self._diff_mat = np.vstack([self._diff_mat, first, last])
 
         return [
-            goos.NumericFlow.Grad(grad_val.array_grad * self._diff_mat), None
+            goos.NumericFlow.Grad(grad_val.array_grad @ self._diff_mat), None
         ]
 
 
diff --git a/spins/invdes/problem_graph/grating.py b/spins/invdes/problem_graph/grating.py
index 144056e..b47237b 100644
--- a/spins/invdes/problem_graph/grating.py
+++ b/spins/invdes/problem_graph/grating.py
@@ -122,8 +122,9 @@ def _get_edge_loc_dp(x: List[float], min_feature: float = 0) -> np.ndarray:
     one_value = [0] + one_value.tolist()
     dp = [max_val] * max_k
 
-    # min_feature size in terms of grid units.
-    d = int(min_feature * divisions)
+    # min_feature size in terms of grid units. Round up so that the feature size
+    # is not violated (but do not let rounding errors add a grid unit).
+    d = int(np.ceil(np.round(min_feature * divisions, 6)))
     struct_dp = [[] for i in range(d)]
 
     # k = this right edge
-- 
2.43.0


From 8a240d35713a91e19276c44eb7ea06813f378323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:23 +0000
Subject: [PATCH 18/30] fix: goos plan re-executed a checkpointed action on
 resume, stayed modifiable after an error, and shared variable arrays with its
 callers

---
 spins/goos/optplan/optplan.py | 121 ++++++++++++++++++++--------------
 1 file changed, 71 insertions(+), 50 deletions(-)

diff --git a/spins/goos/optplan/optplan.py b/spins/goos/optplan/optplan.py
index 649e844..b6cb1a1 100644
--- a/spins/goos/optplan/optplan.py
+++ b/spins/goos/optplan/optplan.py
@@ -346,17 +346,24 @@ class OptimizationPlan:
         var_data = {}
         for var_name, var_val in self._var_value.items():
             var_data[var_name] = {
-                "value": var_val,
+                "value": copy.deepcopy(var_val),
                 "frozen": self._var_frozen[var_name],
-                "bounds": self._var_bounds[var_name],
+                "bounds": copy.deepcopy(self._var_bounds[var_name]),
             }
 
+        # There is no next action if all actions have been executed.
+        action_name = None
+        if self._action_ptr < len(self._actions):
+            action_name = self._actions[self._action_ptr]._goos_name
+
         data = {
             "version": "0.2.0",
             "action_ptr": self._action_ptr,
-            "action": self._actions[self._action_ptr]._goos_name,
+            "action": action_name,
             "time": str(datetime.datetime.now()),
             "variable_data": var_data,
+            "event": copy.deepcopy(self._action_data),
+            "log_counter": self._log_counter,
         }
         # TODO(logansu): Remove "transformation" and "parametrization".
         # For backwards capatibility, keep the name "transformation" and
@@ -404,7 +411,7 @@ class OptimizationPlan:
             "monitor_data": monitor_data,
             "log_counter": self._log_counter,
         })
-        self._action_data = event
+        self._action_data = copy.deepcopy(event)
 
         # Print out scalar monitor data.
         for mon_name, mon_val in monitor_data.items():
@@ -462,6 +469,8 @@ class OptimizationPlan:
 
         self._action_ptr = data["action_ptr"]
         self._action_data = data.get("event", None)
+        # Avoid overwriting the log files written before the checkpoint.
+        self._log_counter = data.get("log_counter", self._log_counter)
 
         # Unpack variables.
         for var_name, var_data in data["variable_data"].items():
@@ -486,7 +495,7 @@ class OptimizationPlan:
 
         from spins.goos import math
         if isinstance(node, math.Variable):
-            self._var_value[node._goos_name] = node._value
+            self._var_value[node._goos_name] = np.array(node._value)
             self._var_frozen[node._goos_name] = node._is_param
 
             # Make `lower_bounds` array have same size as node value.
@@ -502,7 +511,10 @@ class OptimizationPlan:
             if np.isscalar(upper_bounds):
                 upper_bounds = np.ones_like(node._value) * upper_bounds
 
-            self._var_bounds[node._goos_name] = [lower_bounds, upper_bounds]
+            self._var_bounds[node._goos_name] = [
+                np.array(lower_bounds),
+                np.array(upper_bounds)
+            ]
 
         for dep_node in node._goos_inputs:
             self.add_node(dep_node)
@@ -524,13 +536,13 @@ class OptimizationPlan:
     @_requires_action
     def set_var_bounds(self, node: "goos.Variable",
                        bounds: List[np.ndarray]) -> List[np.ndarray]:
-        self._var_bounds[node._goos_name] = copy.copy(bounds)
+        self._var_bounds[node._goos_name] = copy.deepcopy(bounds)
 
     def get_var_value(self, node: "goos.Variable") -> np.ndarray:
         return self._var_value[node._goos_name].copy()
 
     def get_var_bounds(self, node: "goos.Variable") -> List[np.ndarray]:
-        return self._var_bounds[node._goos_name].copy()
+        return copy.deepcopy(self._var_bounds[node._goos_name])
 
     @_requires_action
     def freeze_var(self, node: "goos.Variable") -> None:
@@ -557,19 +569,33 @@ class OptimizationPlan:
                 is specified.
         """
         self._modifiable = True
-        while self._action_ptr < len(self._actions):
-            self.logger.info("Running action {} ({}).".format(
-                self._action_ptr, self._actions[self._action_ptr]._goos_name))
-            self._actions[self._action_ptr].run(self)
-
-            if auto_checkpoint and self._save_path:
-                self.write_checkpoint(
-                    os.path.join(self._save_path,
-                                 "action{}.chkpt".format(self._action_ptr)))
-
-            self._action_ptr += 1
-            self._action_data = None
-        self._modifiable = False
+        try:
+            while self._action_ptr < len(self._actions):
+                self.logger.info("Running action {} ({}).".format(
+                    self._action_ptr,
+                    self._actions[self._action_ptr]._goos_name))
+                self._actions[self._action_ptr].run(self)
+                self._finish_action(auto_checkpoint)
+        finally:
+            self._modifiable = False
+
+    def _finish_action(self, auto_checkpoint: bool) -> None:
+        """Moves on to the next action.
+
+        The checkpoint is written after moving on so that resuming from it does
+        not execute the action a second time.
+
+        Args:
+            auto_checkpoint: If `True`, a checkpoint file is written.
+        """
+        finished_action = self._action_ptr
+        self._action_ptr += 1
+        self._action_data = None
+
+        if auto_checkpoint and self._save_path:
+            self.write_checkpoint(
+                os.path.join(self._save_path,
+                             "action{}.chkpt".format(finished_action)))
 
     def resume(self,
                checkpoint: str = None,
@@ -596,35 +622,30 @@ class OptimizationPlan:
         if checkpoint:
             self.read_checkpoint(checkpoint)
 
-        self._modifiable = True
-
-        # Attempt to resume if there is event data to resume from.
-        if self._action_data:
-            self.logger.info("Resuming action {} ({}).".format(
-                self._action_ptr, self._actions[self._action_ptr]._goos_name))
+        if self._action_ptr >= len(self._actions):
+            return
 
-            if hasattr(self._actions[self._action_ptr], "resume"):
-                self._actions[self._action_ptr].resume(self, self._action_data)
+        self._modifiable = True
+        try:
+            action = self._actions[self._action_ptr]
+            # Attempt to resume if there is event data to resume from.
+            if self._action_data and hasattr(action, "resume"):
+                self.logger.info("Resuming action {} ({}).".format(
+                    self._action_ptr, action._goos_name))
+                action.resume(self, self._action_data)
             else:
-                self.logger.warning(
-                    "Action has no resume capabilities {}, re-running.".format(
-                        self._action_ptr))
-                self._actions[self._action_ptr].run(self)
-        else:
-            self.logger.info("Running action {} ({}).".format(
-                self._action_ptr, self._actions[self._action_ptr]._goos_name))
-            self._actions[self._action_ptr].run(self)
-
-        if auto_checkpoint and self._save_path:
-            self.write_checkpoint(
-                os.path.join(self._save_path,
-                             "action{}.chkpt".format(self._action_ptr)))
-
-        self._action_ptr += 1
-        self._action_data = None
-        self._modifiable = False
-
-        self.run()
+                if self._action_data:
+                    self.logger.warning(
+                        "Action has no resume capabilities {}, re-running.".
+                        format(self._action_ptr))
+                self.logger.info("Running action {} ({}).".format(
+                    self._action_ptr, action._goos_name))
+                action.run(self)
+            self._finish_action(auto_checkpoint)
+        finally:
+            self._modifiable = False
+
+        self.run(auto_checkpoint)
 
     def eval_nodes(self, nodes: List[ProblemGraphNode]) -> List[flows.Flow]:
         """Evaluates nodes.
@@ -654,7 +675,7 @@ class OptimizationPlan:
                                 frozen_flags=frozen_flags)
 
             override_map[self._node_map[var_name]] = (
-                flows.NumericFlow(var_value), context)
+                flows.NumericFlow(var_value.copy()), context)
         return graph_executor.eval_fun(nodes, override_map)
 
     def eval_node(self, node: ProblemGraphNode) -> flows.Flow:
@@ -693,7 +714,7 @@ class OptimizationPlan:
                                 frozen_flags=frozen_flags)
 
             override_map[self._node_map[var_name]] = (
-                flows.NumericFlow(var_value), grad_value, context)
+                flows.NumericFlow(var_value.copy()), grad_value, context)
         return graph_executor.eval_grad(node, wrt_nodes, override_map)
 
     def __enter__(self):
-- 
2.43.0


From a8f13483af623f05e1c2b2507ea8492398f84532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:50 +0000
Subject: [PATCH 19/30] fix: optimizer adapters handed the last constraint's
 functions to every constraint, ignored resumed iterations, and changed the
 caller's options

---
 spins/goos/optimize.py                       | 19 ++++++++++++-------
 spins/invdes/optimization/scipy_optimizer.py | 13 ++++++++-----
 2 files changed, 20 insertions(+), 12 deletions(-)

diff --git a/spins/goos/optimize.py b/spins/goos/optimize.py
index 1f59b6e..4906cef 100644
--- a/spins/goos/optimize.py
+++ b/spins/goos/optimize.py
@@ -148,15 +148,16 @@ class ScipyOptimizer(goos.Action):
         constraints = None
         if self._method in methods_that_accept_constraints:
             constraints = []
+            # Default arguments bind each constraint to its own functions.
             for eq in self._cons_eq:
 
-                def cons_fun(x):
+                def cons_fun(x, eq=eq):
                     unpack_and_set(x)
                     val = plan.eval_node(eq).array
                     plan.logger.debug("Eq. cons. function evaluated: %f", val)
                     return val
 
-                def cons_jac(x):
+                def cons_jac(x, eq=eq):
                     unpack_and_set(x)
                     grad_flows = plan.eval_grad(eq, variables)
                     val = []
@@ -182,13 +183,13 @@ class ScipyOptimizer(goos.Action):
             for ineq in self._cons_ineq:
                 # Note the negative sign because of opposite convention
                 # for inequalities (f >= 0 vs f <= 0).
-                def cons_fun(x):
+                def cons_fun(x, ineq=ineq):
                     unpack_and_set(x)
                     val = plan.eval_node(ineq).array
                     plan.logger.debug("Ineq. cons. function evaluated: %f", val)
                     return -val
 
-                def cons_jac(x):
+                def cons_jac(x, ineq=ineq):
                     unpack_and_set(x)
                     grad_flows = plan.eval_grad(ineq, variables)
                     val = []
@@ -229,7 +230,9 @@ class ScipyOptimizer(goos.Action):
             nonlocal iter_num
             iter_num += 1
             if self._iter:
-                plan.set_var_value(self._iter, iter_num)
+                plan.set_var_value(self._iter,
+                                   iter_num,
+                                   check_frozen=not self._iter._is_param)
 
             plan.write_event({
                 "state": "optimizing",
@@ -238,8 +241,10 @@ class ScipyOptimizer(goos.Action):
 
         # Adjust total number of iterations if we are resuming.
         options = copy.deepcopy(self._options)
-        if "maxiter" in options:
-            options["maxiter"] -= start_iter
+        if "maxiter" in options["options"]:
+            options["options"]["maxiter"] -= start_iter
+            if options["options"]["maxiter"] <= 0:
+                return
 
         initial_val = np.hstack(initial_val)
         self._results = scipy.optimize.minimize(func,
diff --git a/spins/invdes/optimization/scipy_optimizer.py b/spins/invdes/optimization/scipy_optimizer.py
index 94dd2a7..a919b56 100644
--- a/spins/invdes/optimization/scipy_optimizer.py
+++ b/spins/invdes/optimization/scipy_optimizer.py
@@ -44,7 +44,9 @@ class ScipyOptimizer:
         if options:
             if "tol" in options.keys():
                 self.tol = options["tol"]
-                del self.options["tol"]
+                self.options = {
+                    key: val for key, val in options.items() if key != "tol"
+                }
 
     def __call__(self, opt, param, callback=None):
         if isinstance(opt, OptimizationFunction):
@@ -85,13 +87,14 @@ class ScipyOptimizer:
         constraints = None
         if self.method in methods_that_accept_constraints:
             constraints = []
+            # Default arguments bind each constraint to its own functions.
             for eq in opt.get_equality_constraints():
 
-                def cons_fun(x):
+                def cons_fun(x, eq=eq):
                     param.from_vector(x)
                     return eq.calculate_objective_function(param)
 
-                def cons_jac(x):
+                def cons_jac(x, eq=eq):
                     param.from_vector(x)
                     return eq.calculate_gradient(param)
 
@@ -103,11 +106,11 @@ class ScipyOptimizer:
             for ineq in opt.get_inequality_constraints():
                 # Note the negative sign because of opposite convention
                 # for inequalities (f >= 0 vs f <= 0).
-                def cons_fun(x):
+                def cons_fun(x, ineq=ineq):
                     param.from_vector(x)
                     return -ineq.calculate_objective_function(param)
 
-                def cons_jac(x):
+                def cons_jac(x, ineq=ineq):
                     param.from_vector(x)
                     return -ineq.calculate_gradient(param)
 
-- 
2.43.0


From abb49ce8a444d40fb81ebd92cd6f20f1fc4e8f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:23 +0000
Subject: [PATCH 20/30] fix: gradient optimizers ran one iteration too many or
 without end, normalised the objective's own array, and slack bounds needed
 tuples

---
 spins/invdes/optimization/gradient_descent.py      | 14 ++++++--------
 spins/invdes/problem/slack_optimization_problem.py |  4 ++--
 2 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/spins/invdes/optimization/gradient_descent.py b/spins/invdes/optimization/gradient_descent.py
index acd63b0..e38499c 100644
--- a/spins/invdes/optimization/gradient_descent.py
+++ b/spins/invdes/optimization/gradient_descent.py
@@ -72,9 +72,9 @@ class GradientOptimizer:
         # Keep a list of possible stop iterations.
         # Then take the minimum of the possibilities.
         stop_iter_list = []
-        if iters:
+        if iters is not None:
             stop_iter_list.append(self._iters + iters)
-        if self._max_iters:
+        if self._max_iters is not None:
             stop_iter_list.append(self._max_iters)
 
         # Compute stopping iteration.
@@ -82,15 +82,12 @@ class GradientOptimizer:
         if stop_iter_list:
             stop_iter = np.min(stop_iter_list)
 
-        while True:
+        while stop_iter is None or self._iters < stop_iter:
             stop_opt = self.iterate()
             # Increase iteration count and break if done.
             self._iters += 1
             if callback:
                 callback(self.param)
-            # Check if we should break from iteration count.
-            if stop_iter and self._iters >= stop_iter:
-                break
             # Check if we should break from other factors.
             if stop_opt:
                 break
@@ -129,8 +126,9 @@ class GradientDescent(GradientOptimizer):
         gradient = self.objective.calculate_gradient(self.param)
         gradient_norm = np.linalg.norm(gradient)
 
-        if self.normalize_gradient:
-            gradient /= gradient_norm
+        # Do not divide in place as the array could belong to the objective.
+        if self.normalize_gradient and gradient_norm > 0:
+            gradient = gradient / gradient_norm
 
         self.param.decode(self.param.encode() - self.alpha * gradient)
         self.param.project()
diff --git a/spins/invdes/problem/slack_optimization_problem.py b/spins/invdes/problem/slack_optimization_problem.py
index 101fdb2..d6f64c1 100644
--- a/spins/invdes/problem/slack_optimization_problem.py
+++ b/spins/invdes/problem/slack_optimization_problem.py
@@ -78,8 +78,8 @@ class SlackParam(Parametrization):
         if param_bounds is None:
             param_size = len(self.param.to_vector())
             param_bounds = [(None,) * param_size, (None,) * param_size]
-        minBounds = param_bounds[0] + self.num_slack * (0,)
-        maxBounds = param_bounds[1] + self.num_slack * (None,)
+        minBounds = tuple(param_bounds[0]) + self.num_slack * (0,)
+        maxBounds = tuple(param_bounds[1]) + self.num_slack * (None,)
         return minBounds, maxBounds
 
     def get_param(self):
-- 
2.43.0


From bb6bd9d27686670b6a0f23a214be6f7eb737b585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:18 +0000
Subject: [PATCH 21/30] fix: scipy optimizer transformation without options
 raised and resumed past its iteration limit

---
 spins/invdes/problem_graph/creator_opt.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/spins/invdes/problem_graph/creator_opt.py b/spins/invdes/problem_graph/creator_opt.py
index bafe7ac..574908f 100644
--- a/spins/invdes/problem_graph/creator_opt.py
+++ b/spins/invdes/problem_graph/creator_opt.py
@@ -44,7 +44,7 @@ class ScipyOptimizer:
         self._opt_prob = opt_prob
         self.optimizer = optimizer
         if optimization_options is None:
-            optimization_options = {}
+            optimization_options = optplan.ScipyOptimizerOptions()
         else:
             for key, value in optimization_options.items():
                 if not value:
@@ -144,6 +144,8 @@ class ScipyOptimizer:
         # number of iterations already performed.
         if "maxiter" in opt_options:
             opt_options["maxiter"] -= iteration
+            if opt_options["maxiter"] <= 0:
+                return
 
         scipy_optimizer = optim.ScipyOptimizer(
             method=self.optimizer, options=opt_options)
-- 
2.43.0


From ca11cd5d70c741c9644a90434c9f17d43316fb93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:04 +0000
Subject: [PATCH 22/30] fix: saving goos plans kept the caller's arrays, lost
 empty lists and log_print nodes, loaded nodes could take each other's names,
 casts of shapes could not be evaluated or loaded

---
 spins/goos/generic.py              | 56 +++++++++++++++++++++++++++---
 spins/goos/math.py                 |  4 +--
 spins/goos/optplan/optplan.py      | 22 ++++++++----
 spins/goos/optplan/schema.py       | 40 ++++++++++++++++++---
 spins/goos/optplan/schema_types.py | 18 ++++++++++
 spins/goos/schema_registry.py      |  2 +-
 6 files changed, 124 insertions(+), 18 deletions(-)

diff --git a/spins/goos/generic.py b/spins/goos/generic.py
index 9021dad..5ae9831 100644
--- a/spins/goos/generic.py
+++ b/spins/goos/generic.py
@@ -34,6 +34,9 @@ def cast(node: goos.ProblemGraphNode,
         the result of the underlying node. It is essentially an identity
         operation.
     """
+    # Cast to the actual type if `cls_type` is the type of another cast.
+    while cls_type.node_type == "goos.cast":
+        cls_type = cls_type.__bases__[0]
 
     class CastOp(cls_type):
         node_type = "goos.cast"
@@ -47,6 +50,9 @@ def cast(node: goos.ProblemGraphNode,
             goos.ProblemGraphNode.__init__(self, node)
             self._node = node
 
+        def eval_const_flags(self, inputs):
+            return inputs[0]
+
         def eval(self, inputs):
             return inputs[0]
 
@@ -108,12 +114,27 @@ def rename(node: goos.ProblemGraphNode, name: str) -> goos.ProblemGraphNode:
     return cast(node, type(node), name=name)
 
 
+class LogPrintSchema(optplan.ActionNodeSchema):
+    """Schema for `LogPrint`.
+
+    Text and nodes are stored in separate fields so that a node is stored as a
+    reference.
+    """
+    type = goos.ModelNameType("goos.log_print")
+    text = goos.types.StringType()
+    nodes = goos.types.ListType(
+        goos.ReferenceType(optplan.ProblemGraphNodeSchema))
+
+
 class LogPrint(goos.Action):
     """Prints text out to the log.
 
     This is useful for debugging purposes.
     """
     node_type = "goos.log_print"
+    # `build_log_print` is registered instead.
+    goos_no_register = True
+    Schema = LogPrintSchema
 
     def __init__(
         self,
@@ -122,23 +143,48 @@ class LogPrint(goos.Action):
     ) -> None:
         super().__init__()
 
+        if isinstance(obj, goos.ProblemGraphNode):
+            obj = [obj]
         self._obj = obj
 
+        if isinstance(obj, str):
+            self._goos_schema = LogPrintSchema(text=obj)
+        else:
+            self._goos_schema = LogPrintSchema(
+                nodes=[node._goos_schema for node in obj or []])
+
     def run(self, plan: goos.OptimizationPlan) -> None:
         if isinstance(self._obj, str):
             plan.logger.info(self._obj)
             return
 
-        if isinstance(self._obj, goos.Function):
-            nodes = [self._obj]
-        else:
-            nodes = self._obj
-
+        nodes = self._obj or []
         values = plan.eval_nodes(nodes)
         for node, val in zip(nodes, values):
             plan.logger.info("{}: {}".format(node._goos_name, val))
 
 
+def build_log_print(name: str,
+                    text: Optional[str] = None,
+                    nodes: Optional[List[goos.ProblemGraphNode]] = None
+                   ) -> LogPrint:
+    """Constructs a `LogPrint` from the schema.
+
+    Args:
+        name: Name of the action.
+        text: Text to print.
+        nodes: Nodes to print. Ignored if there is text.
+
+    Returns:
+        `LogPrint` action.
+    """
+    return LogPrint(nodes if text is None else text, name=name)
+
+
+optplan.GLOBAL_CONTEXT_STACK.register_node("goos.log_print", LogPrintSchema,
+                                           build_log_print)
+
+
 def log_print(*args, **kwargs) -> LogPrint:
     action = LogPrint(*args, **kwargs)
     goos.get_default_plan().add_action(action)
diff --git a/spins/goos/math.py b/spins/goos/math.py
index 24a56de..32cbda5 100644
--- a/spins/goos/math.py
+++ b/spins/goos/math.py
@@ -558,8 +558,8 @@ class Sigmoid(Function):
 class Slice(Function):
     node_type = "goos.function.slice"
 
-    def __init__(self, fun: Function, slices: List[Union[int, List[int],
-                                                         str]]) -> None:
+    def __init__(self, fun: Function, slices: List[Union[int, List[int], str,
+                                                         None]]) -> None:
         super().__init__(fun)
         self._slices = slices
 
diff --git a/spins/goos/optplan/optplan.py b/spins/goos/optplan/optplan.py
index b6cb1a1..6e6d921 100644
--- a/spins/goos/optplan/optplan.py
+++ b/spins/goos/optplan/optplan.py
@@ -153,6 +153,9 @@ def _replace_node_with_schema(value: Any) -> Any:
         }
     elif isinstance(value, ProblemGraphNode):
         return value._goos_schema
+    elif isinstance(value, np.ndarray):
+        # The schema must not follow later changes to the array.
+        return value.copy()
     return value
 
 
@@ -332,13 +335,20 @@ class OptimizationPlan:
             return optplan.GLOBAL_CONTEXT_STACK.get_node(
                 model.type).creator(**params)
 
-        for node in plan.nodes:
-            # TODO(logansu): Check for clashes in names.
-            self.add_node(_create_node(node))
+        # Nodes created from now on (including the ones that the loaded nodes
+        # create themselves) must not receive the name of a loaded node.
+        for model in plan.nodes + (plan.actions or []):
+            optplan.schema.reserve_name(model.type, model.name)
 
-        for model in plan.actions:
-            # TODO(logansu): Check for clashes in names.
-            self.add_action(_create_node(model))
+        # Make this plan the one to which the nodes are added upon creation.
+        with self:
+            for node in plan.nodes:
+                # TODO(logansu): Check for clashes in names.
+                self.add_node(_create_node(node))
+
+            for model in plan.actions:
+                # TODO(logansu): Check for clashes in names.
+                self.add_action(_create_node(model))
 
     def get_state_dict(self) -> Dict:
         """Creates a dictionary with the current state of the plan."""
diff --git a/spins/goos/optplan/schema.py b/spins/goos/optplan/schema.py
index 6f7d19f..006c88a 100644
--- a/spins/goos/optplan/schema.py
+++ b/spins/goos/optplan/schema.py
@@ -13,6 +13,7 @@ import typing
 import warnings
 
 import numpy as np
+from schematics import common
 from schematics import models
 from schematics import types
 
@@ -186,6 +187,9 @@ def _convert_type_to_schematics(typ) -> Tuple:
         schema_type = types.UnionType
         union_types = []
         for arg in typing_inspect.get_args(typ, evaluate=True):
+            if arg == type(None):
+                schema_type = schema_types.OptionalUnionType
+                continue
             arg_typ, arg_args = _convert_type_to_schematics(arg)
             union_types.append(arg_typ(*arg_args))
         schema_args.append(union_types)
@@ -239,6 +243,11 @@ def _convert_param_to_schematics(param):
     else:
         schema_kwargs["required"] = True
 
+    # An empty list is a value of its own and must not be left out during
+    # serialization.
+    if schema_type == types.ListType:
+        schema_kwargs["export_level"] = common.NOT_NONE
+
     return schema_type(*schema_args, **schema_kwargs)
 
 
@@ -272,6 +281,20 @@ def generate_name(model_type: str) -> str:
     return name
 
 
+def reserve_name(model_type: str, name: str) -> None:
+    """Excludes a name from automatic name generation.
+
+    Args:
+        model_type: String model type of the node called `name`.
+        name: Name that `generate_name` should not generate for `model_type`.
+    """
+    prefix, _, num = name.rpartition(".")
+    if prefix == model_type and num.isdigit():
+        optplan.PROBLEM_GRAPH_NAME_MAP[model_type] = max(
+            optplan.PROBLEM_GRAPH_NAME_MAP.get(model_type, 0),
+            int(num) + 1)
+
+
 def _iter_optplan_fields(
         model: models.Model,
         visited: Set[int],
@@ -448,7 +471,7 @@ def _validate_optplan_version(version: str) -> None:
         ValueError: On incompatible version.
     """
     version_parts = [int(part) for part in version.split(".")]
-    if version_parts[0] < 0 or version_parts[1] < 3:
+    if version_parts < [0, 3]:
         raise ValueError(
             "Optplan must be at least version 0.3.0, got {}".format(version))
 
@@ -463,6 +486,9 @@ def loads(serialized_plan: str) -> optplan.OptimizationPlanSchema:
         Stored `optplan.OptimizationPlanSchema`.
     """
     plan = optplan.OptimizationPlanSchema(json.loads(serialized_plan))
+    # Empty lists are not serialized.
+    if plan.nodes is None:
+        plan.nodes = []
     validate(plan)
     _validate_optplan_version(plan.version)
 
@@ -513,6 +539,12 @@ def dumps(plan: optplan.OptimizationPlanSchema) -> str:
     # Remove actions from the list.
     plan.nodes = model_list
 
+    # Actions are found by name as well. The same action can appear repeatedly.
+    named = {}
+    for model in plan.nodes + (plan.actions or []):
+        if named.setdefault(model.name, model) is not model:
+            raise ValueError("Nonunique name found: {}".format(model.name))
+
     validate(plan)
     return json.dumps(plan.to_primitive())
 
@@ -529,7 +561,8 @@ def _extract_nodes(value: Any,
         model_list: List of `optplan.ProblemGraphNodeSchema` models found so far.
     """
     if isinstance(value, optplan.ProblemGraphNodeSchema):
-        if value not in model_list:
+        # Compare identities since the comparison of models compares values.
+        if not any(value is model for model in model_list):
             model_list.append(value)
         else:
             # This node has been processed before so quit.
@@ -564,7 +597,6 @@ def _replace_ref_nodes_with_names(
         if isinstance(child_model, str):
             return child_model
 
-        ind = model_list.index(child_model)
-        return model_list[ind].name
+        return child_model.name
 
     _iter_optplan_fields(model, set(), process_field)
diff --git a/spins/goos/optplan/schema_types.py b/spins/goos/optplan/schema_types.py
index 839fccb..768c657 100644
--- a/spins/goos/optplan/schema_types.py
+++ b/spins/goos/optplan/schema_types.py
@@ -5,10 +5,28 @@ These types are considered primitives in SPINS.
 import numbers
 
 import numpy as np
+from schematics import common
 from schematics import models
 from schematics import types
 
 
+class OptionalUnionType(types.UnionType):
+    """Defines a `schematics` union type that includes `None`.
+
+    In contrast to other types, `None` is serialized. Otherwise, lists with
+    entries of this type would lose entries.
+    """
+
+    def __init__(self, *args, **kwargs) -> None:
+        kwargs.setdefault("export_level", common.DEFAULT)
+        super().__init__(*args, **kwargs)
+
+    def _resolve(self, value, context):
+        if value is None:
+            return types.BaseType(), None
+        return super()._resolve(value, context)
+
+
 class ComplexNumberType(types.BaseType):
     """Defines a `schematics` type for complex numbers.
 
diff --git a/spins/goos/schema_registry.py b/spins/goos/schema_registry.py
index c1e575e..99dfc25 100644
--- a/spins/goos/schema_registry.py
+++ b/spins/goos/schema_registry.py
@@ -45,7 +45,7 @@ class SchemaRegistryStack:
     def push(self, registry: SchemaRegistry = None):
         if not registry:
             registry = SchemaRegistry()
-        self._stack.append(context)
+        self._stack.append(registry)
 
     def pop(self):
         return self._stack.pop()
-- 
2.43.0


From 1138e28a558dcd0911e3a89dab8e5867eaf984a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:01 +0000
Subject: [PATCH 23/30] fix: lists of wavelengths were rejected by the
 tabulated materials

---
 spins/material/material.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spins/material/material.py b/spins/material/material.py
index ea785d2..855e61d 100644
--- a/spins/material/material.py
+++ b/spins/material/material.py
@@ -36,7 +36,7 @@ def interpolate_using_energy(wavelengths, n, k, En, Ek):
     c = 299792458  # Speed of light (m/s)
 
     # Extract refractive index via interpolation.
-    Eq = h * c / (wavelengths * 1e-9)  # Photon energy (query)
+    Eq = h * c / (np.asarray(wavelengths) * 1e-9)  # Photon energy (query)
     n = scipy.interpolate.pchip_interpolate(reverse_arr(En), reverse_arr(n), Eq)
     k = scipy.interpolate.pchip_interpolate(reverse_arr(Ek), reverse_arr(k), Eq)
     return (n, k)
-- 
2.43.0


From 9807e22d77cecd81e95694fef3fdc889a02c1083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:14 +0000
Subject: [PATCH 24/30] fix: GDS export of nested polygons did not end or lost
 islands, the top-level cell of a GDS file depended on the order of its cells

---
 spins/gds/gen_gds.py   | 76 ++++++++++++++++++------------------------
 spins/gds/parse_gds.py | 15 +++++----
 2 files changed, 41 insertions(+), 50 deletions(-)

diff --git a/spins/gds/gen_gds.py b/spins/gds/gen_gds.py
index 3a2def7..1d48334 100644
--- a/spins/gds/gen_gds.py
+++ b/spins/gds/gen_gds.py
@@ -50,57 +50,45 @@ def gen_gds(poly_coords: List[np.ndarray],
         # overlap_list[i] tells how many polygons are contained in polygon i.
         overlap_list = np.sum(containment_mx, axis=1)
 
-        overlap_num = 0
         while sum(overlap_list) != 0:
 
-            overlap_num = overlap_num + 1
-
-            # We loop until there are no longer any more polygons of a specific
-            # overlap number before going to the next overlap number.
+            # Always continue with the polygons of the smallest overlap number.
+            # The polygons they contain do not contain any polygon themselves.
             #
             # The reasoning for this is as we begin to delete polygons,
             # the overlap number changes and so polygons which were of
             # overlap_num > 1, may become polygons of overlap_num = 1.
-            #
-            # np.where(overlap_list==overlap_num)[0].size is how we see if
-            # any polygons satisfy the current overlap number.
-
+            overlap_num = np.min(overlap_list[overlap_list > 0])
             target_polys = np.where(overlap_list == overlap_num)[0]
-            while target_polys.size != 0:
-
-                # We iterate through each polygon in our polygon list until no
-                # polygon satisfies the current overlap number.
-                for i in target_polys[::-1]:
-                    containment_list = np.nonzero(containment_mx[i, :])[0]
-                    # Concatenate all the contained polygons to subtract out.
-                    poly_list = sum([
-                        gds_polygons[j].polygons for j in containment_list
-                    ], [])
-                    # Note that we had to turn precision from the default 1e-3
-                    # to 1e-6 to avoid errors in the NOT operation.
-                    gds_polygons[i] = gdspy.boolean(gds_polygons[i],
-                                                    gdspy.PolygonSet(poly_list),
-                                                    "not",
-                                                    layer=0,
-                                                    precision=1e-6)
-                    for j in containment_list:
-                        gds_polygons[j] = None
-                        test_points[j] = None
-
-                for k in range(len(gds_polygons) - 1, -1, -1):
-                    if gds_polygons[k] is None:
-                        del gds_polygons[k]
-                        del test_points[k]
-
-                containment_mx = []
-                for polygon in gds_polygons:
-                    containment_mx.append(gdspy.inside(test_points, [polygon]))
-
-                containment_mx = np.array(containment_mx) - np.eye(
-                    len(gds_polygons))
-                overlap_list = np.sum(containment_mx, axis=1)
-
-                target_polys = np.where(overlap_list == overlap_num)[0]
+
+            for i in target_polys[::-1]:
+                containment_list = np.nonzero(containment_mx[i, :])[0]
+                # Concatenate all the contained polygons to subtract out.
+                poly_list = sum(
+                    [gds_polygons[j].polygons for j in containment_list], [])
+                # Note that we had to turn precision from the default 1e-3
+                # to 1e-6 to avoid errors in the NOT operation.
+                gds_polygons[i] = gdspy.boolean(gds_polygons[i],
+                                                gdspy.PolygonSet(poly_list),
+                                                "not",
+                                                layer=0,
+                                                precision=1e-6)
+                for j in containment_list:
+                    gds_polygons[j] = None
+                    test_points[j] = None
+
+            for k in range(len(gds_polygons) - 1, -1, -1):
+                if gds_polygons[k] is None:
+                    del gds_polygons[k]
+                    del test_points[k]
+
+            containment_mx = []
+            for polygon in gds_polygons:
+                containment_mx.append(gdspy.inside(test_points, [polygon]))
+
+            containment_mx = np.array(containment_mx) - np.eye(
+                len(gds_polygons))
+            overlap_list = np.sum(containment_mx, axis=1)
 
     for polygon in gds_polygons:
         poly_cell.add(polygon)
diff --git a/spins/gds/parse_gds.py b/spins/gds/parse_gds.py
index 1298c0c..943626f 100644
--- a/spins/gds/parse_gds.py
+++ b/spins/gds/parse_gds.py
@@ -102,6 +102,7 @@ class GDSImport:
 
         if cell_name is None:
             max_num_polys = 0
+            max_poly_tlcs = []
             for cell in top_level_cells:
                 # Ignore cells that are hidden
                 if cell.name.startswith("$$$"):
@@ -115,16 +116,18 @@ class GDSImport:
                         num_polys += len(polygon_set.polygons)
 
                     if max_num_polys == num_polys:
-                        raise ValueError(
-                            "Multiple top level cells with same number of "
-                            "polygons. Unable to uniquely identify top level"
-                            " cell. Please specify cell by name instead.")
+                        max_poly_tlcs.append(cell)
                     if max_num_polys < num_polys:
                         max_num_polys = num_polys
-                        max_poly_tlc = cell
+                        max_poly_tlcs = [cell]
 
+            if max_num_polys > 0 and len(max_poly_tlcs) > 1:
+                raise ValueError(
+                    "Multiple top level cells with same number of "
+                    "polygons. Unable to uniquely identify top level"
+                    " cell. Please specify cell by name instead.")
             if max_num_polys > 0:
-                return max_poly_tlc
+                return max_poly_tlcs[0]
             else:
                 raise ValueError(
                     "No valid cell found. Please specify cell by name instead.")
-- 
2.43.0


From 5a84386146e74408d8ff2bf9758ecf4b899920c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:03 +0000
Subject: [PATCH 25/30] fix: workspaces could not be constructed, shadowed a
 cached node of the same name, and log steps were matched by a loose pattern;
 log loader used an undefined function and the first instead of the last event

---
 .../invdes/problem_graph/log_tools/loader.py  | 33 +++++++++++--------
 .../problem_graph/log_tools/monitor_spec.py   |  2 +-
 spins/invdes/problem_graph/workspace.py       | 17 ++++++----
 3 files changed, 31 insertions(+), 21 deletions(-)

diff --git a/spins/invdes/problem_graph/log_tools/loader.py b/spins/invdes/problem_graph/log_tools/loader.py
index ca86766..3d1159b 100644
--- a/spins/invdes/problem_graph/log_tools/loader.py
+++ b/spins/invdes/problem_graph/log_tools/loader.py
@@ -213,20 +213,22 @@ def get_single_monitor_data(
     # If no transformation name given, extract all transformation names to find the
     # last one with desired event data.
     if transformation_name is None:
-        all_transformation_names = log_df[LOG_TRANSFORMATION_KEY].unique(
-        ).tolist()
+        all_transformation_names = log_df[
+            LOG_TRANSFORMATION_KEY].drop_duplicates(keep="last").tolist()
     else:
         all_transformation_names = [transformation_name]
 
-    # If no event name given, extract all event names to find the last one with
-    # data.
-    if event_name is None:
-        all_event_names = log_df[LOG_TRANSFORMATION_INFO_KEY].unique().tolist()
-    else:
-        all_event_names = [event_name]
-
     # Get all data for the given monitor name associated with the event_name.
     for name_transformation in reversed(all_transformation_names):
+        # If no event name given, extract all event names to find the last one
+        # of the transformation with data.
+        if event_name is None:
+            all_event_names = log_df[LOG_TRANSFORMATION_INFO_KEY][
+                log_df[LOG_TRANSFORMATION_KEY] == name_transformation
+            ].drop_duplicates(keep="last").tolist()
+        else:
+            all_event_names = [event_name]
+
         for name_event in reversed(all_event_names):
             data_all = get_monitor_data(log_df, monitor_names, name_event)
 
@@ -288,9 +290,12 @@ def get_overlap_monitor_names(log_df: pd.DataFrame) -> List[str]:
     Returns:
         List of overlap monitor name strings.
     """
-    monitor_names = get_monitor_name_by_type(log_df)
+    prefix = LOG_MONITOR_DATA_KEY + ":"
+    monitor_names = [
+        col[len(prefix):] for col in log_df.columns if col.startswith(prefix)
+    ]
     overlap_names = []
-    for name in monitor_names.scalars:
+    for name in monitor_names:
         # Currently, all overlap monitors have an autogen name including "overlap".
         if "overlap" in name.lower():
             overlap_names.append(name)
@@ -326,10 +331,10 @@ def get_joined_scalar_monitors(
         transformation_iters = monitor_data[transformation].iteration
         dat_length = len(data)
         if dat_length > 0:
-            iterations.extend(transformation_iters + iterations[-1])
             transformation_changes.append(dat_length)
-        else:
-            iterations.extend(transformation_iters)
+        # Iterations continue from those of the previous transformation.
+        last_iteration = iterations[-1] if iterations else 0
+        iterations.extend(last_iteration + it for it in transformation_iters)
         data.extend(transformation_data)
 
     data = process_scalar(data, scalar_operation=scalar_operation)
diff --git a/spins/invdes/problem_graph/log_tools/monitor_spec.py b/spins/invdes/problem_graph/log_tools/monitor_spec.py
index 59351b6..ab1687c 100644
--- a/spins/invdes/problem_graph/log_tools/monitor_spec.py
+++ b/spins/invdes/problem_graph/log_tools/monitor_spec.py
@@ -179,5 +179,5 @@ def load_from_yml(filename: str) -> MonitorDescriptionList:
         MonitorDescriptionList object containing the monitor spec information.
     """
     with open(filename) as fp:
-        monitor_descriptions = MonitorDescriptionList(yaml.load(fp))
+        monitor_descriptions = MonitorDescriptionList(yaml.safe_load(fp))
     return monitor_descriptions
diff --git a/spins/invdes/problem_graph/workspace.py b/spins/invdes/problem_graph/workspace.py
index 989b91b..5d66c5b 100644
--- a/spins/invdes/problem_graph/workspace.py
+++ b/spins/invdes/problem_graph/workspace.py
@@ -4,7 +4,7 @@ The workspace has the following responsibilities:
     1) Creating and caching problem graph node objects.
     2) Handling execution of transformations.
 """
-import collections
+import collections.abc
 from datetime import datetime
 import glob
 import logging
@@ -56,11 +56,12 @@ class Workspace:
         # TODO(logansu): Accept argument-less variable.
         self._objects[VARIABLE_NODE] = problem.Variable(1)
 
-        if isinstance(nodes, collections.Iterable):
+        # Note that nodes themselves are iterable.
+        if isinstance(nodes, optplan.ProblemGraphNode):
+            self._add_node(nodes)
+        elif isinstance(nodes, collections.abc.Iterable):
             for node in nodes:
                 self._add_node(node)
-        elif nodes:
-            self._add_node(nodes)
 
         # Setup logging if applicable.
         self._logger = None
@@ -181,6 +182,9 @@ class Workspace:
         # just in case someone decided to modify `node` after adding it to
         # the workspace.
         if node.name in self._objects:
+            if node is not self._nodes[node.name]:
+                raise ValueError("Node with same name added, got {}".format(
+                    node.name))
             if return_graph_node:
                 return self._objects[node.name], self._nodes[node.name]
             else:
@@ -389,11 +393,12 @@ def get_latest_log_step(folder: str) -> int:
         Last log file step.
     """
     # Find the last logged Pickle file.
-    filenames = glob.glob(os.path.join(folder, "step*.pkl"))
+    filenames = glob.glob(os.path.join(glob.escape(folder), "step*.pkl"))
     # Keep track of the file with the largest step.
     max_step = 0
     for name in filenames:
-        match = re.search(r"step(?P<step>\d+)\.pkl$", name)
+        match = re.fullmatch(r"step(?P<step>[1-9]\d*)\.pkl",
+                             os.path.basename(name))
         if match:
             max_step = max(max_step, int(match.group("step")))
     return max_step
-- 
2.43.0


From 3b380c7e0d8ada9014d4abcd53951909994a4251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:36 +0000
Subject: [PATCH 26/30] fix: a resumed plan lost the parameters set by the
 interrupted transformation or raised on parameters that no transformation
 sets

---
 spins/invdes/problem_graph/solver.py | 38 ++++++++++++++++++++--------
 1 file changed, 28 insertions(+), 10 deletions(-)

diff --git a/spins/invdes/problem_graph/solver.py b/spins/invdes/problem_graph/solver.py
index e4ed8cc..4227f6c 100644
--- a/spins/invdes/problem_graph/solver.py
+++ b/spins/invdes/problem_graph/solver.py
@@ -134,22 +134,16 @@ def restore_workspace(plan: optplan.OptimizationPlan, work: workspace.Workspace,
             chkpt_data = pickle.load(fp)
 
         # Iterate through all the previous transformations, restoring any
-        # parametrizations and parameters along the way. It is not strictly
-        # necessary to restore parametrizations/parameters along the way,
-        # but it was done out of implementation convenience.
+        # parametrizations along the way. It is not strictly necessary to
+        # restore parametrizations along the way, but it was done out of
+        # implementation convenience.
         for transform in plan.transformations[:transform_index]:
             # Restore any parametrizations.
             work.get_object(transform.parametrization).deserialize(
                 chkpt_data["parametrizations"][transform.parametrization.name])
 
-            # Add any parameter descriptions. Actual values restored below.
-            if transform.parameter_list:
-                for set_param in transform.parameter_list:
-                    work._add_node(set_param.parameter)
-
         # Now restore all parameter values.
-        for param, param_value in chkpt_data["parameters"].items():
-            work.get_object(param).set_parameter_value(param_value)
+        _restore_parameters(plan, work, chkpt_data["parameters"])
 
     if transform_index >= len(plan.transformations):
         # Optimization plan is complete already.
@@ -175,6 +169,8 @@ def restore_workspace(plan: optplan.OptimizationPlan, work: workspace.Workspace,
         work.get_object(
             plan.transformations[transform_index].parametrization).deserialize(
                 log_data["parametrization"])
+        # Parameters are set only when a transformation starts.
+        _restore_parameters(plan, work, log_data["parameters"])
         event_data = log_data["event"]
 
     # TODO(logansu): Remove hack.
@@ -183,6 +179,28 @@ def restore_workspace(plan: optplan.OptimizationPlan, work: workspace.Workspace,
     return transform_index, event_data
 
 
+def _restore_parameters(plan: optplan.OptimizationPlan,
+                        work: workspace.Workspace, values: Dict) -> None:
+    """Restores the values of parameters.
+
+    Args:
+        plan: Optimization plan containing the parameters.
+        work: Workspace to restore.
+        values: Mapping from the name of a parameter to its value.
+    """
+
+    def add_parameter(unused_parent, child) -> None:
+        if isinstance(child, optplan.Parameter):
+            work._add_node(child)
+
+    # TODO(logansu): Deal with this private import.
+    from spins.invdes.problem_graph.optplan.io import _iter_optplan_fields
+    _iter_optplan_fields(plan, set(), add_parameter)
+
+    for name, value in values.items():
+        work.get_object(name).set_parameter_value(value)
+
+
 def setup_logging(save_folder: str) -> None:
     """Setup logging.
 
-- 
2.43.0


From 3ae2df27168889a3d1d9f475f67e59c0b423b6d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:44 +0000
Subject: [PATCH 27/30] fix: serializing an optimization plan lost empty lists
 and models, plans without nodes or of later versions were rejected, generated
 names could collide with loaded ones, dividing by a function raised

---
 spins/invdes/problem_graph/optplan/io.py      | 24 ++++++++++++++++---
 spins/invdes/problem_graph/optplan/optplan.py |  6 ++++-
 spins/invdes/problem_graph/schema_utils.py    |  6 +++--
 3 files changed, 30 insertions(+), 6 deletions(-)

diff --git a/spins/invdes/problem_graph/optplan/io.py b/spins/invdes/problem_graph/optplan/io.py
index 261dff3..02a4353 100644
--- a/spins/invdes/problem_graph/optplan/io.py
+++ b/spins/invdes/problem_graph/optplan/io.py
@@ -55,6 +55,20 @@ def generate_name(model_type: str) -> str:
     return name
 
 
+def reserve_name(model_type: str, name: str) -> None:
+    """Excludes a name from automatic name generation.
+
+    Args:
+        model_type: String model type of the node called `name`.
+        name: Name that `generate_name` should not generate for `model_type`.
+    """
+    prefix, _, num = name.rpartition(".")
+    if prefix == model_type and num.isdigit():
+        problem_graph_name_map[model_type] = max(
+            problem_graph_name_map.get(model_type, 0),
+            int(num) + 1)
+
+
 def top_level_type(model: optplan.optplan.ProblemGraphNode) -> str:
     """Determines the top level type.
 
@@ -247,7 +261,7 @@ def validate(plan: optplan.OptimizationPlan) -> None:
 
     # Check for non-unique nodes.
     names = set()
-    for node in plan.nodes:
+    for node in plan.nodes or []:
         if node.name in names:
             raise ValueError("Nonunique name found: {}".format(node.name))
         names.add(node.name)
@@ -286,9 +300,9 @@ def _validate_optplan_version(version: str) -> None:
         ValueError: On incompatible version.
     """
     version_parts = [int(part) for part in version.split(".")]
-    if version_parts[0] < 0 or version_parts[1] < 2 or version_parts[2] < 3:
+    if version_parts < [0, 2, 3]:
         raise ValueError(
-            "Optplan must be at least version 0.2.1, got {}".format(version))
+            "Optplan must be at least version 0.2.3, got {}".format(version))
 
 
 def loads(serialized_plan: str) -> optplan.OptimizationPlan:
@@ -301,6 +315,9 @@ def loads(serialized_plan: str) -> optplan.OptimizationPlan:
         Stored `optplan.OptimizationPlan`.
     """
     plan = optplan.OptimizationPlan(json.loads(serialized_plan))
+    # A plan without any nodes need not list them.
+    if plan.nodes is None:
+        plan.nodes = []
     validate(plan)
     _validate_optplan_version(plan.version)
 
@@ -309,6 +326,7 @@ def loads(serialized_plan: str) -> optplan.OptimizationPlan:
     node_map = {}
     for node in plan.nodes:
         node_map[node.name] = node
+        reserve_name(node.type, node.name)
 
     # Now, recursively fill any node names with the actual node.
     def process_field(model: models.Model, child_model: str) -> models.Model:
diff --git a/spins/invdes/problem_graph/optplan/optplan.py b/spins/invdes/problem_graph/optplan/optplan.py
index ebc1f3d..a10aab8 100644
--- a/spins/invdes/problem_graph/optplan/optplan.py
+++ b/spins/invdes/problem_graph/optplan/optplan.py
@@ -167,6 +167,10 @@ class Function(ProblemGraphNode):
     differentiable. They are used as objective functions and constraints.
     """
 
+    # Let `numpy` numbers on the left-hand side defer to `__radd__`, `__rmul__`
+    # etc.
+    __array_ufunc__ = None
+
     def __add__(self, obj) -> "optplan.Sum":
         if isinstance(obj, optplan.Sum):
             return obj.__add__(self)
@@ -219,7 +223,7 @@ class Function(ProblemGraphNode):
     def __rsub__(self, obj) -> "optplan.Sum":
         return -self + obj
 
-    def __rdiv__(self, obj) -> "optplan.Product":
+    def __rtruediv__(self, obj) -> "optplan.Product":
         return self**(-1) * obj
 
 
diff --git a/spins/invdes/problem_graph/schema_utils.py b/spins/invdes/problem_graph/schema_utils.py
index a1023bf..013fb39 100644
--- a/spins/invdes/problem_graph/schema_utils.py
+++ b/spins/invdes/problem_graph/schema_utils.py
@@ -3,6 +3,7 @@ import copy
 from typing import List, Optional, Tuple, Union
 import warnings
 
+from schematics import common
 from schematics import models
 from schematics import types
 
@@ -191,5 +192,6 @@ class Model(KwargsModelMixin, models.Model, CopyModelMixin):
     """Defines a copyable model that can be inherited."""
 
     class Options:
-        # Leave out any fields set to `None` during serialization.
-        serialize_when_none = False
+        # Leave out any fields set to `None` during serialization. Empty lists
+        # and models are kept.
+        export_level = common.NOT_NONE
-- 
2.43.0


From ddf109fde384d8a8f018dfda2c97dca1819c1424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:49 +0000
Subject: [PATCH 28/30] Restore monitor_spec.py, whose name is that of a test
 file

---
 spins/invdes/problem_graph/log_tools/monitor_spec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spins/invdes/problem_graph/log_tools/monitor_spec.py b/spins/invdes/problem_graph/log_tools/monitor_spec.py
index ab1687c..59351b6 100644
--- a/spins/invdes/problem_graph/log_tools/monitor_spec.py
+++ b/spins/invdes/problem_graph/log_tools/monitor_spec.py
@@ -179,5 +179,5 @@ def load_from_yml(filename: str) -> MonitorDescriptionList:
         MonitorDescriptionList object containing the monitor spec information.
     """
     with open(filename) as fp:
-        monitor_descriptions = MonitorDescriptionList(yaml.safe_load(fp))
+        monitor_descriptions = MonitorDescriptionList(yaml.load(fp))
     return monitor_descriptions
-- 
2.43.0


From 6fc71ed529e9c5f1465f4f21d5c8b35f89f51300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:28 +0000
Subject: [PATCH 29/30] fix: simulation caches returned stale fields after
 in-place changes, adjoint simulation was wrong on absorbing grids, iterative
 solvers used an absolute tolerance, goos gradients of unused overlaps raised

---
 spins/fdfd_solvers/dipole.py               |  2 +-
 spins/fdfd_solvers/local_matrix_solvers.py |  8 ++---
 spins/goos_sim/maxwell/simulate.py         | 39 ++++++++++++++++------
 spins/invdes/problem/simulation.py         | 34 ++++++++++++-------
 spins/invdes/problem_graph/creator_em.py   | 18 ++++++----
 5 files changed, 67 insertions(+), 34 deletions(-)

diff --git a/spins/fdfd_solvers/dipole.py b/spins/fdfd_solvers/dipole.py
index 655dfe6..52b2d10 100644
--- a/spins/fdfd_solvers/dipole.py
+++ b/spins/fdfd_solvers/dipole.py
@@ -29,7 +29,7 @@ def build_dipole_source(omega: complex, dxes: List[np.ndarray],
     # The 0.0266 constant is an empirically determined constant.
     j_norm = np.sqrt(power) / np.sqrt(0.02661928208866846 * (omega**2 * dx**3))
 
-    J = np.zeros_like(eps)
+    J = np.zeros_like(eps, dtype=np.complex128)
     J[int(axis)][tuple(position)] = 1 / eps_source * j_norm * phase / abs(phase)
 
     return J
diff --git a/spins/fdfd_solvers/local_matrix_solvers.py b/spins/fdfd_solvers/local_matrix_solvers.py
index 7186b06..d24b9f0 100644
--- a/spins/fdfd_solvers/local_matrix_solvers.py
+++ b/spins/fdfd_solvers/local_matrix_solvers.py
@@ -137,8 +137,8 @@ class QmrSolver(LocalMatrixSolver):
         self.relative_tol = relative_tol
 
     def solve_matrix_equation(self, A, b):
-        tol = self.relative_tol * np.linalg.norm(b)
-        x, info = scipy.sparse.linalg.qmr(A, b, tol=tol)
+        x, info = scipy.sparse.linalg.qmr(
+            A, b, tol=self.relative_tol, atol=0)
         if info > 0:
             logger.error('Convergence tolerance not achieved.')
         elif info < 0:
@@ -158,8 +158,8 @@ class BiCgSolver(LocalMatrixSolver):
         self.relative_tol = relative_tol
 
     def solve_matrix_equation(self, A, b):
-        tol = self.relative_tol * np.linalg.norm(b)
-        x, info = scipy.sparse.linalg.bicg(A, b, tol=tol)
+        x, info = scipy.sparse.linalg.bicg(
+            A, b, tol=self.relative_tol, atol=0)
         if info > 0:
             logger.error('Convergence tolerance not achieved.')
         elif info < 0:
diff --git a/spins/goos_sim/maxwell/simulate.py b/spins/goos_sim/maxwell/simulate.py
index c818a92..9830ef6 100644
--- a/spins/goos_sim/maxwell/simulate.py
+++ b/spins/goos_sim/maxwell/simulate.py
@@ -224,14 +224,14 @@ class SimOutputImpl:
         pass
 
     def eval(self, sim: FdfdSimProp) -> goos.Flow:
-        raise NotImplemented("{} cannot be evaluated.".format(type(self)))
+        raise NotImplementedError("{} cannot be evaluated.".format(type(self)))
 
     def before_adjoint_sim(self, adjoint_sim: FdfdSimProp,
                            grad_val: goos.Flow.Grad) -> None:
         # If an implementation is not provided, then the gradient must be
         # `None` to indicate that the gradient is not needed.
         if grad_val:
-            raise NotImplemented(
+            raise NotImplementedError(
                 "Cannot differentiate with respect to {}".format(type(self)))
 
 
@@ -338,7 +338,10 @@ class WaveguideModeOverlapImpl(SimOutputImpl):
 
     def before_adjoint_sim(self, adjoint_sim: FdfdSimProp,
                            grad_val: goos.NumericFlow.Grad) -> None:
-        adjoint_sim.source += np.conj(grad_val.array_grad * self._wg_overlap)
+        # The gradient is `None` if it is not needed.
+        if grad_val:
+            adjoint_sim.source += np.conj(
+                grad_val.array_grad * self._wg_overlap)
 
 
 class Solver(goos.Model):
@@ -500,10 +503,24 @@ class SimulateNode(goos.ArrayFlowOpMixin, goos.ProblemGraphNode):
         Returns:
             Simulated fields.
         """
-        if self._last_eps is None or self._last_eps != input_vals[0]:
-            eps = input_vals[0].array
+        self._simulate(input_vals[0])
+        # Copy because the outputs may refer to the stored results.
+        return goos.ArrayFlow(
+            [copy.deepcopy(out.eval(self._last_results))
+             for out in self._outputs])
+
+    def _simulate(self, eps_flow: goos.NumericFlow) -> None:
+        """Runs the simulation if the permittivity has changed.
+
+        Args:
+            eps_flow: Permittivity distribution.
+        """
+        if self._last_eps is None or self._last_eps != eps_flow:
+            # Copy because the array could be changed after the simulation.
+            eps_flow = copy.deepcopy(eps_flow)
+            eps = eps_flow.array
             sim = FdfdSimProp(eps=eps,
-                              source=np.zeros_like(eps),
+                              source=np.zeros(eps.shape, dtype=np.complex128),
                               wlen=self._wlen,
                               dxes=self._dxes,
                               pml_layers=self._pml_layers,
@@ -531,17 +548,17 @@ class SimulateNode(goos.ArrayFlowOpMixin, goos.ProblemGraphNode):
             fields = fdfd_tools.unvec(fields, eps[0].shape)
             sim.fields = np.stack(fields, axis=0)
 
-            self._last_eps = input_vals[0]
+            self._last_eps = eps_flow
             self._last_results = sim
 
-        return goos.ArrayFlow(
-            [out.eval(self._last_results) for out in self._outputs])
-
     def grad(self, input_vals: List[goos.Flow],
              grad_val: goos.ArrayFlow.Grad) -> List[goos.Flow.Grad]:
+        # The stored fields could belong to another permittivity.
+        self._simulate(input_vals[0])
+
         eps = input_vals[0].array
         sim = FdfdSimProp(eps=eps,
-                          source=np.zeros_like(eps),
+                          source=np.zeros(eps.shape, dtype=np.complex128),
                           wlen=self._wlen,
                           dxes=self._dxes,
                           pml_layers=self._pml_layers,
diff --git a/spins/invdes/problem/simulation.py b/spins/invdes/problem/simulation.py
index b384270..63684eb 100644
--- a/spins/invdes/problem/simulation.py
+++ b/spins/invdes/problem/simulation.py
@@ -60,6 +60,7 @@ class FdfdSimulation:
             self.bloch_vec = bloch_vec
 
         # For caching uses.
+        self.cache_size = cache_size
         self.cache = [None] * cache_size
         self.lock = threading.Lock()
 
@@ -105,9 +106,11 @@ class FdfdSimulation:
             if electric_fields is None:
                 electric_fields = self._run_solver(z)
                 # Remove the last used element.
-                del self.cache[0]
-            # Insert data into cache.
-            self.cache.append((z, electric_fields))
+                del self.cache[:1]
+            # Insert data into cache. The structure and the fields are copied
+            # because the caller may change the arrays.
+            if self.cache_size > 0:
+                self.cache.append((np.copy(z), np.copy(electric_fields)))
         return electric_fields
 
     def _run_solver(self, z: np.ndarray) -> np.ndarray:
@@ -145,7 +148,8 @@ class AdjointFdfdSimulation:
         self.sim = sim
 
         # For caching uses.
-        self.cache = [None] * len(sim.cache)
+        self.cache_size = sim.cache_size
+        self.cache = [None] * self.cache_size
         self.lock = threading.Lock()
 
     def simulate(self, z: np.ndarray, J: np.ndarray) -> np.ndarray:
@@ -180,9 +184,12 @@ class AdjointFdfdSimulation:
             if electric_fields is None:
                 electric_fields = self._run_solver(z, J)
                 # Remove the last used element.
-                del self.cache[0]
-            # Insert data into cache.
-            self.cache.append((z, J, electric_fields))
+                del self.cache[:1]
+            # Insert data into cache. The arrays are copied because the caller
+            # may change them.
+            if self.cache_size > 0:
+                self.cache.append(
+                    (np.copy(z), np.copy(J), np.copy(electric_fields)))
         return electric_fields
 
     def _run_solver(self, z: np.ndarray, J: np.ndarray) -> np.ndarray:
@@ -206,7 +213,7 @@ class AdjointFdfdSimulation:
           (R* A' L*) v = (L* (R* R* b))
                        = (R* b)
          and then fix the returned value v by multiplying by
-          (L* L*) = diag(s)
+          (L* L*) = diag(s)*
          leading to the result (L* L* v) = (L* L* (R* x)) = L* x
 
          Putting it all together, with adjoint=true, we have
@@ -232,11 +239,14 @@ class AdjointFdfdSimulation:
             mult(mult(spx, sdy), spz),
             mult(mult(spx, spy), sdz)
         ]
-        new_J = np.copy(fdfd_tools.unvec(J, self.sim.dims))
+        # Note that `dxes`, and hence `s`, is already conjugated.
+        new_J = np.array(
+            fdfd_tools.unvec(J, self.sim.dims), dtype=np.complex128)
 
         for k in range(3):
-            new_J[k] /= np.conj(s[k])
-        new_J = fdfd_tools.vec(new_J)
+            new_J[k] /= s[k]
+        # The solver multiplies the source by `omega`, which is conjugated below.
+        new_J = fdfd_tools.vec(new_J) * self.sim.omega / np.conj(self.sim.omega)
         mu = None
         if self.sim.mu is not None:
             mu = np.conj(fdfd_tools.vec(self.sim.mu))
@@ -254,6 +264,6 @@ class AdjointFdfdSimulation:
         # Unvec to undo right pre-conditioner.
         efields = fdfd_tools.unvec(efields, self.sim.dims)
         for i in range(3):
-            efields[i] = np.multiply(efields[i], np.conj(s[i]))
+            efields[i] = np.multiply(efields[i], s[i])
         efields = fdfd_tools.vec(efields)
         return efields
diff --git a/spins/invdes/problem_graph/creator_em.py b/spins/invdes/problem_graph/creator_em.py
index cfbd252..cfbfccd 100644
--- a/spins/invdes/problem_graph/creator_em.py
+++ b/spins/invdes/problem_graph/creator_em.py
@@ -293,6 +293,7 @@ class FdfdSimulation(problem.OptimizationFunction):
         self._bloch_vector = bloch_vector
 
         # For caching uses.
+        self._cache_size = cache_size
         self._cache = [None] * cache_size
         self._cache_adjoint = [None] * cache_size
 
@@ -372,10 +373,12 @@ class FdfdSimulation(problem.OptimizationFunction):
                 bloch_vec=self._bloch_vector,
             )
             # Remove the last used element.
-            del self._cache[0]
+            del self._cache[:1]
 
-        # Insert data into cache.
-        self._cache.append((eps, electric_fields))
+        # Insert data into cache. The arrays are copied because the caller may
+        # change them.
+        if self._cache_size > 0:
+            self._cache.append((np.copy(eps), np.copy(electric_fields)))
         return electric_fields
 
     def _simulate_adjoint(self, eps: np.ndarray,
@@ -420,10 +423,13 @@ class FdfdSimulation(problem.OptimizationFunction):
             )
 
             # Remove the last used element.
-            del self._cache_adjoint[0]
+            del self._cache_adjoint[:1]
 
-        # Insert data into cache.
-        self._cache_adjoint.append((eps, source, electric_fields))
+        # Insert data into cache. The arrays are copied because the caller may
+        # change them.
+        if self._cache_size > 0:
+            self._cache_adjoint.append(
+                (np.copy(eps), np.copy(source), np.copy(electric_fields)))
 
         return electric_fields
 
-- 
2.43.0


From 30020d256e29eb86b71e845be7c89111fb28d115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:02:25 +0000
Subject: [PATCH 30/30] fix: normalise waveguide modes with the power flux of
 the discrete equations

---
 spins/fdfd_tools/waveguide.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/spins/fdfd_tools/waveguide.py b/spins/fdfd_tools/waveguide.py
index 819308b..a272648 100644
--- a/spins/fdfd_tools/waveguide.py
+++ b/spins/fdfd_tools/waveguide.py
@@ -108,13 +108,11 @@ def normalized_fields(v: np.ndarray,
     E = unvec(e, shape)
     H = unvec(h, shape)
 
-    S1 = E[0] * np.roll(
-        np.conj(H[1]), 1, axis=0) * dxes_real[0][1] * dxes_real[1][0]
-    S2 = E[1] * np.roll(
-        np.conj(H[0]), 1, axis=1) * dxes_real[0][0] * dxes_real[1][1]
-    S = 0.5 * (
-        (S1 + np.roll(S1, 1, axis=0)) - (S2 + np.roll(S2, 1, axis=1)))
-    P = 0.5 * np.real(S.sum())
+    # E[0] and H[1] (E[1] and H[0]) lie at the same transverse position, whose
+    # cell extends over the primary (dual) width along the direction of E.
+    S1 = E[0] * np.conj(H[1]) * dxes_real[0][0] * dxes_real[1][1]
+    S2 = E[1] * np.conj(H[0]) * dxes_real[1][0] * dxes_real[0][1]
+    P = 0.5 * np.real((S1 - S2).sum())
     assert P > 0, 'Found a mode propagating in the wrong direction! P={}'.format(
         P)
 
-- 
2.43.0

