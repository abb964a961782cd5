From d3a10d879a3922d1ea1f3f25998ad7f2333ed626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:14 +0000
Subject: [PATCH 01/48] fix: Tensor.sum(False, False) keeps the value axes

---
 maxlike/tensor/tensor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/maxlike/tensor/tensor.py b/maxlike/tensor/tensor.py
index c373ea9..1cc21c3 100644
--- a/maxlike/tensor/tensor.py
+++ b/maxlike/tensor/tensor.py
@@ -488,7 +488,8 @@ class Tensor(BaseTensor):
         if sum_val is False:
             if sum_dim is True:
                 val = val.sum(tuple(p + self.n + np.arange(self.dim)))
-            return Tensor(val, self.x_dim, self.y_dim, 0,
+            return Tensor(val, self.x_dim, self.y_dim,
+                          0 if sum_dim is True else self.dim,
                           self.x_map, self.y_map)
 
         if sum_val is True:
-- 
2.43.0


From df4faea5586ea44d7147df67524aabec53281518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:18 +0000
Subject: [PATCH 02/48] fix: Tensor.transpose with blocks of more than one axis

---
 maxlike/tensor/tensor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/maxlike/tensor/tensor.py b/maxlike/tensor/tensor.py
index 1cc21c3..a6feb3b 100644
--- a/maxlike/tensor/tensor.py
+++ b/maxlike/tensor/tensor.py
@@ -618,8 +618,8 @@ class Tensor(BaseTensor):
     def transpose(self):
         val = self.values
         if (self.x_dim > 0) & (self.y_dim > 0):
-            for k in range(0, self.x_dim):
-                val = np.moveaxis(val, self.x_dim, k)
+            for k in range(0, self.y_dim):
+                val = np.moveaxis(val, self.x_dim + k, k)
         return Tensor(val, self.y_dim,  self.x_dim, self.dim,
                       self.y_map, self.x_map)
 
-- 
2.43.0


From 7e5d2d52f3c16e8f5b49422418c6910dfc216abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:21 +0000
Subject: [PATCH 03/48] fix: partial Tensor.sum keeps the mappings of the
 remaining features

---
 maxlike/tensor/tensor.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/maxlike/tensor/tensor.py b/maxlike/tensor/tensor.py
index a6feb3b..82aa679 100644
--- a/maxlike/tensor/tensor.py
+++ b/maxlike/tensor/tensor.py
@@ -532,7 +532,14 @@ class Tensor(BaseTensor):
             idx[self.x_dim + f] = slice(None)
             val = val * np.eye(val.shape[k])[tuple(idx)]
 
-        return Tensor(val, self.x_dim, self.y_dim, dim)
+        # mappings of the features that were not summed
+        rest = [f for f in range(self.n) if f not in sum_val]
+        x_map, y_map = (
+            array('b', [rest.index(f) if f in rest else -1 for f in m])
+            if any(f in rest for f in m) else None
+            for m in (self.x_map, self.y_map))
+
+        return Tensor(val, self.x_dim, self.y_dim, dim, x_map, y_map)
 
     def expand(self, where, newsize, dim=False):
         """
-- 
2.43.0


From 2a97cd351e00533638761db027be3bfd04295c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:43 +0000
Subject: [PATCH 04/48] fix: adding a scalar Tensor to a mapped Tensor

---
 maxlike/tensor/tensor.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/maxlike/tensor/tensor.py b/maxlike/tensor/tensor.py
index 82aa679..5af2e02 100644
--- a/maxlike/tensor/tensor.py
+++ b/maxlike/tensor/tensor.py
@@ -842,6 +842,11 @@ class Tensor(BaseTensor):
                 raise InvalidOperation
 
         if self.values.ndim == 0:
+            if self.values != 0 and op_type in [
+                    TensorOp.ADD, TensorOp.SUB, TensorOp.RSUB]:
+                return Tensor(
+                    op_type.value(self.values, other.toarray()),
+                    other.x_dim, other.y_dim, other.dim)
             return Tensor(
                 op_type.value(self.values, other.values),
                 other.x_dim, other.y_dim, other.dim, other.x_map, other.y_map)
-- 
2.43.0


From f86b761d830e0035edb1170b96f399c9d570249e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:46 +0000
Subject: [PATCH 05/48] fix: product of Tensors with different mappings on the
 same block

---
 maxlike/tensor/tensor.py | 50 ++++++++++++++++++----------------------
 1 file changed, 23 insertions(+), 27 deletions(-)

diff --git a/maxlike/tensor/tensor.py b/maxlike/tensor/tensor.py
index 5af2e02..2d675d7 100644
--- a/maxlike/tensor/tensor.py
+++ b/maxlike/tensor/tensor.py
@@ -47,9 +47,14 @@ def arr_take_diag(arr, q, p, mapping):
     for k, f in enumerate(mapping):
         if f < 0:
             continue
+        if 1 in (arr.shape[q + k], arr.shape[p + f]):
+            # one of the axes is broadcasted
+            if arr.shape[q + k] > 1:
+                arr = arr.swapaxes(q + k, p + f)
+            continue
         arr = np.diagonal(arr, 0, q + k, p + f)  # np.diagonal
-        arr = arr.swapaxes(-1, p + f - 1)
-        arr = np.expand_dims(arr, k)
+        arr = np.moveaxis(arr, -1, p + f - 1)
+        arr = np.expand_dims(arr, q + k)
     return arr
 
 
@@ -67,20 +72,6 @@ def arr_expand_diag(arr, q, p, mapping):
     return arr
 
 
-def arr_expand_cross_diag(arr, p, map1, map2):
-    idx = np.ones(arr.ndim, dtype=np.int32)
-    for i, j in zip(map1, map2):
-        if i == j:
-            continue
-        n = arr.shape[p + i]
-        idx[p + i] = n
-        idx[p + j] = n
-        arr = arr * np.broadcast_to(np.eye(n), idx)
-        idx[p + i] = 1
-        idx[p + j] = 1
-    return arr
-
-
 def arr_swapaxes_cross(arr, p, map1, map2):
     idx = np.ones(arr.ndim, dtype=np.int32)
     for k, f in enumerate(map2):
@@ -904,15 +895,23 @@ class Tensor(BaseTensor):
         # --------------------------------------------------------------------
         # Multiplication and Division
         # --------------------------------------------------------------------
-        p = self.x_dim + self.y_dim
+        for l_map, r_map in ((self.x_map, other.x_map),
+                             (self.y_map, other.y_map)):
+            if l_map and r_map and l_map != r_map:
+                # the mappings aren't compatible
+                l_dense, r_dense = (
+                    Tensor(el.toarray(), el.x_dim, el.y_dim, el.dim)
+                    for el in (self, other))
+                return l_dense.bin_op(r_dense, op_type)
+
+        l_values = l_values[l_idx]
+        r_values = r_values[r_idx]
+        p = x_dim + y_dim
 
         if self.x_map:
             x_map = self.x_map
-            l_values = arr_expand_cross_diag(
-                l_values, p, self.x_map, other.x_map)
             if not other.x_map and other.x_dim:
-                r_values = arr_take_diag(r_values, 0, other.x_dim + other.y_dim,
-                                         self.x_map)
+                r_values = arr_take_diag(r_values, 0, p, self.x_map)
         else:
             x_map = other.x_map
             if x_map and self.x_dim:
@@ -920,18 +919,15 @@ class Tensor(BaseTensor):
 
         if self.y_map:
             y_map = self.y_map
-            l_values = arr_expand_cross_diag(
-                l_values, p, self.y_map, other.y_map)
             if not other.y_map and other.y_dim:
-                r_values = arr_take_diag(r_values, other.x_dim, other.x_dim + other.y_dim,
-                                         self.y_map)
+                r_values = arr_take_diag(r_values, x_dim, p, self.y_map)
         else:
             y_map = other.y_map
             if self.y_dim:
-                l_values = arr_take_diag(l_values, self.x_dim, p, other.y_map)
+                l_values = arr_take_diag(l_values, x_dim, p, other.y_map)
 
         return Tensor(
-            op_type.value(l_values[l_idx], r_values[r_idx]),
+            op_type.value(l_values, r_values),
             x_dim=x_dim, y_dim=y_dim, dim=dim,
             x_map=x_map, y_map=y_map)
 
-- 
2.43.0


From 52d5ed5d1a55044c82a0d08fa0ae760716fa480b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:58 +0000
Subject: [PATCH 06/48] fix: GenericTensor aligns elements with missing blocks

---
 maxlike/tensor/tensor.py | 33 +++++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/maxlike/tensor/tensor.py b/maxlike/tensor/tensor.py
index 2d675d7..46cca35 100644
--- a/maxlike/tensor/tensor.py
+++ b/maxlike/tensor/tensor.py
@@ -211,15 +211,17 @@ class GenericTensor(BaseTensor):
 
     def __init__(self, x_dim=0, y_dim=0, n=0, dim=0, elements=None):
         super(GenericTensor, self).__init__(x_dim, y_dim, n, dim)
-        # all of the elements need to have the same shape
+        # all of the elements need to have the same number of axes
         if elements is None:
             elements = ()
 
-        object.__setattr__(self, 'elements', tuple(elements))
+        elements = tuple(
+            (el if isinstance(el, Tensor) else Tensor(el)).
+            broadcast(x_dim, y_dim, n, dim) for el in elements)
+        object.__setattr__(self, 'elements', elements)
 
     def toarray(self):
-        return sum([el.toarray() if isinstance(el, Tensor) else el
-                    for el in self.elements])
+        return sum([el.toarray() for el in self.elements])
 
     def sum(self, sum_val=True, sum_dim=True):
         # considers the impact of broadcasting
@@ -348,7 +350,10 @@ class GenericTensor(BaseTensor):
         # Scalar
         # Array
         #  -> are converted to tensor
-        if isinstance(other, (int, float, np.ndarray)):
+        if isinstance(other, np.ndarray):
+            other = Tensor(other)
+
+        if np.isscalar(other):
             x_dim = self.x_dim
             y_dim = self.y_dim
             n = self.n
@@ -361,7 +366,7 @@ class GenericTensor(BaseTensor):
             dim = max(self.dim, other.dim)
 
         # Tensor
-        if isinstance(other, (int, float, np.ndarray, Tensor)):
+        if np.isscalar(other) or isinstance(other, Tensor):
             new_elements = list(self.elements)
             if op_type in [TensorOp.ADD, TensorOp.SUB]:
                 for k, el in enumerate(new_elements):
@@ -613,6 +618,22 @@ class Tensor(BaseTensor):
             x_map=self.x_map,
             y_map=self.y_map)
 
+    def broadcast(self, x_dim, y_dim, n, dim):
+        """
+        Adds the missing axes, with size one
+        """
+        if (self.x_dim, self.y_dim, self.n, self.dim) == \
+                (x_dim, y_dim, n, dim):
+            return self
+
+        return Tensor(
+            self.values[self.__reshape_idx(x_dim, y_dim, n, dim)],
+            x_dim=x_dim,
+            y_dim=y_dim,
+            dim=dim,
+            x_map=self.x_map,
+            y_map=self.y_map)
+
     def transpose(self):
         val = self.values
         if (self.x_dim > 0) & (self.y_dim > 0):
-- 
2.43.0


From 2f41c14fbc629240fcd158f1cbed6da738661f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:02 +0000
Subject: [PATCH 07/48] fix: GenericTensor.sum over some of the features or the
 value axes

---
 maxlike/tensor/tensor.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/maxlike/tensor/tensor.py b/maxlike/tensor/tensor.py
index 46cca35..fa74e22 100644
--- a/maxlike/tensor/tensor.py
+++ b/maxlike/tensor/tensor.py
@@ -270,9 +270,12 @@ class GenericTensor(BaseTensor):
             return Tensor(values, x_dim=self.x_dim, y_dim=self.y_dim, dim=dim)
 
         # else:
-        new_elements = [el.sum(False, sum_dim) * (size / el_size)
+        new_elements = [el.sum(sum_val, sum_dim) * (size / el_size)
                         for el, el_size in zip(self.elements, el_sizes)]
-        return GenericTensor(self.x_dim, self.y_dim, self.n, 0, new_elements)
+        n = self.n if sum_val is False else \
+            self.n - len([k for k in idx if k < self.n])
+        dim = 0 if sum_dim is True else self.dim
+        return GenericTensor(self.x_dim, self.y_dim, n, dim, new_elements)
 
     def expand(self, where, newsize, dim=False):
         new_n = self.n if dim else newsize
-- 
2.43.0


From f1e0a263f5e8d3336fdcf5815f4ffa6eb9179050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:01 +0000
Subject: [PATCH 08/48] fix: dot products with a tensor that is mapped on an
 unmapped axis

---
 maxlike/tensor/tensor.py | 43 +++++++++++++---------------------------
 1 file changed, 14 insertions(+), 29 deletions(-)

diff --git a/maxlike/tensor/tensor.py b/maxlike/tensor/tensor.py
index fa74e22..5e6984b 100644
--- a/maxlike/tensor/tensor.py
+++ b/maxlike/tensor/tensor.py
@@ -72,23 +72,6 @@ def arr_expand_diag(arr, q, p, mapping):
     return arr
 
 
-def arr_swapaxes_cross(arr, p, map1, map2):
-    idx = np.ones(arr.ndim, dtype=np.int32)
-    for k, f in enumerate(map2):
-        for l, g in enumerate(map1):
-            if g == f:
-                n = arr.shape[k]
-                idx[l] = n
-                idx[p + k] = n
-                arr = arr * np.broadcast_to(np.eye(n), idx)
-                idx[l] = 1
-                idx[p + k] = 1
-                break
-        else:
-            arr = arr.swapaxes(p + k, p + f)
-    return arr
-
-
 class TensorOp(Enum):
     ID = partial(lambda x: x)
     RSUB = partial(lambda x, y: np.subtract(y, x))
@@ -723,11 +706,15 @@ class Tensor(BaseTensor):
         val = arr_swapaxes(val, 0, p, self.x_map)
         val = np.multiply(other.values[tuple(l_idx)], val[tuple(r_idx)])
         val = arr_swapaxes(val, other.x_dim, other.x_dim + p, self.x_map)
+        # axes of self without mapping
+        free = [k for k in range(other.n)
+                if not self.x_map or self.x_map[k] < 0]
+        val = arr_swapaxes(val, 0, other.x_dim,
+                           [f if f in free else -1 for f in other.x_map])
         if self.x_map:
             x_map = compose_mappings(self.x_map, other.x_map)
         else:
             x_map = array('b')
-            val = arr_swapaxes(val, 0, other.x_dim, other.x_map)
 
         val = val.sum(tuple(other.x_dim + np.arange(other.n)))
         return Tensor(val, x_dim=other.x_dim, y_dim=self.y_dim, dim=dim,
@@ -774,17 +761,15 @@ class Tensor(BaseTensor):
         val = arr_swapaxes(val, 0, self.x_dim, self.x_map)
         val = other.values[tuple(l_idx)] * val[tuple(r_idx)]
         val = arr_swapaxes(val, p, p + self.x_dim, self.x_map)
-        if not self.x_map:
-            val = arr_swapaxes(val, 0, p, other.x_map)
-            val = arr_swapaxes_cross(val, other.x_dim,                      # NOT COVERED
-                                     other.x_map, other.y_map)
-
-        x_map = compose_mappings(self.x_map, other.x_map)
-        y_map = compose_mappings(self.x_map, other.y_map)
-        val = val.sum(tuple(p + np.arange(other.n)))
-        return Tensor(val,
-                      x_dim=other.x_dim, y_dim=other.y_dim, dim=dim,
-                      x_map=x_map, y_map=y_map)
+        # position of the features of other in [N, M]
+        n_map = [other.n + f if f >= 0 else k
+                 for k, f in enumerate(self.x_map)] or list(range(other.n))
+        x_map = compose_mappings(n_map, other.x_map)
+        y_map = compose_mappings(n_map, other.y_map)
+        val = Tensor(val,
+                     x_dim=other.x_dim, y_dim=other.y_dim, dim=dim,
+                     x_map=x_map, y_map=y_map)
+        return val.sum(list(range(other.n)), False)
 
     def __neg__(self):
         return Tensor(
-- 
2.43.0


From 6e1e334c09ddeb55b35c7b60e372519d3a7d0151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:25 +0000
Subject: [PATCH 09/48] fix: binary ufuncs called with a tensor as first
 operand

---
 maxlike/tensor/tensor.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/maxlike/tensor/tensor.py b/maxlike/tensor/tensor.py
index 5e6984b..51fd110 100644
--- a/maxlike/tensor/tensor.py
+++ b/maxlike/tensor/tensor.py
@@ -417,6 +417,12 @@ class GenericTensor(BaseTensor):
             }[name]
         except:
             raise InvalidOperation('Invalid ufunc:', name)
+        if inputs[0] is self:
+            op_type = {
+                TensorOp.RSUB: TensorOp.SUB,
+                TensorOp.RDIV: TensorOp.DIV,
+            }.get(op_type, op_type)
+            return self.bin_op(inputs[1], op_type)
         return self.bin_op(inputs[0], op_type)
 
 
@@ -965,7 +971,8 @@ class Tensor(BaseTensor):
                 raise InvalidOperation(
                     "{} only supported for Tensor".format(name) +
                     "for x_dim == y_dim == 0")
-            return Tensor(ufunc(self.values, inputs[1]),
+            other = inputs[1] if inputs[0] is self else inputs[0]
+            return Tensor(ufunc(self.values, other),
                           x_dim=0, y_dim=0, dim=self.dim)
 
         try:
@@ -978,6 +985,12 @@ class Tensor(BaseTensor):
             }[name]
         except:
             raise InvalidOperation('Invalid ufunc:', name)
+        if inputs[0] is self:
+            op_type = {
+                TensorOp.RSUB: TensorOp.SUB,
+                TensorOp.RDIV: TensorOp.DIV,
+            }.get(op_type, op_type)
+            return self.bin_op(inputs[1], op_type)
         return self.bin_op(inputs[0], op_type)
 
     def __reshape_idx(self, x_dim, y_dim, n, dim):
-- 
2.43.0


From c295aa056fc253e6464b93ed28c14261adde4034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:26 +0000
Subject: [PATCH 10/48] fix: offset of weighted affine terms in Sum, and in
 Sum.eval

---
 maxlike/func/func_op.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/maxlike/func/func_op.py b/maxlike/func/func_op.py
index 3414967..f95a620 100644
--- a/maxlike/func/func_op.py
+++ b/maxlike/func/func_op.py
@@ -177,10 +177,10 @@ class Sum(Func):
             dim_map = [dim_map]
 
         if isinstance(foo, Affine):
-            self.b += foo.b
+            self.b += weight * foo.b
             self.add(foo.base, param_map, feat_map, dim_map, weight * foo.a)
         elif isinstance(foo, Sum):
-            self.b += foo.b
+            self.b += weight * foo.b
             for w, atom in foo.atoms:
                 self.add(
                     atom.foo,
@@ -217,7 +217,7 @@ class Sum(Func):
                 grad[i] += w * atom_grad[i]
                 for j in range(i + 1):
                     hess[i][j] += w * atom_hess[i][j]
-        return val, grad, hess
+        return val + self.b, grad, hess
 
 
 class Product(Func):
-- 
2.43.0


From 31c7e5a37da8c28b63d32e80d2ebe86a4b0bb13b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:30 +0000
Subject: [PATCH 11/48] fix: derivatives of FuncWrap with unordered or repeated
 parameters

---
 maxlike/func/func_op.py | 57 ++++++++++++++++-------------------------
 1 file changed, 22 insertions(+), 35 deletions(-)

diff --git a/maxlike/func/func_op.py b/maxlike/func/func_op.py
index f95a620..41deb7c 100644
--- a/maxlike/func/func_op.py
+++ b/maxlike/func/func_op.py
@@ -52,10 +52,8 @@ class FuncWrap(Func):
                 grad = []
                 hess = [[Tensor(0)] * (i + 1) for i in range(n)]
                 for i in range(n):
-                    try:
-                        grad.append(obj._expand(foo_grad[obj.param_map.index(i)]))
-                    except ValueError:
-                        grad.append(Tensor(0))
+                    grad.append(sum((obj._expand(foo_grad[k])
+                                     for k in obj._where(i)), Tensor(0)))
                 return val, grad, hess
 
             self.hess = null_method(self)
@@ -68,45 +66,34 @@ class FuncWrap(Func):
     def __call__(self, params):
         return self._expand(self.foo(self.param_map(params)))
 
+    def _where(self, i):
+        # positions of the i-th parameter in the arguments of foo
+        return [k for k, p in enumerate(self.param_map) if p == i]
+
     def grad(self, params, i):
-        try:
-            return self._expand(
-                self.foo.grad(self.param_map(params),
-                              self.param_map.index(i)))
-        except ValueError:
-            return Tensor(0)
+        args = self.param_map(params)
+        return sum((self._expand(self.foo.grad(args, k))
+                    for k in self._where(i)), Tensor(0))
 
     def hess(self, params, i, j):
-        try:
-            return self._expand(
-                self.foo.hess(self.param_map(params),
-                              self.param_map.index(i),
-                              self.param_map.index(j)))
-        except ValueError:
-            return Tensor(0)
+        args = self.param_map(params)
+        return sum((self._expand(
+            self.foo.hess(args, k, l) if k >= l else
+            self.foo.hess(args, l, k).transpose())
+            for k in self._where(i) for l in self._where(j)), Tensor(0))
 
     def eval(self, params):
         foo_val, foo_grad, foo_hess = self.foo.eval(self.param_map(params))
         val = self._expand(foo_val)
         grad, hess = [], []
-        idx_list = []
-        for i in range(len(params)):
-            try:
-                idx = self.param_map.index(i)
-                grad.append(self._expand(foo_grad[idx]))
-                hess_line = []
-                for j in range(i):
-                    jdx = idx_list[j]
-                    hess_line.append(
-                        Tensor(0) if jdx is None else
-                        self._expand(foo_hess[idx][jdx]))
-                hess_line.append(self._expand(foo_hess[idx][idx]))  # for diag
-                hess.append(hess_line)
-            except ValueError:
-                idx = None
-                grad.append(Tensor(0))
-                hess.append([Tensor(0)] * (i + 1))
-            idx_list.append(idx)
+        where = [self._where(i) for i in range(len(params))]
+        for i, w_i in enumerate(where):
+            grad.append(sum((self._expand(foo_grad[k]) for k in w_i),
+                            Tensor(0)))
+            hess.append([sum((self._expand(
+                foo_hess[k][l] if k >= l else foo_hess[l][k].transpose())
+                for k in w_i for l in w_j), Tensor(0))
+                for w_j in where[:i + 1]])
         return val, grad, hess
 
 
-- 
2.43.0


From befeb0d3a2619ba725032f41456b54319647d4bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:34 +0000
Subject: [PATCH 12/48] fix: null derivatives of combined functions without
 index arguments

---
 maxlike/func/func_base.py | 15 +++++++++------
 maxlike/func/func_op.py   |  6 +++---
 2 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/maxlike/func/func_base.py b/maxlike/func/func_base.py
index d32dcd1..cb21558 100644
--- a/maxlike/func/func_base.py
+++ b/maxlike/func/func_base.py
@@ -9,8 +9,11 @@ from ..tensor import Tensor
 def null_func(obj, *args, **kwargs):
     return Tensor(0)
 
-def null_method(obj):
-    return MethodType(null_func, obj)
+def null_grad(obj):
+    return MethodType(vector_wrap(null_func), obj)
+
+def null_hess(obj):
+    return MethodType(matrix_wrap(null_func), obj)
 
 def isnull(foo):
     return getattr(foo, 'null', False)
@@ -208,10 +211,10 @@ class Affine(Func):
     def __init__(self, base, a=1, b=0):
 
         if isnull(base.grad):
-            self.grad = null_method(self)
+            self.grad = null_grad(self)
 
         if isnull(base.hess):
-            self.hess = null_method(self)
+            self.hess = null_hess(self)
 
         if isinstance(base, Affine):
             self.base = base.base
@@ -255,8 +258,8 @@ class Compose(Func):
         self.f = f
 
         if isnull(f.grad):
-            self.grad = null_method(self)
-            self.hess = null_method(self)
+            self.grad = null_grad(self)
+            self.hess = null_hess(self)
 
         elif isnull(f.hess):
             def hess(obj, params, i, j):
diff --git a/maxlike/func/func_op.py b/maxlike/func/func_op.py
index 41deb7c..bdcf0ee 100644
--- a/maxlike/func/func_op.py
+++ b/maxlike/func/func_op.py
@@ -1,5 +1,5 @@
 from ..tensor import Tensor
-from .func_base import Func, Affine, null_method, isnull
+from .func_base import Func, Affine, null_grad, null_hess, isnull
 from six.moves import reduce
 from types import MethodType
 
@@ -42,7 +42,7 @@ class FuncWrap(Func):
             self.dim_map = IndexMap(dim_map)
 
         if isnull(foo.grad):
-            self.grad = null_method(self)
+            self.grad = null_grad(self)
 
         if isnull(foo.hess):
             def eval(obj, params):
@@ -56,7 +56,7 @@ class FuncWrap(Func):
                                      for k in obj._where(i)), Tensor(0)))
                 return val, grad, hess
 
-            self.hess = null_method(self)
+            self.hess = null_hess(self)
             self.eval = MethodType(eval, self)
 
     def _expand(self, x):
-- 
2.43.0


From 6580504a6223aa8d5c1fde589b8f8586080638c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:38 +0000
Subject: [PATCH 13/48] fix: division of a Func by a number

---
 maxlike/func/func_base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/maxlike/func/func_base.py b/maxlike/func/func_base.py
index cb21558..f5d78d2 100644
--- a/maxlike/func/func_base.py
+++ b/maxlike/func/func_base.py
@@ -199,6 +199,8 @@ class Func(with_metaclass(FuncMeta, object)):
     def __div__(self, a):
         return Affine(self, 1.0 / a, 0)
 
+    __truediv__ = __div__
+
     def __matmul__(self, other):
         return Compose(self, other)
 
-- 
2.43.0


From 618c127b0cf94a89b23d7155c229ad0d15652bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:42 +0000
Subject: [PATCH 14/48] fix: Linear derivatives have the shape of the
 parameters

---
 maxlike/func/func.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/maxlike/func/func.py b/maxlike/func/func.py
index 0848e93..a1e7556 100644
--- a/maxlike/func/func.py
+++ b/maxlike/func/func.py
@@ -17,13 +17,10 @@ class Linear(Func):
                     for w, p in zip(params, self.weights)))
 
     def grad(self, params, i):
-        return grad_tensor(self.weights[i] * np.ones((1, ) *
-                           np.asarray(params[i]).ndim), params, i, True)
+        return grad_tensor(self.weights[i] * np.ones_like(params[i]),
+                           params, i, None)
 
-    def hess(self, params, i, j):
-        return hess_tensor(np.zeros((1, ) *
-            (np.asarray(params[j]).ndim + np.asarray(params[i]).ndim)),
-            params, i, j, True, True)
+    hess = null_func
 
 
 class Quadratic(Func):  # TODO : expand this class to allow more generic stuff
-- 
2.43.0


From 6780bb9adb3f5d142a09b63dfa700ffe104d47ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:46 +0000
Subject: [PATCH 15/48] fix: hessian of constraints and regularizations over
 unordered parameters

---
 maxlike/maxlike_base.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/maxlike/maxlike_base.py b/maxlike/maxlike_base.py
index 75c53bc..edebab5 100644
--- a/maxlike/maxlike_base.py
+++ b/maxlike/maxlike_base.py
@@ -364,15 +364,21 @@ class MaxLike(with_metaclass(abc.ABCMeta)):
             hess_g = g.hess(args)
             for i, idx in enumerate(param_map):
                 hess_c[k][idx] += grad_g[i].sum().values
-                for j in range(i + 1):
-                    hess[idx][param_map[j]] += gamma * hess_g[i][j]
+                for j, jdx in enumerate(param_map):
+                    if idx >= jdx:
+                        hess[idx][jdx] += gamma * (
+                            hess_g[i][j] if i >= j else
+                            hess_g[j][i].transpose())
 
         for param_map, h in self.reg:
             args = [params[k] for k in param_map]
             hess_h = h.hess(args)
             for i, idx in enumerate(param_map):
-                for j in range(i + 1):
-                    hess[idx][param_map[j]] -= hess_h[i][j]
+                for j, jdx in enumerate(param_map):
+                    if idx >= jdx:
+                        hess[idx][jdx] -= (
+                            hess_h[i][j] if i >= j else
+                            hess_h[j][i].transpose())
 
         # --------------------------------------------------------------------
         # 3rd phase: Reshape and flatten
-- 
2.43.0


From 6c1b3fad9b8c4b52f7b94210a3a620e1cebbacbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:50 +0000
Subject: [PATCH 16/48] fix: flat derivatives with parameters that the model
 does not use

---
 maxlike/maxlike_base.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/maxlike/maxlike_base.py b/maxlike/maxlike_base.py
index edebab5..451d72e 100644
--- a/maxlike/maxlike_base.py
+++ b/maxlike/maxlike_base.py
@@ -337,7 +337,7 @@ class MaxLike(with_metaclass(abc.ABCMeta)):
             for i, idx in enumerate(param_map):
                 grad[idx] -= grad_h[i]
 
-        grad = [d.values[~p.mask] for d, p in zip(grad, params)] + grad[n:]
+        grad = [np.broadcast_to(d.toarray(), p.shape)[~p.mask] for d, p in zip(grad, params)] + grad[n:]
         grad = np.concatenate(grad)
 
         return grad
@@ -394,7 +394,8 @@ class MaxLike(with_metaclass(abc.ABCMeta)):
         #
         # then hess[i][j].shape = shape[j] x shape[i]
 
-        hess = [[hess[i][j].values[
+        hess = [[np.broadcast_to(hess[i][j].toarray(),
+                                 p_i.shape + params[j].shape)[
                      np.multiply.outer(~p_i.mask, ~params[j].mask)].
                      reshape((p_i.count(), params[j].count()))
                  for j in range(i + 1)]
-- 
2.43.0


From 9411cd860cb089e4ae12ee837de1b0c46e7d71e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:55 +0000
Subject: [PATCH 17/48] fix: fitting from integer initial values

---
 maxlike/maxlike_base.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/maxlike/maxlike_base.py b/maxlike/maxlike_base.py
index 451d72e..2c15162 100644
--- a/maxlike/maxlike_base.py
+++ b/maxlike/maxlike_base.py
@@ -353,7 +353,7 @@ class MaxLike(with_metaclass(abc.ABCMeta)):
 
         # Add blocks corresponding to constraint variables:
         # Hess_lambda_params = grad_g
-        hess_c = [[np.zeros_like(p) for p in params] for _ in range(c_len)]
+        hess_c = [[np.zeros(p.shape) for p in params] for _ in range(c_len)]
 
         # --------------------------------------------------------------------
         # 2nd phase: Add constraints / regularization to grad and hess
@@ -477,7 +477,8 @@ class MaxLike(with_metaclass(abc.ABCMeta)):
         # --------------------------------------------------------------------
 
         params = self.params
-        flat_params = np.concatenate([p.compressed() for p in params])
+        flat_params = np.concatenate([p.compressed() for p in params]).\
+            astype(np.float64)
     
         if method == "newton":
 
-- 
2.43.0


From 8d3e3ffb76ea3b7350073acc85c8f6354f97f3aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:00 +0000
Subject: [PATCH 18/48] fix: std_error without constraints

---
 maxlike/maxlike_base.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/maxlike/maxlike_base.py b/maxlike/maxlike_base.py
index 2c15162..f8c3c3b 100644
--- a/maxlike/maxlike_base.py
+++ b/maxlike/maxlike_base.py
@@ -310,12 +310,10 @@ class MaxLike(with_metaclass(abc.ABCMeta)):
         """
         Standard Deviation Array.
         """
-        cut = len(self.constraint)
-        if cut == 0:
-            cut = None
+        cut = self.flat_hess_.shape[0] - len(self.constraint)
         return [p.as_masked() for p in
             self._reshape_array(np.sqrt(np.diag(-np.linalg.inv(
-            self.flat_hess_))[:-cut]))
+            self.flat_hess_))[:cut]))
         ]
 
     def flat_grad(self, params, *args, **kwargs):
-- 
2.43.0


From 17e9f52e58ff33b9adc8cff0a19490d314c00ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:04 +0000
Subject: [PATCH 19/48] fix: verbose broyden fit

---
 maxlike/maxlike_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maxlike/maxlike_base.py b/maxlike/maxlike_base.py
index f8c3c3b..3a1f484 100644
--- a/maxlike/maxlike_base.py
+++ b/maxlike/maxlike_base.py
@@ -542,7 +542,7 @@ class MaxLike(with_metaclass(abc.ABCMeta)):
                     g = self.g(params)
 
                     if verbose > 0:
-                        print(k + 1, new_g)
+                        print(k + 1, g)
 
                     if abs(prev_g / g - 1) < tol:
                         self.params = params
-- 
2.43.0


From 632acb235fb5ca87585ec3db824eaa302006db78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:26 +0000
Subject: [PATCH 20/48] fix: CollapseMatrix ignored the given conditions

---
 maxlike/func/matrix.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/maxlike/func/matrix.py b/maxlike/func/matrix.py
index 253365a..0ebde77 100644
--- a/maxlike/func/matrix.py
+++ b/maxlike/func/matrix.py
@@ -14,11 +14,12 @@ class CollapseMatrix(Func):
         sgn(A*x + B*y + C) == s
         """
         if conditions is None:
-            self.conditions = [
+            conditions = [
                 (1, -1, 0, 1),
                 (1, -1, 0, 0),
                 (1, -1, 0, -1),
             ]
+        self.conditions = conditions
 
     def __call__(self, params):
         """
-- 
2.43.0


From b1ce077b73fdecb7b5e10f2e5d7d3ae2daafe234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:35 +0000
Subject: [PATCH 21/48] fix: copulas with integer marginals

---
 maxlike/func/copula.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/maxlike/func/copula.py b/maxlike/func/copula.py
index cb67977..752b048 100644
--- a/maxlike/func/copula.py
+++ b/maxlike/func/copula.py
@@ -34,8 +34,8 @@ def copulaWrap(C):
     def wrap(obj, params, *args, **kwargs):
         x = np.asarray(params[0]).cumsum(-1)
         y = np.asarray(params[1]).cumsum(-1)
-        x /= x[..., -1][..., None]
-        y /= y[..., -1][..., None]
+        x = x / x[..., -1][..., None]
+        y = y / y[..., -1][..., None]
         # exclude last element
         F_xy = C(obj, x[..., None], y[..., None, :], *args, **kwargs)
         F_xy = np.insert(F_xy, 0, 0, -1)
-- 
2.43.0


From 99b6a7a753f708af171ecfa3a762082ae25f94f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:40 +0000
Subject: [PATCH 22/48] fix: root finders raise their errors and always stop

---
 maxlike/skellam.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/maxlike/skellam.py b/maxlike/skellam.py
index 83fc31c..acc6a15 100644
--- a/maxlike/skellam.py
+++ b/maxlike/skellam.py
@@ -72,7 +72,7 @@ def poisson_cdf_root(target, n=2, tol=1e-8):
     """
     # if not (isinstance(target, float) and target < 1 or target > 0):
     if target >= 1 or target <= 0:
-        return ValueError
+        raise ValueError
     phi = ndtri(target)
     min_a = 1e-3
     a = max(((phi * phi + 4 * n + 2) ** .5 - phi) ** 2 / 4, min_a)
@@ -98,7 +98,8 @@ def poisson_cdf_root(target, n=2, tol=1e-8):
                 scale_factor *= .5
         count += 1
         if count > max_steps:
-            return ConvergenceError
+            raise ConvergenceError(
+                "Error: no root found after %d steps" % max_steps)
     return a
 
 
@@ -156,7 +157,8 @@ def skellam_cdf_root(target1, target2, n=0, tol=1e-8):
                 new_e = np.linalg.norm(new_s - target)
         count += 1
         if count > max_steps:
-            raise ConvergenceError
+            raise ConvergenceError(
+                "Error: no root found after %d steps" % max_steps)
     return a, b
 
 
@@ -203,6 +205,8 @@ def conditional_skellam_cdf_root(b, target, tol=1e-8):
                 frame = Poi_a[:, None] * Poi_b[None, :]
                 new_s = frame[xy < 0].sum() + 0.5 * frame[xy == 0].sum()
                 new_e = abs(target - new_s)
+        count += 1
         if count > max_steps:
-            raise ConvergenceError
+            raise ConvergenceError(
+                "Error: no root found after %d steps" % max_steps)
     return a
-- 
2.43.0


From 34051b4a7438129a945a935c8bfa1c4dcad14b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:17 +0000
Subject: [PATCH 23/48] fix: GenericTensor.sum over the first feature only

---
 maxlike/tensor/tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maxlike/tensor/tensor.py b/maxlike/tensor/tensor.py
index 51fd110..1da9e18 100644
--- a/maxlike/tensor/tensor.py
+++ b/maxlike/tensor/tensor.py
@@ -208,7 +208,7 @@ class GenericTensor(BaseTensor):
 
     def sum(self, sum_val=True, sum_dim=True):
         # considers the impact of broadcasting
-        if not sum_val and not sum_dim:
+        if sum_val is False and not sum_dim:
             return self
 
         if sum_val is False:
-- 
2.43.0


From aa87d4e2234c6c0e1a3b5b47de60908252c0fd05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:43 +0000
Subject: [PATCH 24/48] fix: mixed second derivative of a skewed MarkovMatrix

---
 maxlike/func/matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maxlike/func/matrix.py b/maxlike/func/matrix.py
index 0ebde77..72195de 100644
--- a/maxlike/func/matrix.py
+++ b/maxlike/func/matrix.py
@@ -138,7 +138,7 @@ class MarkovMatrix(Func):
 
                     H12[..., x_, y] += s1 * f1 * hm12 + f1 * dm2
                     H12[..., x, y_] += s2 * f2 * hm12 + f2 * dm1
-                    H12[..., x, y]  -= f1 * dm1 + f2 * dm2 + (s1 * f1 + s2 * f2) * hm12
+                    H12[..., x, y]  -= f1 * dm2 + f2 * dm1 + (s1 * f1 + s2 * f2) * hm12
 
                     H22[..., x_, y] += s1 * f1 * hm22
                     H22[..., x, y_] += s2 * f2 * hm22 + 2 * f2 * dm2
-- 
2.43.0


From 54335ec1856e5c898dbeec1e2b0a00a25a035fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:02 +0000
Subject: [PATCH 25/48] fix: null derivatives and calling conventions of
 combined functions

---
 maxlike/func/func_base.py | 6 +++---
 maxlike/func/func_op.py   | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/maxlike/func/func_base.py b/maxlike/func/func_base.py
index f5d78d2..4662d6f 100644
--- a/maxlike/func/func_base.py
+++ b/maxlike/func/func_base.py
@@ -268,7 +268,7 @@ class Compose(Func):
                 g_val = [g(params) for g in obj.g_list]
                 h_val = sum((obj.f.grad(g_val, k).dot_right(
                              g.hess(params, i, j).drop_dim())
-                             for k, g in enumerate(obj.g_list)))
+                             for k, g in enumerate(obj.g_list)), Tensor(0))
                 return h_val
 
             def eval(obj, params):
@@ -280,12 +280,12 @@ class Compose(Func):
                              for k, d_k in enumerate(g_grad)))
                         for i in range(n)]
                 hess = [[sum((f_grad[k].dot_right(h_k[i][j].drop_dim())
-                              for k, h_k in enumerate(g_hess)))
+                              for k, h_k in enumerate(g_hess)), Tensor(0))
                          for j in range(i + 1)] for i in range(n)]
                 return val, grad, hess
             
             self.hess = MethodType(matrix_wrap(hess), self)
-            self.eval = MethodType(eval, self)
+            self.eval = MethodType(eval_wrap(eval), self)
 
     def __call__(self, params):
         g_val = [g(params) for g in self.g_list]
diff --git a/maxlike/func/func_op.py b/maxlike/func/func_op.py
index bdcf0ee..64fed71 100644
--- a/maxlike/func/func_op.py
+++ b/maxlike/func/func_op.py
@@ -1,5 +1,5 @@
 from ..tensor import Tensor
-from .func_base import Func, Affine, null_grad, null_hess, isnull
+from .func_base import Func, Affine, null_grad, null_hess, isnull, eval_wrap
 from six.moves import reduce
 from types import MethodType
 
@@ -57,7 +57,7 @@ class FuncWrap(Func):
                 return val, grad, hess
 
             self.hess = null_hess(self)
-            self.eval = MethodType(eval, self)
+            self.eval = MethodType(eval_wrap(eval), self)
 
     def _expand(self, x):
         return x.expand(self.feat_map, self.n_feat).flip(self.feat_flip).\
-- 
2.43.0


From 9188eff8b1a473c1c50375dd214bbe1a48cff2e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:07 +0000
Subject: [PATCH 26/48] fix: product of a null Tensor is null on both sides

---
 maxlike/tensor/tensor.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/maxlike/tensor/tensor.py b/maxlike/tensor/tensor.py
index 1da9e18..280d3c8 100644
--- a/maxlike/tensor/tensor.py
+++ b/maxlike/tensor/tensor.py
@@ -848,6 +848,8 @@ class Tensor(BaseTensor):
                 raise InvalidOperation
 
         if self.values.ndim == 0:
+            if self.values == 0 and op_type in [TensorOp.MUL, TensorOp.DIV]:
+                return Tensor(0)
             if self.values != 0 and op_type in [
                     TensorOp.ADD, TensorOp.SUB, TensorOp.RSUB]:
                 return Tensor(
-- 
2.43.0


From 2b0d9f5b8b5940dca303864fc6a6e878930bd060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:34 +0000
Subject: [PATCH 27/48] fix: chain rule with null derivatives

---
 maxlike/func/func_base.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/maxlike/func/func_base.py b/maxlike/func/func_base.py
index 4662d6f..fc5bd14 100644
--- a/maxlike/func/func_base.py
+++ b/maxlike/func/func_base.py
@@ -140,6 +140,14 @@ def eval_wrap(e):
     return wrapper
 
 
+def chain(f_grad, g_grad):
+    # first order term of the chain rule, where null derivatives have no axes
+    for d in (f_grad, g_grad):
+        if isinstance(d, Tensor) and d.values.ndim == 0 and d.values == 0:
+            return Tensor(0)
+    return f_grad.dot_left(g_grad)
+
+
 def not_implemented_foo(obj, *args, **kwargs):
     raise NotImplementedError
 
@@ -276,7 +284,7 @@ class Compose(Func):
                 g_val, g_grad, g_hess = zip(*(g.eval(params) for g in obj.g_list))
                 g_grad = [[d.drop_dim() for d in grad] for grad in g_grad]
                 val, f_grad, f_hess = obj.f.eval(g_val)
-                grad = [sum((f_grad[k].dot_left(d_k[i])
+                grad = [sum((chain(f_grad[k], d_k[i])
                              for k, d_k in enumerate(g_grad)))
                         for i in range(n)]
                 hess = [[sum((f_grad[k].dot_right(h_k[i][j].drop_dim())
@@ -293,8 +301,8 @@ class Compose(Func):
 
     def grad(self, params, i):
         g_val = [g(params) for g in self.g_list]
-        return sum([self.f.grad(g_val, k).\
-                    dot_left(g.grad(params, i).drop_dim())
+        return sum([chain(self.f.grad(g_val, k),
+                          g.grad(params, i).drop_dim())
                     for k, g in enumerate(self.g_list)])
 
     def hess(self, params, i, j):
@@ -318,8 +326,8 @@ class Compose(Func):
                     f_hess = self.f.hess(g_val, l, k).transpose()
                 else:
                     f_hess = self.f.hess(g_val, k, l)
-                h_val += f_hess.dot_left(dg_i[k]).transpose().\
-                                dot_left(dg_j[l]).transpose()
+                h_val += chain(chain(f_hess, dg_i[k]).transpose(),
+                               dg_j[l]).transpose()
             f_grad = self.f.grad(g_val, k)
             g_hess = g_k.hess(params, i, j).drop_dim()
             h_val += f_grad.dot_right(g_hess)
@@ -335,7 +343,7 @@ class Compose(Func):
         for i in range(len(params)):
 
             grad.append(sum((
-                f_grad[k].dot_left(d_k[i])
+                chain(f_grad[k], d_k[i])
                 for k, d_k in enumerate(g_grad))))
 
             hess_line = []
@@ -345,8 +353,8 @@ class Compose(Func):
                     hess_ij += f_grad[k].dot_right(h_k[i][j].drop_dim())
                     for l, d_l in enumerate(g_grad):
                         h = f_hess[l][k].transpose() if l > k else f_hess[k][l]
-                        hess_ij += h.dot_left(d_k[i]).transpose().\
-                                     dot_left(d_l[j]).transpose()
+                        hess_ij += chain(chain(h, d_k[i]).transpose(),
+                                         d_l[j]).transpose()
                 hess_line.append(hess_ij)
             hess.append(hess_line)
         return val, grad, hess
-- 
2.43.0


From f2f2fef644fceeb03a1d9bb6e5201ebf931f7480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:56 +0000
Subject: [PATCH 28/48] fix: Collapse of derivatives that are broadcast over
 the summed axes

---
 maxlike/func/func_op.py | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/maxlike/func/func_op.py b/maxlike/func/func_op.py
index 64fed71..4442bdd 100644
--- a/maxlike/func/func_op.py
+++ b/maxlike/func/func_op.py
@@ -1,3 +1,4 @@
+import numpy as np
 from ..tensor import Tensor
 from .func_base import Func, Affine, null_grad, null_hess, isnull, eval_wrap
 from six.moves import reduce
@@ -104,27 +105,29 @@ class Collapse(Func):
         self.sum_val = sum_val
         self.sum_dim = sum_dim
 
+    def _sum(self, x):
+        return x.sum(sum_val=self.sum_val, sum_dim=self.sum_dim)
+
+    def _sum_diff(self, x, val):
+        # the derivatives may be broadcast over the axes of the value
+        if isinstance(x, Tensor) and x.values.ndim == 0 and x.values == 0:
+            return x
+        return self._sum(x * Tensor(np.ones(val.values.shape), dim=val.dim))
+
     def __call__(self, params):
-        return self.foo(params).\
-            sum(sum_val=self.sum_val,
-                sum_dim=self.sum_dim)
+        return self._sum(self.foo(params))
 
     def grad(self, params, i):
-        return self.foo.grad(params, i).\
-            sum(sum_val=self.sum_val,
-                sum_dim=self.sum_dim)
+        return self._sum_diff(self.foo.grad(params, i), self.foo(params))
 
     def hess(self, params, i, j):
-        return self.foo.hess(params, i, j).\
-            sum(sum_val=self.sum_val,
-                sum_dim=self.sum_dim)
+        return self._sum_diff(self.foo.hess(params, i, j), self.foo(params))
 
     def eval(self, params):
         val, grad, hess = self.foo.eval(params)
-        return val.sum(self.sum_val, self.sum_dim), \
-               [d.sum(self.sum_val, self.sum_dim) for d in grad], \
-               [[h.sum(self.sum_val, self.sum_dim)
-                 for h in h_line] for h_line in hess]
+        return self._sum(val), \
+               [self._sum_diff(d, val) for d in grad], \
+               [[self._sum_diff(h, val) for h in h_line] for h_line in hess]
 
 
 class Sum(Func):
-- 
2.43.0


From c39b107f3242318e3e4132ba6730a263043eb200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:18 +0000
Subject: [PATCH 29/48] fix: flip and product of null Tensors

---
 maxlike/tensor/tensor.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/maxlike/tensor/tensor.py b/maxlike/tensor/tensor.py
index 280d3c8..9da1dbf 100644
--- a/maxlike/tensor/tensor.py
+++ b/maxlike/tensor/tensor.py
@@ -380,6 +380,10 @@ class GenericTensor(BaseTensor):
                     new_elements.append(other)
 
             elif op_type in [TensorOp.MUL, TensorOp.DIV]:
+                values = np.asarray(other)
+                if op_type == TensorOp.MUL and \
+                        values.ndim == 0 and values == 0:
+                    return Tensor(0)
                 for k, el in enumerate(new_elements):
                     new_elements[k] = el.bin_op(other, op_type)
             else:
@@ -580,6 +584,9 @@ class Tensor(BaseTensor):
         if where is None or where == []:
             return self
 
+        if self.values.ndim == 0 and self.values == 0:
+            return self
+
         if isinstance(where, int):
             where = [where]
 
-- 
2.43.0


From 2ddaf93fbfe88cb0ca69a5fbffb28f8058a18ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:25 +0000
Subject: [PATCH 30/48] fix: second order chain rule with null derivatives

---
 maxlike/func/func_base.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/maxlike/func/func_base.py b/maxlike/func/func_base.py
index fc5bd14..053b2d1 100644
--- a/maxlike/func/func_base.py
+++ b/maxlike/func/func_base.py
@@ -140,12 +140,12 @@ def eval_wrap(e):
     return wrapper
 
 
-def chain(f_grad, g_grad):
-    # first order term of the chain rule, where null derivatives have no axes
-    for d in (f_grad, g_grad):
+def chain(f_diff, g_diff, dot="dot_left"):
+    # term of the chain rule, where null derivatives have no axes
+    for d in (f_diff, g_diff):
         if isinstance(d, Tensor) and d.values.ndim == 0 and d.values == 0:
             return Tensor(0)
-    return f_grad.dot_left(g_grad)
+    return getattr(f_diff, dot)(g_diff)
 
 
 def not_implemented_foo(obj, *args, **kwargs):
@@ -274,8 +274,9 @@ class Compose(Func):
         elif isnull(f.hess):
             def hess(obj, params, i, j):
                 g_val = [g(params) for g in obj.g_list]
-                h_val = sum((obj.f.grad(g_val, k).dot_right(
-                             g.hess(params, i, j).drop_dim())
+                h_val = sum((chain(obj.f.grad(g_val, k),
+                                   g.hess(params, i, j).drop_dim(),
+                                   "dot_right")
                              for k, g in enumerate(obj.g_list)), Tensor(0))
                 return h_val
 
@@ -287,7 +288,7 @@ class Compose(Func):
                 grad = [sum((chain(f_grad[k], d_k[i])
                              for k, d_k in enumerate(g_grad)))
                         for i in range(n)]
-                hess = [[sum((f_grad[k].dot_right(h_k[i][j].drop_dim())
+                hess = [[sum((chain(f_grad[k], h_k[i][j].drop_dim(), "dot_right")
                               for k, h_k in enumerate(g_hess)), Tensor(0))
                          for j in range(i + 1)] for i in range(n)]
                 return val, grad, hess
@@ -330,7 +331,7 @@ class Compose(Func):
                                dg_j[l]).transpose()
             f_grad = self.f.grad(g_val, k)
             g_hess = g_k.hess(params, i, j).drop_dim()
-            h_val += f_grad.dot_right(g_hess)
+            h_val += chain(f_grad, g_hess, "dot_right")
         return h_val
 
 
@@ -350,7 +351,8 @@ class Compose(Func):
             for j in range(i + 1):
                 hess_ij = Tensor(0)
                 for k, (d_k, h_k) in enumerate(zip(g_grad, g_hess)):
-                    hess_ij += f_grad[k].dot_right(h_k[i][j].drop_dim())
+                    hess_ij += chain(f_grad[k], h_k[i][j].drop_dim(),
+                                     "dot_right")
                     for l, d_l in enumerate(g_grad):
                         h = f_hess[l][k].transpose() if l > k else f_hess[k][l]
                         hess_ij += chain(chain(h, d_k[i]).transpose(),
-- 
2.43.0


From dd9da33e5ad8180e4795e54345b2115d060b1669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:47 +0000
Subject: [PATCH 31/48] fix: Finite likelihood derivatives that are broadcast
 over the value axes

---
 maxlike/maxlike.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/maxlike/maxlike.py b/maxlike/maxlike.py
index 3e79b2d..12f9bea 100644
--- a/maxlike/maxlike.py
+++ b/maxlike/maxlike.py
@@ -1,5 +1,6 @@
 import numpy as np
 from .maxlike_base import MaxLike
+from .tensor import Tensor
 from scipy.special import gammaln
 
 
@@ -124,6 +125,11 @@ class Finite(MaxLike):
         z = y.sum(False)
         return (self.N * (np.log(y) - np.log(z))).sum()
 
+    @staticmethod
+    def _ones(y):
+        # the derivatives may be broadcast over the value axes of y
+        return Tensor(np.ones(y.values.shape), dim=y.dim)
+
     def grad_like(self, params, y, der):
         """
         Derivative of
@@ -133,20 +139,22 @@ class Finite(MaxLike):
         """
         grad = []
         z = y.sum(False)
+        ones = self._ones(y)
         for d in der:
-            dz = d.sum(False)
+            dz = (d * ones).sum(False)
             grad.append((self.N * (d / y - dz / z)).sum())
         return grad
 
     def hess_like(self, params, y, der, hess):
         H = []
         z = y.sum(False)
-        dz = [d.sum(False) for d in der]
+        ones = self._ones(y)
+        dz = [(d * ones).sum(False) for d in der]
         for i in range(len(params)):
             hess_line = []
             for j in range(i + 1):
                 h = hess[i][j]
-                hz = h.sum(False)
+                hz = (h * ones).sum(False)
                 H1 = (h - der[i] * der[j].transpose() / y) / y
                 H2 = (hz - dz[i] * dz[j].transpose() / z) / z
                 hess_line.append((self.N * (H1 - H2)).sum())
-- 
2.43.0


From 8a66b3deb47e94ca37159654c47206f900936858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:27 +0000
Subject: [PATCH 32/48] fix: Linear returns a Tensor like every other function

---
 maxlike/func/func.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/maxlike/func/func.py b/maxlike/func/func.py
index a1e7556..057bcb9 100644
--- a/maxlike/func/func.py
+++ b/maxlike/func/func.py
@@ -13,8 +13,8 @@ class Linear(Func):
         self.weights = weight_list
 
     def __call__(self, params):
-        return sum(((w * np.asarray(p)).sum()
-                    for w, p in zip(params, self.weights)))
+        return Tensor(sum(((w * np.asarray(p)).sum()
+                           for w, p in zip(params, self.weights))))
 
     def grad(self, params, i):
         return grad_tensor(self.weights[i] * np.ones_like(params[i]),
-- 
2.43.0


From e8dbf3fe9e71a44ae59ccedf9e60f203c94a48a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:23 +0000
Subject: [PATCH 33/48] fix: a Broyden fit whose first evaluation fails is
 marked not converged

---
 maxlike/maxlike_base.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/maxlike/maxlike_base.py b/maxlike/maxlike_base.py
index 3a1f484..62956c4 100644
--- a/maxlike/maxlike_base.py
+++ b/maxlike/maxlike_base.py
@@ -513,12 +513,12 @@ class MaxLike(with_metaclass(abc.ABCMeta)):
 
         elif method == "broyden":
 
-            g = self.g(params)
+            try:
+                g = self.g(params)
 
-            if verbose > 0:
-                print(0, g)
+                if verbose > 0:
+                    print(0, g)
 
-            try:
                 y, der, hess = self.model.eval(params)
                 grad = self.flat_grad(params, y, der)
 
-- 
2.43.0


From eb40d569567da95b18cfd46e9814e63b88ec07d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:22 +0000
Subject: [PATCH 34/48] fix: gradient of CollapseMatrix with three or more
 feature axes

---
 maxlike/func/matrix.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/maxlike/func/matrix.py b/maxlike/func/matrix.py
index 72195de..a9aa0bb 100644
--- a/maxlike/func/matrix.py
+++ b/maxlike/func/matrix.py
@@ -48,8 +48,7 @@ class CollapseMatrix(Func):
             val.append(ones * filt)
         x_dim = ones.ndim
         val = np.stack(val, -1)
-        val = val.swapaxes(0, x_dim - 2)
-        val = val.swapaxes(1, x_dim - 1)
+        val = np.moveaxis(val, (x_dim - 2, x_dim - 1), (0, 1))
         x_map = array('b', range(x_dim - 2))
         x_map.append(-1)
         x_map.append(-1)
-- 
2.43.0


From 6137af03702e49ef8dedb9405fb9b69f26253be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:24 +0000
Subject: [PATCH 35/48] fix: Poisson vectors with large rates or sizes

---
 maxlike/skellam.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/maxlike/skellam.py b/maxlike/skellam.py
index acc6a15..bd60348 100644
--- a/maxlike/skellam.py
+++ b/maxlike/skellam.py
@@ -1,13 +1,14 @@
 import numpy as np
 from math import exp
-from scipy.special import ndtri, factorial
+from scipy.special import ndtri, gammaln, xlogy
 from .maxlike_base import ConvergenceError
 
 
 def poisson_vector(a, size=10):
-    curve = np.vectorize(lambda u: a**u / factorial(u))(np.arange(size))
-    dcurve = np.append(-1, curve[:-1] - curve[1:])
-    return exp(-a) * np.array([curve, dcurve])
+    rng = np.arange(size)
+    curve = np.exp(xlogy(rng, a) - gammaln(rng + 1) - a)
+    dcurve = np.append(-exp(-a), curve[:-1] - curve[1:])
+    return np.array([curve, dcurve])
 
 
 def skellam_frame(a, b, size=10):
-- 
2.43.0


From 8155dc25015d300709c1098a0e74a9d1fa99e210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:24 +0000
Subject: [PATCH 36/48] fix: frames of the Skellam distribution that cut off
 more than the tolerance

---
 maxlike/skellam.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/maxlike/skellam.py b/maxlike/skellam.py
index bd60348..44a88e7 100644
--- a/maxlike/skellam.py
+++ b/maxlike/skellam.py
@@ -1,6 +1,6 @@
 import numpy as np
 from math import exp
-from scipy.special import ndtri, gammaln, xlogy
+from scipy.special import ndtri, gammaln, pdtrc, xlogy
 from .maxlike_base import ConvergenceError
 
 
@@ -38,9 +38,19 @@ def tol2size(tol=1e-8, *args):
     return int(-ndtri(tol) * sum(map(lambda x: x ** .5, args)) + sum(args)) + 1
 
 
+def frame_size(tol, *args):
+    """
+    Size for which the tails left out of the frame are below tol
+    """
+    size = max(tol2size(tol, *args), 2)
+    while sum(pdtrc(size - 2, x) for x in args) > tol:
+        size += 1
+    return size
+
+
 def skellam_cdf(a, b, n=0, tol=1e-8, inverse=False):
     # assert isinstance(n, int)
-    size = tol2size(tol, a, b)
+    size = frame_size(tol, a, b)
     rng = np.arange(size)
     xy = rng[None, :] - rng[:, None]
     xy = (xy >= n) if inverse else (xy <= n)
@@ -49,7 +59,7 @@ def skellam_cdf(a, b, n=0, tol=1e-8, inverse=False):
 
 def skellam_cdf_pair(a, b, n=0, tol=1e-8):
     assert isinstance(n, int)
-    size = tol2size(tol, a, b)
+    size = frame_size(tol, a, b)
     rng = np.arange(size)
     xy = rng[None, :] - rng[:, None]
     s = skellam_frame(a, b, size)
@@ -177,11 +187,11 @@ def conditional_skellam_cdf_root(b, target, tol=1e-8):
     count = 0
     floor = 1e-6
     max_steps = 50
-    size = tol2size(.5 * tol, b)
+    size = frame_size(.5 * tol, b)
     Poi_b, dPoi_b = poisson_vector(b, size)
     rng_b = np.arange(size)
     while e > abs(tol):
-        size = tol2size(tol, a, b)
+        size = frame_size(tol, a, b)
         rng_a = np.arange(size)
         xy = rng_b[None, :] - rng_a[:, None]
         Poi_a, dPoi_a = poisson_vector(a, size)
-- 
2.43.0


From 9eebf9b0af18300914a6aa1ea3ff08d6ad96317d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:24 +0000
Subject: [PATCH 37/48] fix: runaway steps of the root finders

---
 maxlike/skellam.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/maxlike/skellam.py b/maxlike/skellam.py
index 44a88e7..c75f4ed 100644
--- a/maxlike/skellam.py
+++ b/maxlike/skellam.py
@@ -104,8 +104,9 @@ def poisson_cdf_root(target, n=2, tol=1e-8):
                 break
             else:
                 new_a = a + scale_factor * step
-                new_f, _ = poisson_cdf(new_a, n)
-                new_e = abs(target - new_f)
+                if new_a > 0:
+                    new_f, _ = poisson_cdf(new_a, n)
+                    new_e = abs(target - new_f)
                 scale_factor *= .5
         count += 1
         if count > max_steps:
@@ -153,6 +154,8 @@ def skellam_cdf_root(target1, target2, n=0, tol=1e-8):
         s, ds = skellam[:, 0], skellam[:, [1, 2]]
         e = np.linalg.norm(target - s)
         step = np.linalg.solve(ds, target - s)
+        # nearly singular systems must not send the rates to infinity
+        step *= min(1, (a + b + 1) / np.abs(step).max())
         scale_factor = 1
         new_ab = np.maximum((a, b) + scale_factor * step, floor)
         new_s = s
-- 
2.43.0


From c03efc58ceda65808f1be6a2ce3b498a75d4571b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:29 +0000
Subject: [PATCH 38/48] fix: Gaussian copula with correlations above 0.925

---
 maxlike/func/copula.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/maxlike/func/copula.py b/maxlike/func/copula.py
index 752b048..8ae6b4b 100644
--- a/maxlike/func/copula.py
+++ b/maxlike/func/copula.py
@@ -22,7 +22,7 @@ def vectorize(n_in, n_out):
 @no_divwarn
 @vectorize(3, 1)
 def gauss_bivar(x, y, rho):
-    return mvnun((-999, -999), (x, y), (0, 0), ((1, rho), (rho, 1)))[0]
+    return mvnun((-38, -38), (x, y), (0, 0), ((1, rho), (rho, 1)))[0]
 
 
 def copulaWrap(C):
@@ -81,8 +81,8 @@ class Gaussian(Copula):
 
     def __call__(self, x, y):
         return gauss_bivar(
-            np.clip(ndtri(x), -999, 999),
-            np.clip(ndtri(y), -999, 999),
+            np.clip(ndtri(x), -38, 38),
+            np.clip(ndtri(y), -38, 38),
             self.rho)
 
 
-- 
2.43.0


From 072e32649fcef9bb7ddcca9103bf211e4e6a70c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:21 +0000
Subject: [PATCH 39/48] fix: Broyden carries the constraint multipliers between
 iterations

---
 maxlike/maxlike_base.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/maxlike/maxlike_base.py b/maxlike/maxlike_base.py
index 62956c4..066ade3 100644
--- a/maxlike/maxlike_base.py
+++ b/maxlike/maxlike_base.py
@@ -513,6 +513,9 @@ class MaxLike(with_metaclass(abc.ABCMeta)):
 
         elif method == "broyden":
 
+            constraint = self.constraint
+            multipliers = np.zeros(len(constraint))
+
             try:
                 g = self.g(params)
 
@@ -538,6 +541,7 @@ class MaxLike(with_metaclass(abc.ABCMeta)):
 
                     step = -np.dot(J, grad)
                     flat_params += step[:i1]
+                    multipliers += step[i1:]
                     params = self._reshape_params(flat_params)
                     g = self.g(params)
 
@@ -551,6 +555,9 @@ class MaxLike(with_metaclass(abc.ABCMeta)):
                         return True
                     
                     y, der = self.model(params), self.model.grad(params)
+                    self.constraint = [(param_map, gamma, h) for
+                                       (param_map, _, h), gamma in
+                                       zip(constraint, multipliers)]
                     grad = self.flat_grad(params, y, der)
                     dgrad = grad - grad_prev
                     J += np.outer(step - np.dot(J, dgrad), dgrad) / \
@@ -559,6 +566,9 @@ class MaxLike(with_metaclass(abc.ABCMeta)):
             except Exception as err:
                 self.converged = False
                 raise err
+
+            finally:
+                self.constraint = constraint
         
         else:
             raise ValueError("Invalid Method")
-- 
2.43.0


From d72d509d3a0222f89d08f68935be492bf8825312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:32 +0000
Subject: [PATCH 40/48] fix: the axis mappings of a tensor cannot be written

---
 maxlike/tensor/tensor.py | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/maxlike/tensor/tensor.py b/maxlike/tensor/tensor.py
index 9da1dbf..2cd2f7b 100644
--- a/maxlike/tensor/tensor.py
+++ b/maxlike/tensor/tensor.py
@@ -452,19 +452,15 @@ class Tensor(BaseTensor):
             x_dim, y_dim, self.values.ndim - x_dim - y_dim - dim, dim)
 
         if x_map:
-            if not isinstance(x_map, array):
+            if not isinstance(x_map, (array, tuple)):
                 raise ValueError("Invalid mapping")
-        else:
-            x_map = array('b')
 
         if y_map:
-            if not isinstance(y_map, array):
+            if not isinstance(y_map, (array, tuple)):
                 raise ValueError("Invalid mapping")
-        else:
-            y_map = array('b')
 
-        object.__setattr__(self, 'x_map', x_map)
-        object.__setattr__(self, 'y_map', y_map)
+        object.__setattr__(self, 'x_map', tuple(x_map or ()))
+        object.__setattr__(self, 'y_map', tuple(y_map or ()))
 
     def toarray(self):
         arr = self.values
@@ -599,9 +595,7 @@ class Tensor(BaseTensor):
 
         else:
             # assert max(where) < self.n
-            mappings = array('b')
-            mappings += self.x_map
-            mappings += self.y_map
+            mappings = self.x_map + self.y_map
             for k in where:
                 if k in mappings:
                     raise NotImplementedError
-- 
2.43.0


From 6278ddb1f097ac4232f2e1fb4402dbeb9603a248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:07 +0000
Subject: [PATCH 41/48] fix: the mask of a parameter cannot be written

---
 maxlike/maxlike_base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/maxlike/maxlike_base.py b/maxlike/maxlike_base.py
index 066ade3..8596f56 100644
--- a/maxlike/maxlike_base.py
+++ b/maxlike/maxlike_base.py
@@ -24,10 +24,11 @@ class Param(object):
             assert mask.shape == values.shape
 
         object.__setattr__(self, 'values', np.asarray(values))
-        object.__setattr__(self, 'mask',   np.asarray(mask))
+        object.__setattr__(self, 'mask',   np.array(mask))
         object.__setattr__(self, 'shape',  self.values.shape)
         object.__setattr__(self, 'hash',   getrandbits(128))
         self.values.flags["WRITEABLE"] = False
+        self.mask.flags["WRITEABLE"] = False
 
     def compressed(self):
         return self.values[~self.mask]
-- 
2.43.0


From e9b95b7439a3499bfe1151926a0b8ec12f1e538d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:18 +0000
Subject: [PATCH 42/48] fix: zero-inflated likelihood without zeros (s=0) was
 nan

---
 maxlike/maxlike.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/maxlike/maxlike.py b/maxlike/maxlike.py
index 12f9bea..5e61a1c 100644
--- a/maxlike/maxlike.py
+++ b/maxlike/maxlike.py
@@ -1,7 +1,7 @@
 import numpy as np
 from .maxlike_base import MaxLike
 from .tensor import Tensor
-from scipy.special import gammaln
+from scipy.special import gammaln, xlogy
 
 
 class Poisson(MaxLike):
@@ -44,7 +44,7 @@ class ZeroInflatedPoisson(MaxLike):
         self.Z = None
 
     def like(self, params, y):
-        return (self.X * y + self.Z * np.log(self.s) -
+        return (self.X * y + Tensor(xlogy(np.asarray(self.Z), self.s)) -
                 self.N * np.log(np.exp(np.exp(y)) + self.s - 1) - 
                 gammaln(self.X + 1)).sum()
 
-- 
2.43.0


From 7dc14a9f2df0fa24d2667f6931609a492c904db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:26 +0000
Subject: [PATCH 43/48] fix: parameters and fixed patterns given as lists

add_param documents lists for both, but a list raised AttributeError inside
Param, which add_param took for the first call on the model: it dropped all
parameters and recursed without end.
---
 maxlike/maxlike_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maxlike/maxlike_base.py b/maxlike/maxlike_base.py
index 8596f56..b057fb1 100644
--- a/maxlike/maxlike_base.py
+++ b/maxlike/maxlike_base.py
@@ -21,7 +21,7 @@ class Param(object):
         if mask is None or mask is False:
             mask = np.zeros_like(values, dtype=np.bool)
         else:
-            assert mask.shape == values.shape
+            assert np.shape(mask) == np.shape(values)
 
         object.__setattr__(self, 'values', np.asarray(values))
         object.__setattr__(self, 'mask',   np.array(mask))
-- 
2.43.0


From ea7564901f69f65cf8fcb1b01e9539af2407d4d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:33 +0000
Subject: [PATCH 44/48] fix: a contraction over a block of another number of
 axes is refused

dot_right asserts that the contracted block has as many axes as the other
operand has features; dot_left (and dot through it) did not, and returned a
tensor of the wrong layout with meaningless values.
---
 maxlike/tensor/tensor.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/maxlike/tensor/tensor.py b/maxlike/tensor/tensor.py
index 2cd2f7b..4aab625 100644
--- a/maxlike/tensor/tensor.py
+++ b/maxlike/tensor/tensor.py
@@ -696,6 +696,9 @@ class Tensor(BaseTensor):
         if (self.x_dim != other.n) & (self.y_dim == other.n):
             return self.transpose().dot_left(other)
 
+        assert other.y_dim == 0
+        assert self.x_dim == other.n
+
         if isinstance(other, GenericTensor):
             return GenericTensor(
                 other.x_dim, self.y_dim, self.n, dim,
-- 
2.43.0


From b5dc96d62164aedefc8198a9e6ba2340274ec316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:16 +0000
Subject: [PATCH 45/48] fix: parameter masks given as 0 and 1 were inverted
 bitwise

---
 maxlike/maxlike_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maxlike/maxlike_base.py b/maxlike/maxlike_base.py
index b057fb1..b43f318 100644
--- a/maxlike/maxlike_base.py
+++ b/maxlike/maxlike_base.py
@@ -24,7 +24,7 @@ class Param(object):
             assert np.shape(mask) == np.shape(values)
 
         object.__setattr__(self, 'values', np.asarray(values))
-        object.__setattr__(self, 'mask',   np.array(mask))
+        object.__setattr__(self, 'mask',   np.array(mask, dtype=np.bool))
         object.__setattr__(self, 'shape',  self.values.shape)
         object.__setattr__(self, 'hash',   getrandbits(128))
         self.values.flags["WRITEABLE"] = False
-- 
2.43.0


From 56c4a21e348923d26e578dd632b8a6549afff3f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:37 +0000
Subject: [PATCH 46/48] fix: copulas with large parameters overflowed or lost
 all digits

---
 maxlike/func/copula.py | 36 ++++++++++++++++++++++++++----------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/maxlike/func/copula.py b/maxlike/func/copula.py
index 8ae6b4b..4409065 100644
--- a/maxlike/func/copula.py
+++ b/maxlike/func/copula.py
@@ -19,6 +19,14 @@ def vectorize(n_in, n_out):
     return wrap
 
 
+def ratio(x, y):
+    """
+    x / y, where equal values (zeros and infinities included) have ratio one
+    """
+    with np.errstate(invalid='ignore'):
+        return np.where(x == y, 1., x / y)
+
+
 @no_divwarn
 @vectorize(3, 1)
 def gauss_bivar(x, y, rho):
@@ -103,8 +111,11 @@ class Clayton(Copula):
 
     @no_divwarn
     def __call__(self, x, y):
-        return np.power(
-            np.power(x, -self.a) + np.power(y, -self.a) - 1,
+        # in terms of ratios, whose powers are bounded
+        m = np.minimum(x, y)
+        r = ratio(m, np.maximum(x, y))
+        return m * np.power(
+            1 + np.power(r, self.a) - np.power(m, self.a),
             -1 / self.a)
 
 
@@ -127,10 +138,10 @@ class Gumbel(Copula):
 
     @no_divwarn
     def __call__(self, x, y):
-        return np.exp(-np.power(
-            np.power(-np.log(x), self.a) +
-            np.power(-np.log(y), self.a),
-            1 / self.a))
+        # in terms of ratios, whose powers are bounded
+        t = np.maximum(-np.log(x), -np.log(y))
+        r = ratio(np.minimum(-np.log(x), -np.log(y)), t)
+        return np.exp(-t * np.power(1 + np.power(r, self.a), 1 / self.a))
 
 
 class Frank(Copula):
@@ -144,10 +155,15 @@ class Frank(Copula):
         self.a = rho
 
     def __call__(self, x, y):
-        return (-1 / self.a) * np.log(1 +
-            (np.exp(-self.a * x) - 1) *
-            (np.exp(-self.a * y) - 1) /
-            (np.exp(-self.a) - 1))
+        # deviation from the bound of perfect dependence, whose terms are
+        # bounded: C_a(u, v) = u - C_-a(u, 1 - v)
+        a = abs(self.a)
+        v = y if self.a > 0 else 1 - y
+        m = np.minimum(x, v)
+        M = np.maximum(x, v)
+        dev = np.log1p(-np.exp(-a * (M - m)) * np.expm1(-a * m) *
+                       np.expm1(-a * (1 - M)) / np.expm1(-a)) / a
+        return m - dev if self.a > 0 else x - m + dev
 
 
 class AkiMikhailHaq(Copula):
-- 
2.43.0


From e73a821c5f93ce25c8729242539422f7d257ba64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:37 +0000
Subject: [PATCH 47/48] fix: Poisson and negative binomial vectors were nan or
 infinite from count 171 on

---
 maxlike/func/func_proba.py | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/maxlike/func/func_proba.py b/maxlike/func/func_proba.py
index f6f74f5..730f9f7 100644
--- a/maxlike/func/func_proba.py
+++ b/maxlike/func/func_proba.py
@@ -1,10 +1,18 @@
 import numpy as np
-from scipy.special import factorial, gammaln
+from scipy.special import gammaln
 from ..tensor import Tensor
 from .func import Exp
 from .func_base import Func, grad_tensor, hess_tensor
 
 
+def powers(a, size):
+    """
+    a ^ x / x! for x < size, along the last axis of a
+    """
+    x = np.arange(size)
+    return np.cumprod(np.where(x > 0, a / np.maximum(x, 1), 1.), -1)
+
+
 class Poisson(Func):
     """
     Non normalized
@@ -16,29 +24,25 @@ class Poisson(Func):
 
     def __call__(self, params):
         a = np.asarray(params[0])[..., None]
-        x = np.arange(self.size)
-        vec = (a ** x) / factorial(x)
+        vec = powers(a, self.size)
         return Tensor(vec, dim=1)
 
     def grad(self, params, i):
         a = np.asarray(params[0])[..., None]
-        x = np.arange(self.size)
-        vec = ((a ** x) / factorial(x))
+        vec = powers(a, self.size)
         vec = np.insert(vec[..., :-1], 0, 0, -1)
         return grad_tensor(vec, params, i, True, dim=1)
 
     def hess(self, params, i, j):
         a = np.asarray(params[0])[..., None]
-        x = np.arange(self.size)
-        vec = ((a ** x) / factorial(x))
+        vec = powers(a, self.size)
         vec = np.insert(vec[..., :-1], 0, 0, -1)
         vec = np.insert(vec[..., :-1], 0, 0, -1)
         return hess_tensor(vec, params, i, j, True, True, dim=1)
 
     def eval(self, params):
         a = np.asarray(params[0])[..., None]
-        x = np.arange(self.size)
-        vec = (a ** x) / factorial(x)
+        vec = powers(a, self.size)
         val = Tensor(vec, dim=1)
         vec = np.insert(vec[..., :-1], 0, 0, -1)
         grad = grad_tensor(vec, params, 0, True, dim=1)
@@ -64,7 +68,7 @@ class LogNegativeBinomial(Func):
         vec += gammaln(self.r + x)
         vec -= gammaln(self.r)
         vec += self.r * np.log(self.r)
-        vec -= np.log(factorial(x))
+        vec -= gammaln(x + 1)
         vec -= (x + self.r) * np.log(self.r + m)
         return Tensor(vec, dim=1)
 
@@ -95,7 +99,7 @@ class LogNegativeBinomial(Func):
         vec += gammaln(self.r + x)
         vec -= gammaln(self.r)
         vec += self.r * np.log(self.r)
-        vec -= np.log(factorial(x))
+        vec -= gammaln(x + 1)
         vec -= (x + self.r) * np.log(self.r + m)
         val = Tensor(vec, dim=1)
         grad = grad_tensor(
-- 
2.43.0


From 1cb7a0d7bf87027364bb08c7105e2306990306f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:37 +0000
Subject: [PATCH 48/48] fix: zero-inflated Poisson and logistic log-likelihoods
 overflowed far from zero

---
 maxlike/maxlike.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/maxlike/maxlike.py b/maxlike/maxlike.py
index 5e61a1c..21d9f3f 100644
--- a/maxlike/maxlike.py
+++ b/maxlike/maxlike.py
@@ -44,8 +44,9 @@ class ZeroInflatedPoisson(MaxLike):
         self.Z = None
 
     def like(self, params, y):
+        exp_y = np.exp(y)
         return (self.X * y + Tensor(xlogy(np.asarray(self.Z), self.s)) -
-                self.N * np.log(np.exp(np.exp(y)) + self.s - 1) - 
+                self.N * (exp_y + np.log(1 + (self.s - 1) * np.exp(-exp_y))) -
                 gammaln(self.X + 1)).sum()
 
     def grad_like(self, params, y, der):
@@ -78,7 +79,9 @@ class Logistic(MaxLike):
         like = sum_k x_k * ln p + (1 - x_k) * ln (1-p)
              = - ((N - X) * y + N * ln(1 + e^-y))
         """
-        return -(self.N * np.log(1 + np.exp(-y)) +
+        # ln(1 + e^-y) = max(-y, 0) + ln(1 + e^-|y|)
+        return -(self.N * (np.maximum(-y, 0) +
+                           np.log(1 + np.exp(np.minimum(y, -y)))) +
                  (self.N - self.X) * y).sum()
 
     def grad_like(self, params, y, der):
-- 
2.43.0

