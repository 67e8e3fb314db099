From ba086d21caf554706e7e29c7d46dc26c1f845e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:38 +0000
Subject: [PATCH 01/57] fix: align the elements of a GenericTensor of mixed
 ranks

---
 maxlike/tensor/tensor.py | 33 +++++++++++++++++++--------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/maxlike/tensor/tensor.py b/maxlike/tensor/tensor.py
index c373ea9..728c6c4 100644
--- a/maxlike/tensor/tensor.py
+++ b/maxlike/tensor/tensor.py
@@ -224,11 +224,11 @@ class GenericTensor(BaseTensor):
         if elements is None:
             elements = ()
 
-        object.__setattr__(self, 'elements', tuple(elements))
+        object.__setattr__(self, 'elements', tuple(
+            el._align(x_dim, y_dim, n, dim) for el in elements))
 
     def toarray(self):
-        return sum([el.toarray() if isinstance(el, Tensor) else el
-                    for el in self.elements])
+        return sum([el.toarray() for el in self.elements])
 
     def sum(self, sum_val=True, sum_dim=True):
         # considers the impact of broadcasting
@@ -357,20 +357,16 @@ class GenericTensor(BaseTensor):
         # Scalar
         # Array
         #  -> are converted to tensor
-        if isinstance(other, (int, float, np.ndarray)):
-            x_dim = self.x_dim
-            y_dim = self.y_dim
-            n = self.n
-            dim = self.dim
+        if np.isscalar(other) or isinstance(other, np.ndarray):
+            other = Tensor(other)
 
-        else:
-            x_dim = max(self.x_dim, other.x_dim)
-            y_dim = max(self.y_dim, other.y_dim)
-            n = max(self.n, other.n)
-            dim = max(self.dim, other.dim)
+        x_dim = max(self.x_dim, other.x_dim)
+        y_dim = max(self.y_dim, other.y_dim)
+        n = max(self.n, other.n)
+        dim = max(self.dim, other.dim)
 
         # Tensor
-        if isinstance(other, (int, float, np.ndarray, Tensor)):
+        if isinstance(other, Tensor):
             new_elements = list(self.elements)
             if op_type in [TensorOp.ADD, TensorOp.SUB]:
                 for k, el in enumerate(new_elements):
@@ -962,6 +958,15 @@ class Tensor(BaseTensor):
             raise InvalidOperation('Invalid ufunc:', name)
         return self.bin_op(inputs[0], op_type)
 
+    def _align(self, x_dim, y_dim, n, dim):
+        """
+        Adds the spaces that are missing in the Tensor
+        """
+        return Tensor(
+            self.values[self.__reshape_idx(x_dim, y_dim, n, dim)],
+            x_dim=x_dim, y_dim=y_dim, dim=dim,
+            x_map=self.x_map, y_map=self.y_map)
+
     def __reshape_idx(self, x_dim, y_dim, n, dim):
         idx = []
         if self.x_dim > 0:
-- 
2.43.0


From dd987703cc36dbf00b92b1e17c6ae041bef13831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:42 +0000
Subject: [PATCH 02/57] fix: partial sums of a GenericTensor

---
 maxlike/tensor/tensor.py | 37 +++++++++++++------------------------
 1 file changed, 13 insertions(+), 24 deletions(-)

diff --git a/maxlike/tensor/tensor.py b/maxlike/tensor/tensor.py
index 728c6c4..26bb734 100644
--- a/maxlike/tensor/tensor.py
+++ b/maxlike/tensor/tensor.py
@@ -253,33 +253,22 @@ class GenericTensor(BaseTensor):
         if sum_dim is True:
             idx += (self.n + np.arange(self.dim)).tolist()
 
-        shape_n = np.ones(len(idx), dtype=np.int)
-        el_sizes = np.empty(len(self.elements), dtype=np.int)
-        for k, el in enumerate(self.elements):
-            p = el.x_dim + el.y_dim
-            shape = np.array(el.values.shape)[(p + np.array(idx)).tolist()]
-            shape_n = np.maximum(shape_n, shape)
-            el_sizes[k] = np.array(shape).prod()
+        p = self.x_dim + self.y_dim
+        idx = [p + k for k in idx]
+        shapes = [[el.values.shape[k] for k in idx] for el in self.elements]
+        sizes = [np.prod(shape, dtype=int) for shape in shapes]
+        size = np.prod([max(s) for s in zip(*shapes)], dtype=int)
+
+        new_elements = [el.sum(sum_val, sum_dim) * (size / el_size)
+                        for el, el_size in zip(self.elements, sizes)]
 
-        size = shape_n.prod()
+        n = self.n - (len(idx) - (self.dim if sum_dim is True else 0))
+        dim = 0 if sum_dim is True else self.dim
+        res = GenericTensor(self.x_dim, self.y_dim, n, dim, new_elements)
 
         if sum_val is True:
-            values = 0
-            for el, el_size in zip(self.elements, el_sizes):
-                idx = []
-                idx += [None] * (self.x_dim - el.x_dim) + [slice(None)] * el.x_dim
-                idx += [None] * (self.y_dim - el.y_dim) + [slice(None)] * el.y_dim
-                idx += [...]
-                values = values + el.sum(sum_val, sum_dim).\
-                    values[tuple(idx)] * (size / el_size)
-
-            dim = 0 if sum_dim is True else self.dim
-            return Tensor(values, x_dim=self.x_dim, y_dim=self.y_dim, dim=dim)
-
-        # else:
-        new_elements = [el.sum(False, sum_dim) * (size / el_size)
-                        for el, el_size in zip(self.elements, el_sizes)]
-        return GenericTensor(self.x_dim, self.y_dim, self.n, 0, new_elements)
+            return Tensor(res.toarray(), self.x_dim, self.y_dim, dim)
+        return res
 
     def expand(self, where, newsize, dim=False):
         new_n = self.n if dim else newsize
-- 
2.43.0


From d3b6ea8daf10bab8245473e1af8495c9eaaf3eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:46 +0000
Subject: [PATCH 03/57] fix: 0-d Tensor plus a mapped Tensor

---
 maxlike/tensor/tensor.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/maxlike/tensor/tensor.py b/maxlike/tensor/tensor.py
index 26bb734..53891f9 100644
--- a/maxlike/tensor/tensor.py
+++ b/maxlike/tensor/tensor.py
@@ -819,6 +819,14 @@ class Tensor(BaseTensor):
                 raise InvalidOperation
 
         if self.values.ndim == 0:
+            if op_type in [TensorOp.ADD, TensorOp.SUB, TensorOp.RSUB]:
+                # adding a (non zero) constant fills the mapped dimensions
+                if self.values == 0:
+                    return -other if op_type == TensorOp.SUB else other
+                return Tensor(
+                    op_type.value(self.values, other.toarray()),
+                    other.x_dim, other.y_dim, other.dim)
+
             return Tensor(
                 op_type.value(self.values, other.values),
                 other.x_dim, other.y_dim, other.dim, other.x_map, other.y_map)
-- 
2.43.0


From 1491ff4cdb8d22d15202358b793b96590f3644fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:50 +0000
Subject: [PATCH 04/57] fix: transpose of Tensors with several x and y
 dimensions

---
 maxlike/tensor/tensor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/maxlike/tensor/tensor.py b/maxlike/tensor/tensor.py
index 53891f9..ffb833f 100644
--- a/maxlike/tensor/tensor.py
+++ b/maxlike/tensor/tensor.py
@@ -602,8 +602,8 @@ class Tensor(BaseTensor):
     def transpose(self):
         val = self.values
         if (self.x_dim > 0) & (self.y_dim > 0):
-            for k in range(0, self.x_dim):
-                val = np.moveaxis(val, self.x_dim, k)
+            for k in range(0, self.y_dim):
+                val = np.moveaxis(val, self.x_dim + k, k)
         return Tensor(val, self.y_dim,  self.x_dim, self.dim,
                       self.y_map, self.x_map)
 
-- 
2.43.0


From 71db32d55a6f52d5f0247900f8d5809600c5ac84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:54 +0000
Subject: [PATCH 05/57] fix: numpy ufuncs with a Tensor as first operand

---
 maxlike/tensor/tensor.py | 35 ++++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/maxlike/tensor/tensor.py b/maxlike/tensor/tensor.py
index ffb833f..e100884 100644
--- a/maxlike/tensor/tensor.py
+++ b/maxlike/tensor/tensor.py
@@ -411,16 +411,18 @@ class GenericTensor(BaseTensor):
     def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
         name = ufunc.__name__
         try:
-            op_type = {
-                'add': TensorOp.ADD,
-                'subtract': TensorOp.RSUB,
-                'multiply': TensorOp.MUL,
-                'true_divide': TensorOp.RDIV,
-                'divide': TensorOp.RDIV,
+            op_type, rop_type = {
+                'add': (TensorOp.ADD, TensorOp.ADD),
+                'subtract': (TensorOp.SUB, TensorOp.RSUB),
+                'multiply': (TensorOp.MUL, TensorOp.MUL),
+                'true_divide': (TensorOp.DIV, TensorOp.RDIV),
+                'divide': (TensorOp.DIV, TensorOp.RDIV),
             }[name]
         except:
             raise InvalidOperation('Invalid ufunc:', name)
-        return self.bin_op(inputs[0], op_type)
+        if inputs[0] is self:
+            return self.bin_op(inputs[1], op_type)
+        return self.bin_op(inputs[0], rop_type)
 
 
 class Tensor(BaseTensor):
@@ -940,20 +942,23 @@ class Tensor(BaseTensor):
                 raise InvalidOperation(
                     "{} only supported for Tensor".format(name) +
                     "for x_dim == y_dim == 0")
-            return Tensor(ufunc(self.values, inputs[1]),
+            other = inputs[1] if inputs[0] is self else inputs[0]
+            return Tensor(ufunc(self.values, other),
                           x_dim=0, y_dim=0, dim=self.dim)
 
         try:
-            op_type = {
-                'add': TensorOp.ADD,
-                'subtract': TensorOp.RSUB,
-                'multiply': TensorOp.MUL,
-                'true_divide': TensorOp.RDIV,
-                'divide': TensorOp.RDIV,
+            op_type, rop_type = {
+                'add': (TensorOp.ADD, TensorOp.ADD),
+                'subtract': (TensorOp.SUB, TensorOp.RSUB),
+                'multiply': (TensorOp.MUL, TensorOp.MUL),
+                'true_divide': (TensorOp.DIV, TensorOp.RDIV),
+                'divide': (TensorOp.DIV, TensorOp.RDIV),
             }[name]
         except:
             raise InvalidOperation('Invalid ufunc:', name)
-        return self.bin_op(inputs[0], op_type)
+        if inputs[0] is self:
+            return self.bin_op(inputs[1], op_type)
+        return self.bin_op(inputs[0], rop_type)
 
     def _align(self, x_dim, y_dim, n, dim):
         """
-- 
2.43.0


From 39063d212c928357aa7a0f077d6f3c3564bae549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:13 +0000
Subject: [PATCH 06/57] fix: partial sums of a Tensor keep the mappings and
 extra dimensions that are not summed

---
 maxlike/tensor/tensor.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/maxlike/tensor/tensor.py b/maxlike/tensor/tensor.py
index e100884..9a82b4c 100644
--- a/maxlike/tensor/tensor.py
+++ b/maxlike/tensor/tensor.py
@@ -458,6 +458,13 @@ class Tensor(BaseTensor):
         else:
             y_map = array('b')
 
+        # a mapping without any mapped dimension is an empty mapping
+        if x_map and max(x_map) < 0:
+            x_map = array('b')
+
+        if y_map and max(y_map) < 0:
+            y_map = array('b')
+
         object.__setattr__(self, 'x_map', x_map)
         object.__setattr__(self, 'y_map', y_map)
 
@@ -473,9 +480,11 @@ class Tensor(BaseTensor):
         p = self.x_dim + self.y_dim
 
         if sum_val is False:
+            dim = self.dim
             if sum_dim is True:
                 val = val.sum(tuple(p + self.n + np.arange(self.dim)))
-            return Tensor(val, self.x_dim, self.y_dim, 0,
+                dim = 0
+            return Tensor(val, self.x_dim, self.y_dim, dim,
                           self.x_map, self.y_map)
 
         if sum_val is True:
@@ -518,7 +527,13 @@ class Tensor(BaseTensor):
             idx[self.x_dim + f] = slice(None)
             val = val * np.eye(val.shape[k])[tuple(idx)]
 
-        return Tensor(val, self.x_dim, self.y_dim, dim)
+        # mappings to the dimensions that were not summed
+        left = [f for f in range(self.n) if f not in sum_val]
+        x_map, y_map = (
+            array('b', [left.index(f) if f in left else -1 for f in mapping])
+            for mapping in (self.x_map, self.y_map))
+
+        return Tensor(val, self.x_dim, self.y_dim, dim, x_map, y_map)
 
     def expand(self, where, newsize, dim=False):
         """
-- 
2.43.0


From 51969ef52db6d46a4dcb1792e3de2ca5500605bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:17 +0000
Subject: [PATCH 07/57] fix: products of mapped Tensors

---
 maxlike/tensor/tensor.py | 67 ++++++++++++++++++++++++++--------------
 1 file changed, 43 insertions(+), 24 deletions(-)

diff --git a/maxlike/tensor/tensor.py b/maxlike/tensor/tensor.py
index 9a82b4c..6f7a83b 100644
--- a/maxlike/tensor/tensor.py
+++ b/maxlike/tensor/tensor.py
@@ -36,6 +36,24 @@ def compose_mappings(map1, map2):
     ])
 
 
+def merge_mappings(map1, map2):
+    """
+    Mappings of the first map, completed with the ones of the second
+    """
+    if not map1 or not map2:
+        return map1 or map2
+    return array('b', [g if f < 0 else f for f, g in zip(map1, map2)])
+
+
+def unmatched_mapping(map1, map2):
+    """
+    Mappings of the first map for the dimensions not mapped by the second
+    """
+    if not map2:
+        return map1
+    return array('b', [-1 if g >= 0 else f for f, g in zip(map1, map2)])
+
+
 def arr_swapaxes(arr, q, p, mapping):
     for k, f in enumerate(mapping):
         if f >= 0:
@@ -47,9 +65,14 @@ def arr_take_diag(arr, q, p, mapping):
     for k, f in enumerate(mapping):
         if f < 0:
             continue
+        if arr.shape[q + k] == 1:
+            continue
+        if arr.shape[p + f] == 1:
+            arr = arr.swapaxes(q + k, p + f)
+            continue
         arr = np.diagonal(arr, 0, q + k, p + f)  # np.diagonal
-        arr = arr.swapaxes(-1, p + f - 1)
-        arr = np.expand_dims(arr, k)
+        arr = np.moveaxis(arr, -1, p + f - 1)
+        arr = np.expand_dims(arr, q + k)
     return arr
 
 
@@ -70,12 +93,12 @@ def arr_expand_diag(arr, q, p, mapping):
 def arr_expand_cross_diag(arr, p, map1, map2):
     idx = np.ones(arr.ndim, dtype=np.int32)
     for i, j in zip(map1, map2):
-        if i == j:
+        if i == j or i < 0 or j < 0:
             continue
         n = arr.shape[p + i]
         idx[p + i] = n
         idx[p + j] = n
-        arr = arr * np.broadcast_to(np.eye(n), idx)
+        arr = arr * np.eye(n).reshape(idx)
         idx[p + i] = 1
         idx[p + j] = 1
     return arr
@@ -901,34 +924,30 @@ class Tensor(BaseTensor):
         # --------------------------------------------------------------------
         # Multiplication and Division
         # --------------------------------------------------------------------
-        p = self.x_dim + self.y_dim
+        p = x_dim + y_dim
+        l_values = l_values[l_idx]
+        r_values = r_values[r_idx]
 
-        if self.x_map:
-            x_map = self.x_map
+        x_map = merge_mappings(self.x_map, other.x_map)
+        if self.x_dim and other.x_dim:
             l_values = arr_expand_cross_diag(
                 l_values, p, self.x_map, other.x_map)
-            if not other.x_map and other.x_dim:
-                r_values = arr_take_diag(r_values, 0, other.x_dim + other.y_dim,
-                                         self.x_map)
-        else:
-            x_map = other.x_map
-            if x_map and self.x_dim:
-                l_values = arr_take_diag(l_values, 0, p, other.x_map)
+            l_values = arr_take_diag(
+                l_values, 0, p, unmatched_mapping(other.x_map, self.x_map))
+            r_values = arr_take_diag(
+                r_values, 0, p, unmatched_mapping(self.x_map, other.x_map))
 
-        if self.y_map:
-            y_map = self.y_map
+        y_map = merge_mappings(self.y_map, other.y_map)
+        if self.y_dim and other.y_dim:
             l_values = arr_expand_cross_diag(
                 l_values, p, self.y_map, other.y_map)
-            if not other.y_map and other.y_dim:
-                r_values = arr_take_diag(r_values, other.x_dim, other.x_dim + other.y_dim,
-                                         self.y_map)
-        else:
-            y_map = other.y_map
-            if self.y_dim:
-                l_values = arr_take_diag(l_values, self.x_dim, p, other.y_map)
+            l_values = arr_take_diag(
+                l_values, x_dim, p, unmatched_mapping(other.y_map, self.y_map))
+            r_values = arr_take_diag(
+                r_values, x_dim, p, unmatched_mapping(self.y_map, other.y_map))
 
         return Tensor(
-            op_type.value(l_values[l_idx], r_values[r_idx]),
+            op_type.value(l_values, r_values),
             x_dim=x_dim, y_dim=y_dim, dim=dim,
             x_map=x_map, y_map=y_map)
 
-- 
2.43.0


From 49c61e4306e06848ca5c5202053e1f2a674e2728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:21 +0000
Subject: [PATCH 08/57] fix: dot_left of a Tensor with unmapped dimensions

---
 maxlike/tensor/tensor.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/maxlike/tensor/tensor.py b/maxlike/tensor/tensor.py
index 6f7a83b..0e137f9 100644
--- a/maxlike/tensor/tensor.py
+++ b/maxlike/tensor/tensor.py
@@ -727,6 +727,10 @@ class Tensor(BaseTensor):
         val = arr_swapaxes(val, other.x_dim, other.x_dim + p, self.x_map)
         if self.x_map:
             x_map = compose_mappings(self.x_map, other.x_map)
+            # mappings to the summed dimensions of self that aren't mapped
+            val = arr_swapaxes(val, 0, other.x_dim, array('b', [
+                f if f >= 0 and self.x_map[f] < 0 else -1
+                for f in other.x_map]))
         else:
             x_map = array('b')
             val = arr_swapaxes(val, 0, other.x_dim, other.x_map)
-- 
2.43.0


From 0c10d2b7c91323698ae77480edc7f25310520982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:25 +0000
Subject: [PATCH 09/57] fix: dot_right of an unmapped Tensor with a mapped one

---
 maxlike/tensor/tensor.py | 42 +++++++++++++++++++++++-----------------
 1 file changed, 24 insertions(+), 18 deletions(-)

diff --git a/maxlike/tensor/tensor.py b/maxlike/tensor/tensor.py
index 0e137f9..083e8b3 100644
--- a/maxlike/tensor/tensor.py
+++ b/maxlike/tensor/tensor.py
@@ -104,20 +104,22 @@ def arr_expand_cross_diag(arr, p, map1, map2):
     return arr
 
 
-def arr_swapaxes_cross(arr, p, map1, map2):
+def arr_swapaxes_cross(arr, q, p, map1, map2):
     idx = np.ones(arr.ndim, dtype=np.int32)
     for k, f in enumerate(map2):
-        for l, g in enumerate(map1):
-            if g == f:
-                n = arr.shape[k]
-                idx[l] = n
-                idx[p + k] = n
-                arr = arr * np.broadcast_to(np.eye(n), idx)
-                idx[l] = 1
-                idx[p + k] = 1
-                break
+        if f < 0:
+            continue
+        if f in map1:
+            # the values were already moved to the dimension map1 maps from
+            l = map1.index(f)
+            n = arr.shape[l]
+            idx[l] = n
+            idx[q + k] = n
+            arr = arr * np.eye(n).reshape(idx)
+            idx[l] = 1
+            idx[q + k] = 1
         else:
-            arr = arr.swapaxes(p + k, p + f)
+            arr = arr.swapaxes(q + k, p + f)
     return arr
 
 
@@ -780,13 +782,17 @@ class Tensor(BaseTensor):
         val = arr_swapaxes(val, 0, self.x_dim, self.x_map)
         val = other.values[tuple(l_idx)] * val[tuple(r_idx)]
         val = arr_swapaxes(val, p, p + self.x_dim, self.x_map)
-        if not self.x_map:
-            val = arr_swapaxes(val, 0, p, other.x_map)
-            val = arr_swapaxes_cross(val, other.x_dim,                      # NOT COVERED
-                                     other.x_map, other.y_map)
-
-        x_map = compose_mappings(self.x_map, other.x_map)
-        y_map = compose_mappings(self.x_map, other.y_map)
+        # mappings to the summed dimensions of self that aren't mapped
+        self_map = self.x_map or array('b', [-1] * self.x_dim)
+        x_free, y_free = (
+            array('b', [f if f >= 0 and self_map[f] < 0 else -1
+                        for f in mapping])
+            for mapping in (other.x_map, other.y_map))
+        val = arr_swapaxes(val, 0, p, x_free)
+        val = arr_swapaxes_cross(val, other.x_dim, p, x_free, y_free)
+
+        x_map = compose_mappings(self_map, other.x_map)
+        y_map = compose_mappings(self_map, other.y_map)
         val = val.sum(tuple(p + np.arange(other.n)))
         return Tensor(val,
                       x_dim=other.x_dim, y_dim=other.y_dim, dim=dim,
-- 
2.43.0


From 9a27b7dab6f93e274c8f1d1617930e15a0dee9ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:29 +0000
Subject: [PATCH 10/57] fix: dot product with a null Tensor is null

---
 maxlike/tensor/tensor.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/maxlike/tensor/tensor.py b/maxlike/tensor/tensor.py
index 083e8b3..5e8dd3c 100644
--- a/maxlike/tensor/tensor.py
+++ b/maxlike/tensor/tensor.py
@@ -705,6 +705,10 @@ class Tensor(BaseTensor):
         - N Y M E
           *
         """
+        if isinstance(other, Tensor):
+            if other.values.ndim == 0 and other.values == 0:
+                return Tensor(0)
+
         dim = max(self.dim, other.dim)
 
         if (self.x_dim != other.n) & (self.y_dim == other.n):
@@ -754,11 +758,9 @@ class Tensor(BaseTensor):
             *
         """
 
-        try:
+        if isinstance(other, Tensor):
             if other.values.ndim == 0 and other.values == 0:
-                return 0
-        except:
-            pass
+                return Tensor(0)
 
         dim = max(self.dim, other.dim)
 
-- 
2.43.0


From 9fcf06863847dc1f8a1aac455763e1d1d6ae9fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:53 +0000
Subject: [PATCH 11/57] fix: sum of the first value dimension of a
 GenericTensor

---
 maxlike/tensor/tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maxlike/tensor/tensor.py b/maxlike/tensor/tensor.py
index 5e8dd3c..aa0e21b 100644
--- a/maxlike/tensor/tensor.py
+++ b/maxlike/tensor/tensor.py
@@ -257,7 +257,7 @@ class GenericTensor(BaseTensor):
 
     def sum(self, sum_val=True, sum_dim=True):
         # considers the impact of broadcasting
-        if not sum_val and not sum_dim:
+        if sum_val is False and not sum_dim:
             return self
 
         if sum_val is False:
-- 
2.43.0


From 1ac9bdee387167fdaa557ad6ef33a6e1d56179bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:36 +0000
Subject: [PATCH 12/57] fix: weight and evaluate the offset of a Sum

---
 maxlike/func/func_op.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/maxlike/func/func_op.py b/maxlike/func/func_op.py
index 3414967..f95a620 100644
--- a/maxlike/func/func_op.py
+++ b/maxlike/func/func_op.py
@@ -177,10 +177,10 @@ class Sum(Func):
             dim_map = [dim_map]
 
         if isinstance(foo, Affine):
-            self.b += foo.b
+            self.b += weight * foo.b
             self.add(foo.base, param_map, feat_map, dim_map, weight * foo.a)
         elif isinstance(foo, Sum):
-            self.b += foo.b
+            self.b += weight * foo.b
             for w, atom in foo.atoms:
                 self.add(
                     atom.foo,
@@ -217,7 +217,7 @@ class Sum(Func):
                 grad[i] += w * atom_grad[i]
                 for j in range(i + 1):
                     hess[i][j] += w * atom_hess[i][j]
-        return val, grad, hess
+        return val + self.b, grad, hess
 
 
 class Product(Func):
-- 
2.43.0


From 1480a807ad3d82165a93402695c187b7b3e14887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:40 +0000
Subject: [PATCH 13/57] fix: null gradients and hessians return lists

---
 maxlike/func/func_base.py | 19 ++++++++++++-------
 maxlike/func/func_op.py   |  6 +++---
 2 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/maxlike/func/func_base.py b/maxlike/func/func_base.py
index d32dcd1..710fafa 100644
--- a/maxlike/func/func_base.py
+++ b/maxlike/func/func_base.py
@@ -9,9 +9,6 @@ from ..tensor import Tensor
 def null_func(obj, *args, **kwargs):
     return Tensor(0)
 
-def null_method(obj):
-    return MethodType(null_func, obj)
-
 def isnull(foo):
     return getattr(foo, 'null', False)
 
@@ -122,6 +119,14 @@ def matrix_wrap(h):
     return wrapper
 
 
+def null_grad(obj):
+    return MethodType(vector_wrap(null_func), obj)
+
+
+def null_hess(obj):
+    return MethodType(matrix_wrap(null_func), obj)
+
+
 def eval_wrap(e):
     @wraps(e)
     def wrapper(obj, params=None):
@@ -208,10 +213,10 @@ class Affine(Func):
     def __init__(self, base, a=1, b=0):
 
         if isnull(base.grad):
-            self.grad = null_method(self)
+            self.grad = null_grad(self)
 
         if isnull(base.hess):
-            self.hess = null_method(self)
+            self.hess = null_hess(self)
 
         if isinstance(base, Affine):
             self.base = base.base
@@ -255,8 +260,8 @@ class Compose(Func):
         self.f = f
 
         if isnull(f.grad):
-            self.grad = null_method(self)
-            self.hess = null_method(self)
+            self.grad = null_grad(self)
+            self.hess = null_hess(self)
 
         elif isnull(f.hess):
             def hess(obj, params, i, j):
diff --git a/maxlike/func/func_op.py b/maxlike/func/func_op.py
index f95a620..66ef692 100644
--- a/maxlike/func/func_op.py
+++ b/maxlike/func/func_op.py
@@ -1,5 +1,5 @@
 from ..tensor import Tensor
-from .func_base import Func, Affine, null_method, isnull
+from .func_base import Func, Affine, null_grad, null_hess, isnull
 from six.moves import reduce
 from types import MethodType
 
@@ -42,7 +42,7 @@ class FuncWrap(Func):
             self.dim_map = IndexMap(dim_map)
 
         if isnull(foo.grad):
-            self.grad = null_method(self)
+            self.grad = null_grad(self)
 
         if isnull(foo.hess):
             def eval(obj, params):
@@ -58,7 +58,7 @@ class FuncWrap(Func):
                         grad.append(Tensor(0))
                 return val, grad, hess
 
-            self.hess = null_method(self)
+            self.hess = null_hess(self)
             self.eval = MethodType(eval, self)
 
     def _expand(self, x):
-- 
2.43.0


From 47f7e86b53c94c64337dac8800d727ea193ecacf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:45 +0000
Subject: [PATCH 14/57] fix: wrapped functions with unordered or repeated
 parameters

---
 maxlike/func/func_op.py | 62 +++++++++++++++++------------------------
 1 file changed, 26 insertions(+), 36 deletions(-)

diff --git a/maxlike/func/func_op.py b/maxlike/func/func_op.py
index 66ef692..a3849f9 100644
--- a/maxlike/func/func_op.py
+++ b/maxlike/func/func_op.py
@@ -52,10 +52,8 @@ class FuncWrap(Func):
                 grad = []
                 hess = [[Tensor(0)] * (i + 1) for i in range(n)]
                 for i in range(n):
-                    try:
-                        grad.append(obj._expand(foo_grad[obj.param_map.index(i)]))
-                    except ValueError:
-                        grad.append(Tensor(0))
+                    grad.append(sum((obj._expand(foo_grad[k])
+                                     for k in obj._indexes(i)), Tensor(0)))
                 return val, grad, hess
 
             self.hess = null_hess(self)
@@ -65,48 +63,40 @@ class FuncWrap(Func):
         return x.expand(self.feat_map, self.n_feat).flip(self.feat_flip).\
                  expand(self.dim_map, self.n_dim, dim=True)
 
+    def _indexes(self, i):
+        """
+        Positions where the i-th parameter is passed to the wrapped function
+        """
+        return [k for k, p in enumerate(self.param_map) if p == i]
+
+    def _hess(self, foo_hess, i, j):
+        # foo_hess is only required to be defined for k >= l
+        return sum((self._expand(foo_hess(k, l) if k >= l else
+                                 foo_hess(l, k).transpose())
+                    for k in self._indexes(i)
+                    for l in self._indexes(j)), Tensor(0))
+
     def __call__(self, params):
         return self._expand(self.foo(self.param_map(params)))
 
     def grad(self, params, i):
-        try:
-            return self._expand(
-                self.foo.grad(self.param_map(params),
-                              self.param_map.index(i)))
-        except ValueError:
-            return Tensor(0)
+        foo_params = self.param_map(params)
+        return sum((self._expand(self.foo.grad(foo_params, k))
+                    for k in self._indexes(i)), Tensor(0))
 
     def hess(self, params, i, j):
-        try:
-            return self._expand(
-                self.foo.hess(self.param_map(params),
-                              self.param_map.index(i),
-                              self.param_map.index(j)))
-        except ValueError:
-            return Tensor(0)
+        foo_params = self.param_map(params)
+        return self._hess(
+            lambda k, l: self.foo.hess(foo_params, k, l), i, j)
 
     def eval(self, params):
         foo_val, foo_grad, foo_hess = self.foo.eval(self.param_map(params))
         val = self._expand(foo_val)
-        grad, hess = [], []
-        idx_list = []
-        for i in range(len(params)):
-            try:
-                idx = self.param_map.index(i)
-                grad.append(self._expand(foo_grad[idx]))
-                hess_line = []
-                for j in range(i):
-                    jdx = idx_list[j]
-                    hess_line.append(
-                        Tensor(0) if jdx is None else
-                        self._expand(foo_hess[idx][jdx]))
-                hess_line.append(self._expand(foo_hess[idx][idx]))  # for diag
-                hess.append(hess_line)
-            except ValueError:
-                idx = None
-                grad.append(Tensor(0))
-                hess.append([Tensor(0)] * (i + 1))
-            idx_list.append(idx)
+        n = len(params)
+        grad = [sum((self._expand(foo_grad[k]) for k in self._indexes(i)),
+                    Tensor(0)) for i in range(n)]
+        hess = [[self._hess(lambda k, l: foo_hess[k][l], i, j)
+                 for j in range(i + 1)] for i in range(n)]
         return val, grad, hess
 
 
-- 
2.43.0


From b825a3edffc715f67a084feb15a45f74b1e70cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:49 +0000
Subject: [PATCH 15/57] fix: division of a Func by a number

---
 maxlike/func/func_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maxlike/func/func_base.py b/maxlike/func/func_base.py
index 710fafa..553946a 100644
--- a/maxlike/func/func_base.py
+++ b/maxlike/func/func_base.py
@@ -198,7 +198,7 @@ class Func(with_metaclass(FuncMeta, object)):
     def __rmul__(self, a):
         return Affine(self, a, 0)
 
-    def __div__(self, a):
+    def __truediv__(self, a):
         return Affine(self, 1.0 / a, 0)
 
     def __matmul__(self, other):
-- 
2.43.0


From bf606b80093bee1da0e3bf4466ff10d0094acf58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:52 +0000
Subject: [PATCH 16/57] fix: conditions of CollapseMatrix and its gradient for
 3+ features

---
 maxlike/func/matrix.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/maxlike/func/matrix.py b/maxlike/func/matrix.py
index 253365a..92146fb 100644
--- a/maxlike/func/matrix.py
+++ b/maxlike/func/matrix.py
@@ -19,6 +19,10 @@ class CollapseMatrix(Func):
                 (1, -1, 0, 0),
                 (1, -1, 0, -1),
             ]
+        elif isinstance(conditions, tuple):
+            self.conditions = [conditions]
+        else:
+            self.conditions = list(conditions)
 
     def __call__(self, params):
         """
@@ -47,8 +51,7 @@ class CollapseMatrix(Func):
             val.append(ones * filt)
         x_dim = ones.ndim
         val = np.stack(val, -1)
-        val = val.swapaxes(0, x_dim - 2)
-        val = val.swapaxes(1, x_dim - 1)
+        val = np.moveaxis(val, [x_dim - 2, x_dim - 1], [0, 1])
         x_map = array('b', range(x_dim - 2))
         x_map.append(-1)
         x_map.append(-1)
-- 
2.43.0


From 1205468a91afcde21f08230328bb489d4d0f6173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:52 +0000
Subject: [PATCH 17/57] fix: Log, Markov and Set functions accept Param objects

---
 maxlike/func/func.py   |  2 +-
 maxlike/func/matrix.py | 16 ++++++++--------
 maxlike/func/tennis.py |  6 +++---
 3 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/maxlike/func/func.py b/maxlike/func/func.py
index 0848e93..fcd7884 100644
--- a/maxlike/func/func.py
+++ b/maxlike/func/func.py
@@ -125,7 +125,7 @@ class Log(Func):
         return Tensor(np.log(params[0]))
 
     def grad(self, params, i):
-        f = Tensor(1 / params[0])
+        f = Tensor(np.divide(1, params[0]))
         return grad_tensor(f, params, i, True, dim=f.dim)
 
     def hess(self, params, i, j):
diff --git a/maxlike/func/matrix.py b/maxlike/func/matrix.py
index 92146fb..0871989 100644
--- a/maxlike/func/matrix.py
+++ b/maxlike/func/matrix.py
@@ -69,8 +69,8 @@ class MarkovMatrix(Func):
         self.skew = skew
 
     def __call__(self, params):
-        s1 = np.asarray(params[0] / self.steps)
-        s2 = np.asarray(params[1] / self.steps)
+        s1 = np.asarray(params[0]) / self.steps
+        s2 = np.asarray(params[1]) / self.steps
         assert s1.shape == s2.shape
         assert np.all(s1 > 0)
         assert np.all(s2 > 0)
@@ -102,8 +102,8 @@ class MarkovMatrix(Func):
         return self.eval(params)[2][i][j]
 
     def eval(self, params):
-        s1 = np.asarray(params[0] / self.steps)
-        s2 = np.asarray(params[1] / self.steps)
+        s1 = np.asarray(params[0]) / self.steps
+        s2 = np.asarray(params[1]) / self.steps
         assert s1.shape == s2.shape
         assert np.all(s1 > 0)
         assert np.all(s2 > 0)
@@ -183,8 +183,8 @@ class MarkovVector(Func):
         self.skew = skew
 
     def __call__(self, params):
-        s1 = np.asarray(params[0] / self.steps)
-        s2 = np.asarray(params[1] / self.steps)
+        s1 = np.asarray(params[0]) / self.steps
+        s2 = np.asarray(params[1]) / self.steps
         assert s1.shape == s2.shape
         assert np.all(s1 > 0)
         assert np.all(s2 > 0)
@@ -213,8 +213,8 @@ class MarkovVector(Func):
         return self.eval(params)[2][i][j]
 
     def eval(self, params):
-        s1 = np.asarray(params[0] / self.steps)
-        s2 = np.asarray(params[1] / self.steps)
+        s1 = np.asarray(params[0]) / self.steps
+        s2 = np.asarray(params[1]) / self.steps
         assert s1.shape == s2.shape
         assert np.all(s1 > 0)
         assert np.all(s2 > 0)
diff --git a/maxlike/func/tennis.py b/maxlike/func/tennis.py
index b7175ad..a0e9cc9 100644
--- a/maxlike/func/tennis.py
+++ b/maxlike/func/tennis.py
@@ -103,7 +103,7 @@ class Set(Func):
     """
 
     def __call__(self, params):
-        p, t = params
+        p, t = map(np.asarray, params)
         p = np.minimum(p, 1 - 1e-10)
         p = np.maximum(p, 1e-10)
         q = 1 - p
@@ -118,7 +118,7 @@ class Set(Func):
         return Tensor(np.stack(s).swapaxes(0, -1), dim=1)
     
     def grad(self, params, i):
-        p, t = params
+        p, t = map(np.asarray, params)
         q = 1 - p
 
         d = []
@@ -141,7 +141,7 @@ class Set(Func):
                            params, i, True, dim=1)
     
     def hess(self, params, i, j):
-        p, t = params
+        p, t = map(np.asarray, params)
         q = 1 - p
 
         h = []
-- 
2.43.0


From ecd5e5a6b3bec3be35fe7626d67e3f11d02cb0d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:56 +0000
Subject: [PATCH 18/57] fix: Logistic and ArcTan keep the extra dimensions and
 accept Param objects

---
 maxlike/func/sigmoid.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/maxlike/func/sigmoid.py b/maxlike/func/sigmoid.py
index c295680..d38142a 100644
--- a/maxlike/func/sigmoid.py
+++ b/maxlike/func/sigmoid.py
@@ -19,20 +19,20 @@ class Logistic(Func):
         return Tensor(expit(params[0]))
 
     def grad(self, params, i):
-        f = expit(params[0])
-        return grad_tensor(f * (1 - f), params, i, True)
+        f = Tensor(expit(params[0]))
+        return grad_tensor(f * (1 - f), params, i, True, dim=f.dim)
 
     def hess(self, params, i, j):
-        f = expit(params[0])
+        f = Tensor(expit(params[0]))
         return hess_tensor(f * (1 - f) * (1 - 2 * f),
-                           params, i, j, True, True)
+                           params, i, j, True, True, dim=f.dim)
 
     def eval(self, params):
-        f = expit(params[0])
-        return Tensor(f), \
-               [grad_tensor(f * (1 - f), params, 0, True)], \
+        f = Tensor(expit(params[0]))
+        return f, \
+               [grad_tensor(f * (1 - f), params, 0, True, dim=f.dim)], \
                [[hess_tensor(f * (1 - f) * (1 - 2 * f),
-                             params, 0, 0, True, True)]]
+                             params, 0, 0, True, True, dim=f.dim)]]
 
 
 class ArcTan(Func):
@@ -42,10 +42,10 @@ class ArcTan(Func):
         return Tensor(np.arctan(x))
 
     def grad(self, params, i):
-        x = params[0]
-        return grad_tensor(1 / (1 + x * x), params, i, True)
+        x = Tensor(params[0])
+        return grad_tensor(1 / (1 + x * x), params, i, True, dim=x.dim)
 
     def hess(self, params, i, j):
-        x = params[0]
+        x = Tensor(params[0])
         return hess_tensor(-2 * x / (1 + x * x) ** 2,
-                           params, i, j, True, True)
+                           params, i, j, True, True, dim=x.dim)
-- 
2.43.0


From afb825328620c9e6119723dc11942d2b5922b4e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:01 +0000
Subject: [PATCH 19/57] fix: copulas of integer marginals

---
 maxlike/func/copula.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/maxlike/func/copula.py b/maxlike/func/copula.py
index cb67977..752b048 100644
--- a/maxlike/func/copula.py
+++ b/maxlike/func/copula.py
@@ -34,8 +34,8 @@ def copulaWrap(C):
     def wrap(obj, params, *args, **kwargs):
         x = np.asarray(params[0]).cumsum(-1)
         y = np.asarray(params[1]).cumsum(-1)
-        x /= x[..., -1][..., None]
-        y /= y[..., -1][..., None]
+        x = x / x[..., -1][..., None]
+        y = y / y[..., -1][..., None]
         # exclude last element
         F_xy = C(obj, x[..., None], y[..., None, :], *args, **kwargs)
         F_xy = np.insert(F_xy, 0, 0, -1)
-- 
2.43.0


From 0f01c040ac1f980254d456b22ff45187a9866919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:05 +0000
Subject: [PATCH 20/57] fix: gradient and hessian of Linear

---
 maxlike/func/func.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/maxlike/func/func.py b/maxlike/func/func.py
index fcd7884..92c0359 100644
--- a/maxlike/func/func.py
+++ b/maxlike/func/func.py
@@ -17,13 +17,13 @@ class Linear(Func):
                     for w, p in zip(params, self.weights)))
 
     def grad(self, params, i):
-        return grad_tensor(self.weights[i] * np.ones((1, ) *
-                           np.asarray(params[i]).ndim), params, i, True)
+        return grad_tensor(self.weights[i] * np.ones_like(
+                           params[i], dtype=np.float64), params, i)
 
     def hess(self, params, i, j):
-        return hess_tensor(np.zeros((1, ) *
-            (np.asarray(params[j]).ndim + np.asarray(params[i]).ndim)),
-            params, i, j, True, True)
+        return hess_tensor(np.zeros(
+            np.asarray(params[i]).shape + np.asarray(params[j]).shape),
+            params, i, j)
 
 
 class Quadratic(Func):  # TODO : expand this class to allow more generic stuff
-- 
2.43.0


From 9927fc27676165a5a7202d86faac02b74f1f8dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:46 +0000
Subject: [PATCH 21/57] fix: dot product of a null Tensor is null

---
 maxlike/tensor/tensor.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/maxlike/tensor/tensor.py b/maxlike/tensor/tensor.py
index aa0e21b..bac899e 100644
--- a/maxlike/tensor/tensor.py
+++ b/maxlike/tensor/tensor.py
@@ -709,6 +709,9 @@ class Tensor(BaseTensor):
             if other.values.ndim == 0 and other.values == 0:
                 return Tensor(0)
 
+        if self.values.ndim == 0 and self.values == 0:
+            return Tensor(0)
+
         dim = max(self.dim, other.dim)
 
         if (self.x_dim != other.n) & (self.y_dim == other.n):
@@ -762,6 +765,9 @@ class Tensor(BaseTensor):
             if other.values.ndim == 0 and other.values == 0:
                 return Tensor(0)
 
+        if self.values.ndim == 0 and self.values == 0:
+            return Tensor(0)
+
         dim = max(self.dim, other.dim)
 
         assert self.y_dim == 0
-- 
2.43.0


From f62a7ead0b92f144ae439e49ce63df0294433172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:50 +0000
Subject: [PATCH 22/57] fix: derivatives of a Collapse that are constant along
 the collapsed dimensions

---
 maxlike/func/func_op.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/maxlike/func/func_op.py b/maxlike/func/func_op.py
index a3849f9..2bc098e 100644
--- a/maxlike/func/func_op.py
+++ b/maxlike/func/func_op.py
@@ -1,3 +1,4 @@
+import numpy as np
 from ..tensor import Tensor
 from .func_base import Func, Affine, null_grad, null_hess, isnull
 from six.moves import reduce
@@ -107,27 +108,28 @@ class Collapse(Func):
         self.sum_val = sum_val
         self.sum_dim = sum_dim
 
+    def _sum(self, x, val):
+        # the derivatives have to be summed over the dimensions of the value,
+        # even when they are constant along them
+        ones = Tensor(np.ones(val.values.shape), dim=val.dim)
+        return (x * ones).sum(self.sum_val, self.sum_dim)
+
     def __call__(self, params):
         return self.foo(params).\
             sum(sum_val=self.sum_val,
                 sum_dim=self.sum_dim)
 
     def grad(self, params, i):
-        return self.foo.grad(params, i).\
-            sum(sum_val=self.sum_val,
-                sum_dim=self.sum_dim)
+        return self._sum(self.foo.grad(params, i), self.foo(params))
 
     def hess(self, params, i, j):
-        return self.foo.hess(params, i, j).\
-            sum(sum_val=self.sum_val,
-                sum_dim=self.sum_dim)
+        return self._sum(self.foo.hess(params, i, j), self.foo(params))
 
     def eval(self, params):
         val, grad, hess = self.foo.eval(params)
         return val.sum(self.sum_val, self.sum_dim), \
-               [d.sum(self.sum_val, self.sum_dim) for d in grad], \
-               [[h.sum(self.sum_val, self.sum_dim)
-                 for h in h_line] for h_line in hess]
+               [self._sum(d, val) for d in grad], \
+               [[self._sum(h, val) for h in h_line] for h_line in hess]
 
 
 class Sum(Func):
-- 
2.43.0


From c5ecd8972ee83c41843461a28a369981489d73b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:56 +0000
Subject: [PATCH 23/57] fix: std_error without constraints

---
 maxlike/maxlike_base.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/maxlike/maxlike_base.py b/maxlike/maxlike_base.py
index 75c53bc..6bfd8ef 100644
--- a/maxlike/maxlike_base.py
+++ b/maxlike/maxlike_base.py
@@ -310,12 +310,10 @@ class MaxLike(with_metaclass(abc.ABCMeta)):
         """
         Standard Deviation Array.
         """
-        cut = len(self.constraint)
-        if cut == 0:
-            cut = None
+        cut = self.flat_hess_.shape[0] - len(self.constraint)
         return [p.as_masked() for p in
             self._reshape_array(np.sqrt(np.diag(-np.linalg.inv(
-            self.flat_hess_))[:-cut]))
+            self.flat_hess_))[:cut]))
         ]
 
     def flat_grad(self, params, *args, **kwargs):
-- 
2.43.0


From 972d07fcffa1896827c9d85dd02edc7950388680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:00 +0000
Subject: [PATCH 24/57] fix: add_param with a list of fixed values

---
 maxlike/maxlike_base.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/maxlike/maxlike_base.py b/maxlike/maxlike_base.py
index 6bfd8ef..ca6fb1e 100644
--- a/maxlike/maxlike_base.py
+++ b/maxlike/maxlike_base.py
@@ -21,7 +21,8 @@ class Param(object):
         if mask is None or mask is False:
             mask = np.zeros_like(values, dtype=np.bool)
         else:
-            assert mask.shape == values.shape
+            mask = np.asarray(mask, dtype=np.bool)
+            assert mask.shape == np.shape(values)
 
         object.__setattr__(self, 'values', np.asarray(values))
         object.__setattr__(self, 'mask',   np.asarray(mask))
@@ -115,11 +116,8 @@ class MaxLike(with_metaclass(abc.ABCMeta)):
             Boolean arrays with value = True if the parameter has a
             fixed value.
         """
-        try:
-            self.params = self.params + (Param(values, mask=fixed), )
-        except AttributeError:
-            self.params = ()
-            self.add_param(values, fixed)
+        self.params = getattr(self, 'params', ()) + \
+                      (Param(values, mask=fixed), )
 
     def get_params(self):
         return [p.as_masked() for p in self.params]
-- 
2.43.0


From b1a60ef4ae43c4c0006ec46d0d769a0a99a863a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:04 +0000
Subject: [PATCH 25/57] fix: fit with integer initial parameters

---
 maxlike/maxlike_base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/maxlike/maxlike_base.py b/maxlike/maxlike_base.py
index ca6fb1e..978604e 100644
--- a/maxlike/maxlike_base.py
+++ b/maxlike/maxlike_base.py
@@ -349,7 +349,7 @@ class MaxLike(with_metaclass(abc.ABCMeta)):
 
         # Add blocks corresponding to constraint variables:
         # Hess_lambda_params = grad_g
-        hess_c = [[np.zeros_like(p) for p in params] for _ in range(c_len)]
+        hess_c = [[np.zeros(p.shape) for p in params] for _ in range(c_len)]
 
         # --------------------------------------------------------------------
         # 2nd phase: Add constraints / regularization to grad and hess
@@ -527,7 +527,7 @@ class MaxLike(with_metaclass(abc.ABCMeta)):
                     grad_prev = grad
 
                     step = -np.dot(J, grad)
-                    flat_params += step[:i1]
+                    flat_params = flat_params + step[:i1]
                     params = self._reshape_params(flat_params)
                     g = self.g(params)
 
-- 
2.43.0


From 9eba900aaeb671505fd83532ae1f8847099ece39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:08 +0000
Subject: [PATCH 26/57] fix: constraints and regularizations with unordered or
 repeated parameters

---
 maxlike/maxlike_base.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/maxlike/maxlike_base.py b/maxlike/maxlike_base.py
index 978604e..863f92a 100644
--- a/maxlike/maxlike_base.py
+++ b/maxlike/maxlike_base.py
@@ -338,6 +338,16 @@ class MaxLike(with_metaclass(abc.ABCMeta)):
 
         return grad
 
+    @staticmethod
+    def _add_hess(hess, i, j, h, diag):
+        """
+        Adds the block (i, j) to the lower triangular matrix of blocks hess
+        """
+        if i >= j:
+            hess[i][j] += h
+        if i < j or (i == j and not diag):
+            hess[j][i] += h.transpose()
+
     def flat_hess(self, params, *args, **kwargs):
         n = len(params)
         c_len = len(self.constraint)
@@ -361,14 +371,16 @@ class MaxLike(with_metaclass(abc.ABCMeta)):
             for i, idx in enumerate(param_map):
                 hess_c[k][idx] += grad_g[i].sum().values
                 for j in range(i + 1):
-                    hess[idx][param_map[j]] += gamma * hess_g[i][j]
+                    self._add_hess(hess, idx, param_map[j],
+                                   gamma * hess_g[i][j], i == j)
 
         for param_map, h in self.reg:
             args = [params[k] for k in param_map]
             hess_h = h.hess(args)
             for i, idx in enumerate(param_map):
                 for j in range(i + 1):
-                    hess[idx][param_map[j]] -= hess_h[i][j]
+                    self._add_hess(hess, idx, param_map[j],
+                                   -hess_h[i][j], i == j)
 
         # --------------------------------------------------------------------
         # 3rd phase: Reshape and flatten
-- 
2.43.0


From 1b768f8afd2775e465818f9e83f19e0934bee508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:12 +0000
Subject: [PATCH 27/57] fix: gradient and hessian of parameters the model does
 not depend on

---
 maxlike/maxlike_base.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/maxlike/maxlike_base.py b/maxlike/maxlike_base.py
index 863f92a..f051f6a 100644
--- a/maxlike/maxlike_base.py
+++ b/maxlike/maxlike_base.py
@@ -333,7 +333,8 @@ class MaxLike(with_metaclass(abc.ABCMeta)):
             for i, idx in enumerate(param_map):
                 grad[idx] -= grad_h[i]
 
-        grad = [d.values[~p.mask] for d, p in zip(grad, params)] + grad[n:]
+        grad = [np.broadcast_to(d.values, p.shape)[~p.mask]
+                for d, p in zip(grad, params)] + grad[n:]
         grad = np.concatenate(grad)
 
         return grad
@@ -396,7 +397,8 @@ class MaxLike(with_metaclass(abc.ABCMeta)):
         #
         # then hess[i][j].shape = shape[j] x shape[i]
 
-        hess = [[hess[i][j].values[
+        hess = [[np.broadcast_to(
+                     hess[i][j].values, p_i.shape + params[j].shape)[
                      np.multiply.outer(~p_i.mask, ~params[j].mask)].
                      reshape((p_i.count(), params[j].count()))
                  for j in range(i + 1)]
-- 
2.43.0


From be16c90fa7bf534e55b16482d78e8dadd140e8e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:16 +0000
Subject: [PATCH 28/57] fix: verbose broyden fit

---
 maxlike/maxlike_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maxlike/maxlike_base.py b/maxlike/maxlike_base.py
index f051f6a..0b0b84c 100644
--- a/maxlike/maxlike_base.py
+++ b/maxlike/maxlike_base.py
@@ -546,7 +546,7 @@ class MaxLike(with_metaclass(abc.ABCMeta)):
                     g = self.g(params)
 
                     if verbose > 0:
-                        print(k + 1, new_g)
+                        print(k + 1, g)
 
                     if abs(prev_g / g - 1) < tol:
                         self.params = params
-- 
2.43.0


From 026e7da2555d40ffe341075c2714de97af95402f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:59 +0000
Subject: [PATCH 29/57] fix: convergence state and broyden fits do not depend
 on previous fits

---
 maxlike/maxlike_base.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/maxlike/maxlike_base.py b/maxlike/maxlike_base.py
index 0b0b84c..77a7eca 100644
--- a/maxlike/maxlike_base.py
+++ b/maxlike/maxlike_base.py
@@ -469,6 +469,8 @@ class MaxLike(with_metaclass(abc.ABCMeta)):
             False.
         """
 
+        self.converged = False
+
         dim = getattr(self, 'dim', 0)
         for k in kwargs:
             self.__dict__[k] = Tensor(kwargs[k], dim=dim)
@@ -505,7 +507,6 @@ class MaxLike(with_metaclass(abc.ABCMeta)):
                         if verbose > 1:
                             print("\tmultiplier = ", mult)
                 else:
-                    self.converged = False
                     raise ConvergenceError(
                         "Error: the objective function did not increase " +
                         "after %d steps" % max_inner_steps, "step")
@@ -513,6 +514,7 @@ class MaxLike(with_metaclass(abc.ABCMeta)):
                 if abs(prev_g / g - 1) < tol:
                     self.params = params
                     self.flat_hess_ = hess
+                    self.converged = True
                     return True
 
         elif method == "broyden":
@@ -526,12 +528,7 @@ class MaxLike(with_metaclass(abc.ABCMeta)):
                 y, der, hess = self.model.eval(params)
                 grad = self.flat_grad(params, y, der)
 
-                if not (self.converged and
-                        hasattr(self, 'flat_hess_') and
-                        self.flat_hess_.shape[0] == grad.shape[0]):
-                    self.flat_hess_ = self.flat_hess(params, y, der, hess).data
-
-                J = pinvh(self.flat_hess_)
+                J = pinvh(self.flat_hess(params, y, der, hess))
                 
                 c_len = len(self.constraint)
                 i1 = (-(c_len + 1) % grad.shape[0]) + 1
@@ -561,12 +558,10 @@ class MaxLike(with_metaclass(abc.ABCMeta)):
                          (dgrad * dgrad).sum()
 
             except Exception as err:
-                self.converged = False
                 raise err
         
         else:
             raise ValueError("Invalid Method")
 
-        self.converged = False
         raise ConvergenceError("Error: the objective function did not" +
                                "converge after %d steps" % max_steps)
-- 
2.43.0


From 2ee59fad6bdc8ef73de83a18447cfd40aa661283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:41 +0000
Subject: [PATCH 30/57] fix: root finders raise when they do not converge

---
 maxlike/skellam.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/maxlike/skellam.py b/maxlike/skellam.py
index 83fc31c..fdfc644 100644
--- a/maxlike/skellam.py
+++ b/maxlike/skellam.py
@@ -72,7 +72,7 @@ def poisson_cdf_root(target, n=2, tol=1e-8):
     """
     # if not (isinstance(target, float) and target < 1 or target > 0):
     if target >= 1 or target <= 0:
-        return ValueError
+        raise ValueError
     phi = ndtri(target)
     min_a = 1e-3
     a = max(((phi * phi + 4 * n + 2) ** .5 - phi) ** 2 / 4, min_a)
@@ -98,7 +98,7 @@ def poisson_cdf_root(target, n=2, tol=1e-8):
                 scale_factor *= .5
         count += 1
         if count > max_steps:
-            return ConvergenceError
+            raise ConvergenceError("Error: maximum number of steps exceeded")
     return a
 
 
@@ -156,7 +156,7 @@ def skellam_cdf_root(target1, target2, n=0, tol=1e-8):
                 new_e = np.linalg.norm(new_s - target)
         count += 1
         if count > max_steps:
-            raise ConvergenceError
+            raise ConvergenceError("Error: maximum number of steps exceeded")
     return a, b
 
 
@@ -203,6 +203,7 @@ def conditional_skellam_cdf_root(b, target, tol=1e-8):
                 frame = Poi_a[:, None] * Poi_b[None, :]
                 new_s = frame[xy < 0].sum() + 0.5 * frame[xy == 0].sum()
                 new_e = abs(target - new_s)
+        count += 1
         if count > max_steps:
-            raise ConvergenceError
+            raise ConvergenceError("Error: maximum number of steps exceeded")
     return a
-- 
2.43.0


From 4f5131b726641342ce40e091b08362b3c820bc5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:24 +0000
Subject: [PATCH 31/57] fix: value of Linear is a Tensor

---
 maxlike/func/func.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/maxlike/func/func.py b/maxlike/func/func.py
index 92c0359..76574c5 100644
--- a/maxlike/func/func.py
+++ b/maxlike/func/func.py
@@ -13,8 +13,8 @@ class Linear(Func):
         self.weights = weight_list
 
     def __call__(self, params):
-        return sum(((w * np.asarray(p)).sum()
-                    for w, p in zip(params, self.weights)))
+        return Tensor(sum(((w * np.asarray(p)).sum()
+                           for w, p in zip(params, self.weights))))
 
     def grad(self, params, i):
         return grad_tensor(self.weights[i] * np.ones_like(
-- 
2.43.0


From 2826cfe23dadfa2e4b09e801682795a88f59530c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:27 +0000
Subject: [PATCH 32/57] fix: gradient of X keeps the extra dimensions

---
 maxlike/func/func.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/maxlike/func/func.py b/maxlike/func/func.py
index 76574c5..aa2a0c7 100644
--- a/maxlike/func/func.py
+++ b/maxlike/func/func.py
@@ -57,7 +57,8 @@ class X(Func):
         return Tensor(params[0])
 
     def grad(self, params, i):
-        return grad_tensor(np.ones_like(params[0]), params, i, True)
+        return grad_tensor(np.ones_like(params[0]), params, i, True,
+                           dim=Tensor(params[0]).dim)
 
     hess = null_func
 
-- 
2.43.0


From 868d59b132060bf1a7ef1effedab247be0ea18fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:58 +0000
Subject: [PATCH 33/57] fix: product of a null Tensor by another Tensor is null

---
 maxlike/tensor/tensor.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/maxlike/tensor/tensor.py b/maxlike/tensor/tensor.py
index bac899e..45c0435 100644
--- a/maxlike/tensor/tensor.py
+++ b/maxlike/tensor/tensor.py
@@ -885,6 +885,10 @@ class Tensor(BaseTensor):
                     op_type.value(self.values, other.toarray()),
                     other.x_dim, other.y_dim, other.dim)
 
+            # special case: 0
+            if self.values == 0 and op_type in [TensorOp.MUL, TensorOp.DIV]:
+                return Tensor(0)
+
             return Tensor(
                 op_type.value(self.values, other.values),
                 other.x_dim, other.y_dim, other.dim, other.x_map, other.y_map)
-- 
2.43.0


From 180aa66718e9610fa41e1504ecabc8e4e4418f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:58 +0000
Subject: [PATCH 34/57] fix: crossed hessian of MarkovMatrix with a skew that
 is not symmetric

---
 maxlike/func/matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maxlike/func/matrix.py b/maxlike/func/matrix.py
index 0871989..521a526 100644
--- a/maxlike/func/matrix.py
+++ b/maxlike/func/matrix.py
@@ -140,7 +140,7 @@ class MarkovMatrix(Func):
 
                     H12[..., x_, y] += s1 * f1 * hm12 + f1 * dm2
                     H12[..., x, y_] += s2 * f2 * hm12 + f2 * dm1
-                    H12[..., x, y]  -= f1 * dm1 + f2 * dm2 + (s1 * f1 + s2 * f2) * hm12
+                    H12[..., x, y]  -= f1 * dm2 + f2 * dm1 + (s1 * f1 + s2 * f2) * hm12
 
                     H22[..., x_, y] += s1 * f1 * hm22
                     H22[..., x, y_] += s2 * f2 * hm22 + 2 * f2 * dm2
-- 
2.43.0


From 1e1adc7e2e714f17754c67fc236cf6f5bdacb078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:10 +0000
Subject: [PATCH 35/57] fix: null derivatives of a Collapse

---
 maxlike/func/func_op.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/maxlike/func/func_op.py b/maxlike/func/func_op.py
index 2bc098e..2884b04 100644
--- a/maxlike/func/func_op.py
+++ b/maxlike/func/func_op.py
@@ -111,8 +111,10 @@ class Collapse(Func):
     def _sum(self, x, val):
         # the derivatives have to be summed over the dimensions of the value,
         # even when they are constant along them
-        ones = Tensor(np.ones(val.values.shape), dim=val.dim)
-        return (x * ones).sum(self.sum_val, self.sum_dim)
+        x = x * Tensor(np.ones(val.values.shape), dim=val.dim)
+        if isinstance(x, Tensor) and x.values.ndim == 0:
+            return x
+        return x.sum(self.sum_val, self.sum_dim)
 
     def __call__(self, params):
         return self.foo(params).\
-- 
2.43.0


From 9ecdd729ebb5763aa758b7f1a80182eea26264b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:24 +0000
Subject: [PATCH 36/57] fix: eval of linear functions accepts a single
 parameter

---
 maxlike/func/func_base.py | 2 +-
 maxlike/func/func_op.py   | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/maxlike/func/func_base.py b/maxlike/func/func_base.py
index 553946a..104f989 100644
--- a/maxlike/func/func_base.py
+++ b/maxlike/func/func_base.py
@@ -285,7 +285,7 @@ class Compose(Func):
                 return val, grad, hess
             
             self.hess = MethodType(matrix_wrap(hess), self)
-            self.eval = MethodType(eval, self)
+            self.eval = MethodType(eval_wrap(eval), self)
 
     def __call__(self, params):
         g_val = [g(params) for g in self.g_list]
diff --git a/maxlike/func/func_op.py b/maxlike/func/func_op.py
index 2884b04..4b723d3 100644
--- a/maxlike/func/func_op.py
+++ b/maxlike/func/func_op.py
@@ -1,6 +1,7 @@
 import numpy as np
 from ..tensor import Tensor
-from .func_base import Func, Affine, null_grad, null_hess, isnull
+from .func_base import Func, Affine, null_grad, null_hess, isnull, \
+    eval_wrap
 from six.moves import reduce
 from types import MethodType
 
@@ -58,7 +59,7 @@ class FuncWrap(Func):
                 return val, grad, hess
 
             self.hess = null_hess(self)
-            self.eval = MethodType(eval, self)
+            self.eval = MethodType(eval_wrap(eval), self)
 
     def _expand(self, x):
         return x.expand(self.feat_map, self.n_feat).flip(self.feat_flip).\
-- 
2.43.0


From 61d960286199c6076c713a0f420a3f847436af87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:53 +0000
Subject: [PATCH 37/57] fix: newton fit that starts at the optimum

---
 maxlike/maxlike_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maxlike/maxlike_base.py b/maxlike/maxlike_base.py
index 77a7eca..6b73217 100644
--- a/maxlike/maxlike_base.py
+++ b/maxlike/maxlike_base.py
@@ -499,7 +499,7 @@ class MaxLike(with_metaclass(abc.ABCMeta)):
                     new_flat_params = flat_params - mult * step
                     params = self._reshape_params(new_flat_params)
                     g = self.g(params, self.model(params))
-                    if g >= prev_g:
+                    if g >= prev_g or abs(prev_g / g - 1) < tol:
                         flat_params = new_flat_params
                         break
                     else:
-- 
2.43.0


From 74214fa7982ec9d66406fe0b235b9479e6b753d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:31 +0000
Subject: [PATCH 38/57] fix: broyden steps do not decrease the objective
 function

---
 maxlike/maxlike_base.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/maxlike/maxlike_base.py b/maxlike/maxlike_base.py
index 6b73217..eecbe38 100644
--- a/maxlike/maxlike_base.py
+++ b/maxlike/maxlike_base.py
@@ -484,9 +484,10 @@ class MaxLike(with_metaclass(abc.ABCMeta)):
         params = self.params
         flat_params = np.concatenate([p.compressed() for p in params])
     
+        max_inner_steps = 5
+
         if method == "newton":
 
-            max_inner_steps = 5
             for k in range(max_steps):
                 step, g, grad, hess = self.newton_step(params)
                 prev_g = g
@@ -538,9 +539,18 @@ class MaxLike(with_metaclass(abc.ABCMeta)):
                     grad_prev = grad
 
                     step = -np.dot(J, grad)
-                    flat_params = flat_params + step[:i1]
-                    params = self._reshape_params(flat_params)
-                    g = self.g(params)
+                    for _ in range(max_inner_steps):
+                        params = self._reshape_params(
+                            flat_params + step[:i1])
+                        g = self.g(params)
+                        if g >= prev_g or abs(prev_g / g - 1) < tol:
+                            flat_params = flat_params + step[:i1]
+                            break
+                        step = .5 * step
+                    else:
+                        raise ConvergenceError(
+                            "Error: the objective function did not increase " +
+                            "after %d steps" % max_inner_steps, "step")
 
                     if verbose > 0:
                         print(k + 1, g)
-- 
2.43.0


From 3af3b08f66893207aeeea8232d7643d46f2e36ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:59 +0000
Subject: [PATCH 39/57] fix: broyden fits with constraints that are active at
 the optimum

---
 maxlike/maxlike_base.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/maxlike/maxlike_base.py b/maxlike/maxlike_base.py
index eecbe38..18210d4 100644
--- a/maxlike/maxlike_base.py
+++ b/maxlike/maxlike_base.py
@@ -525,6 +525,8 @@ class MaxLike(with_metaclass(abc.ABCMeta)):
             if verbose > 0:
                 print(0, g)
 
+            constraint = self.constraint
+
             try:
                 y, der, hess = self.model.eval(params)
                 grad = self.flat_grad(params, y, der)
@@ -533,6 +535,7 @@ class MaxLike(with_metaclass(abc.ABCMeta)):
                 
                 c_len = len(self.constraint)
                 i1 = (-(c_len + 1) % grad.shape[0]) + 1
+                gamma = np.zeros(c_len)
 
                 for k in range(max_steps):
                     prev_g = g
@@ -561,15 +564,20 @@ class MaxLike(with_metaclass(abc.ABCMeta)):
                         self.converged = True
                         return True
                     
+                    gamma = gamma + step[i1:]
+                    self.constraint = [
+                        (param_map, l, c)
+                        for l, (param_map, _, c) in zip(gamma, constraint)]
+
                     y, der = self.model(params), self.model.grad(params)
                     grad = self.flat_grad(params, y, der)
                     dgrad = grad - grad_prev
                     J += np.outer(step - np.dot(J, dgrad), dgrad) / \
                          (dgrad * dgrad).sum()
 
-            except Exception as err:
-                raise err
-        
+            finally:
+                self.constraint = constraint
+
         else:
             raise ValueError("Invalid Method")
 
-- 
2.43.0


From 253bd2fceb1a9640561208e622184d0e896cf8d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:12 +0000
Subject: [PATCH 40/57] fix: Poisson probabilities of large rates

a ** u overflows: the rates from about 100 on raised OverflowError.
---
 maxlike/skellam.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/maxlike/skellam.py b/maxlike/skellam.py
index fdfc644..a5ac4db 100644
--- a/maxlike/skellam.py
+++ b/maxlike/skellam.py
@@ -1,13 +1,13 @@
 import numpy as np
-from math import exp
-from scipy.special import ndtri, factorial
+from scipy.special import ndtri, gammaln, xlogy
 from .maxlike_base import ConvergenceError
 
 
 def poisson_vector(a, size=10):
-    curve = np.vectorize(lambda u: a**u / factorial(u))(np.arange(size))
-    dcurve = np.append(-1, curve[:-1] - curve[1:])
-    return exp(-a) * np.array([curve, dcurve])
+    u = np.arange(size)
+    curve = np.exp(xlogy(u, a) - gammaln(u + 1) - a)
+    dcurve = np.append(-curve[0], curve[:-1] - curve[1:])
+    return np.array([curve, dcurve])
 
 
 def skellam_frame(a, b, size=10):
-- 
2.43.0


From 74355cfe2b8fe7bce93b42ee397ac2768e489bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:17 +0000
Subject: [PATCH 41/57] fix: truncation of the Skellam frames

The normal approximation of the size leaves out more than the tolerance,
in particular for small rates.
---
 maxlike/skellam.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/maxlike/skellam.py b/maxlike/skellam.py
index a5ac4db..3267c90 100644
--- a/maxlike/skellam.py
+++ b/maxlike/skellam.py
@@ -1,5 +1,5 @@
 import numpy as np
-from scipy.special import ndtri, gammaln, xlogy
+from scipy.special import ndtri, gammaln, xlogy, pdtrc
 from .maxlike_base import ConvergenceError
 
 
@@ -37,9 +37,20 @@ def tol2size(tol=1e-8, *args):
     return int(-ndtri(tol) * sum(map(lambda x: x ** .5, args)) + sum(args)) + 1
 
 
+def frame_size(tol, *args):
+    """
+    Number of terms after which the tails of the Poisson distributions are
+    below the tolerance
+    """
+    size = tol2size(tol, *args)
+    while sum(pdtrc(size - 1, a) for a in args) > tol:
+        size += 1
+    return size
+
+
 def skellam_cdf(a, b, n=0, tol=1e-8, inverse=False):
     # assert isinstance(n, int)
-    size = tol2size(tol, a, b)
+    size = frame_size(tol, a, b)
     rng = np.arange(size)
     xy = rng[None, :] - rng[:, None]
     xy = (xy >= n) if inverse else (xy <= n)
@@ -48,7 +59,7 @@ def skellam_cdf(a, b, n=0, tol=1e-8, inverse=False):
 
 def skellam_cdf_pair(a, b, n=0, tol=1e-8):
     assert isinstance(n, int)
-    size = tol2size(tol, a, b)
+    size = frame_size(tol, a, b)
     rng = np.arange(size)
     xy = rng[None, :] - rng[:, None]
     s = skellam_frame(a, b, size)
@@ -174,11 +185,11 @@ def conditional_skellam_cdf_root(b, target, tol=1e-8):
     count = 0
     floor = 1e-6
     max_steps = 50
-    size = tol2size(.5 * tol, b)
+    size = frame_size(.5 * tol, b)
     Poi_b, dPoi_b = poisson_vector(b, size)
     rng_b = np.arange(size)
     while e > abs(tol):
-        size = tol2size(tol, a, b)
+        size = frame_size(tol, a, b)
         rng_a = np.arange(size)
         xy = rng_b[None, :] - rng_a[:, None]
         Poi_a, dPoi_a = poisson_vector(a, size)
-- 
2.43.0


From 92f0ff56665f5e8667f32eb29f6261e40d5dde16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:53 +0000
Subject: [PATCH 42/57] fix: parameters share memory with the arrays of the
 caller

Writing to the array given as fixed, to a view given as values or to the mask
of a result of get_params changed the parameters of the estimator.
---
 maxlike/maxlike_base.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/maxlike/maxlike_base.py b/maxlike/maxlike_base.py
index 18210d4..36ff073 100644
--- a/maxlike/maxlike_base.py
+++ b/maxlike/maxlike_base.py
@@ -21,10 +21,11 @@ class Param(object):
         if mask is None or mask is False:
             mask = np.zeros_like(values, dtype=np.bool)
         else:
-            mask = np.asarray(mask, dtype=np.bool)
+            mask = np.array(mask, dtype=np.bool)
             assert mask.shape == np.shape(values)
 
-        object.__setattr__(self, 'values', np.asarray(values))
+        # copies, the caller may reuse its arrays
+        object.__setattr__(self, 'values', np.array(values))
         object.__setattr__(self, 'mask',   np.asarray(mask))
         object.__setattr__(self, 'shape',  self.values.shape)
         object.__setattr__(self, 'hash',   getrandbits(128))
@@ -37,7 +38,7 @@ class Param(object):
         return (~self.mask).sum()
 
     def as_masked(self):
-        return np.ma.array(self.values, mask=self.mask)
+        return np.ma.array(self.values, mask=self.mask, copy=True)
 
     def __array__(self, *args, **kwargs):
         return np.asarray(self.values)
-- 
2.43.0


From a61ffa69f9abb60a40def14b8a740381ffa3f5ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:57 +0000
Subject: [PATCH 43/57] fix: data of a fit share memory with the arrays of the
 caller

Writing to a view given to fit changed the objective and the criteria
afterwards.
---
 maxlike/maxlike_base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/maxlike/maxlike_base.py b/maxlike/maxlike_base.py
index 36ff073..513a3b3 100644
--- a/maxlike/maxlike_base.py
+++ b/maxlike/maxlike_base.py
@@ -474,7 +474,8 @@ class MaxLike(with_metaclass(abc.ABCMeta)):
 
         dim = getattr(self, 'dim', 0)
         for k in kwargs:
-            self.__dict__[k] = Tensor(kwargs[k], dim=dim)
+            # a copy, the caller may reuse its arrays
+            self.__dict__[k] = Tensor(np.array(kwargs[k]), dim=dim)
 
         method = method.lower()
 
-- 
2.43.0


From e38f2fc09b06cb145de94ff873ebe5428b11e7e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:14 +0000
Subject: [PATCH 44/57] fix: constraints and regularizations keep the caller's
 list of parameters

Reusing the list given as param_map changed the constraints added before.
---
 maxlike/maxlike_base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/maxlike/maxlike_base.py b/maxlike/maxlike_base.py
index 513a3b3..2a8f873 100644
--- a/maxlike/maxlike_base.py
+++ b/maxlike/maxlike_base.py
@@ -137,7 +137,7 @@ class MaxLike(with_metaclass(abc.ABCMeta)):
         if isinstance(param_map, int):
             param_map = [param_map]
 
-        self.constraint.append((param_map, 0, g))
+        self.constraint.append((list(param_map), 0, g))
 
     def add_regularization(self, param_map, h):
         """
@@ -153,7 +153,7 @@ class MaxLike(with_metaclass(abc.ABCMeta)):
         if isinstance(param_map, int):
             param_map = [param_map]
 
-        self.reg.append((param_map, h))
+        self.reg.append((list(param_map), h))
 
     def akaine_information_criterion(self, nb_extra_params=0):
         """
-- 
2.43.0


From f0e4db0efd8d806da51d8eb9376bdb1699b866a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:56 +0000
Subject: [PATCH 45/57] fix: a Tensor shares memory with, and freezes, the
 arrays of the caller

---
 maxlike/tensor/tensor.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/maxlike/tensor/tensor.py b/maxlike/tensor/tensor.py
index 45c0435..61e65da 100644
--- a/maxlike/tensor/tensor.py
+++ b/maxlike/tensor/tensor.py
@@ -465,7 +465,7 @@ class Tensor(BaseTensor):
         if dtype is None:
             dtype = TENSOR_DTYPE
 
-        object.__setattr__(self, 'values', np.asarray(values, dtype=dtype))
+        object.__setattr__(self, 'values', np.array(values, dtype=dtype))
         self.values.flags["WRITEABLE"] = False
 
         super(Tensor, self).__init__(
@@ -474,12 +474,14 @@ class Tensor(BaseTensor):
         if x_map:
             if not isinstance(x_map, array):
                 raise ValueError("Invalid mapping")
+            x_map = array('b', x_map)
         else:
             x_map = array('b')
 
         if y_map:
             if not isinstance(y_map, array):
                 raise ValueError("Invalid mapping")
+            y_map = array('b', y_map)
         else:
             y_map = array('b')
 
-- 
2.43.0


From 17d8171dca5293e57431372adbcae87cd56783fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:00 +0000
Subject: [PATCH 46/57] fix: functions share the arrays and lists they are
 built from with the caller

---
 maxlike/func/func.py      | 10 +++++-----
 maxlike/func/func_base.py |  7 ++++---
 maxlike/func/func_op.py   |  4 ++++
 maxlike/func/matrix.py    |  6 +++---
 4 files changed, 16 insertions(+), 11 deletions(-)

diff --git a/maxlike/func/func.py b/maxlike/func/func.py
index aa2a0c7..9449158 100644
--- a/maxlike/func/func.py
+++ b/maxlike/func/func.py
@@ -10,7 +10,7 @@ class Linear(Func):
             weight_list = [weight_list]
         else:
             assert isinstance(weight_list, (list, tuple))
-        self.weights = weight_list
+        self.weights = [np.array(w) for w in weight_list]
 
     def __call__(self, params):
         return Tensor(sum(((w * np.asarray(p)).sum()
@@ -29,8 +29,8 @@ class Linear(Func):
 class Quadratic(Func):  # TODO : expand this class to allow more generic stuff
 
     def __init__(self, u=0, s=1):
-        self.u = u
-        self.s = s
+        self.u = np.array(u)
+        self.s = np.array(s)
 
     def __call__(self, params):
         val = 0
@@ -66,7 +66,7 @@ class X(Func):
 class Constant(Func):
 
     def __init__(self, vector):
-        self.vector = np.asarray(vector)
+        self.vector = np.array(vector)
 
     def __call__(self, params):
         return Tensor(self.vector)
@@ -89,7 +89,7 @@ class Scalar(Func):
 class Vector(Func):
 
     def __init__(self, vector):
-        self.vector = np.asarray(vector)
+        self.vector = np.array(vector)
 
     def __call__(self, params):
         return Tensor(np.asarray(params[0]) * self.vector)
diff --git a/maxlike/func/func_base.py b/maxlike/func/func_base.py
index 104f989..3b0f7c1 100644
--- a/maxlike/func/func_base.py
+++ b/maxlike/func/func_base.py
@@ -224,8 +224,9 @@ class Affine(Func):
             self.b = a * base.b + b
         else:
             self.base = base
-            self.a = a
-            self.b = b
+            # copies, the caller may reuse its arrays
+            self.a = np.array(a) if isinstance(a, np.ndarray) else a
+            self.b = np.array(b) if isinstance(b, np.ndarray) else b
 
     def __call__(self, params):
         return self.a * self.base(params) + self.b
@@ -255,7 +256,7 @@ class Compose(Func):
         if not isinstance(g_list, (list, tuple)):
             self.g_list = [g_list]
         else:
-            self.g_list = g_list
+            self.g_list = list(g_list)
 
         self.f = f
 
diff --git a/maxlike/func/func_op.py b/maxlike/func/func_op.py
index 4b723d3..b34c4b6 100644
--- a/maxlike/func/func_op.py
+++ b/maxlike/func/func_op.py
@@ -36,6 +36,8 @@ class FuncWrap(Func):
         if feat_map is None:
             feat_map = []
         self.feat_map = IndexMap(feat_map)
+        if isinstance(feat_flip, list):
+            feat_flip = list(feat_flip)
         self.feat_flip = feat_flip
         if dim_map is None:
             self.dim_map = IndexMap(range(n_dim))
@@ -106,6 +108,8 @@ class Collapse(Func):
 
     def __init__(self, foo, sum_val=True, sum_dim=True):
         self.foo = foo
+        if isinstance(sum_val, list):
+            sum_val = list(sum_val)
         self.sum_val = sum_val
         self.sum_dim = sum_dim
 
diff --git a/maxlike/func/matrix.py b/maxlike/func/matrix.py
index 521a526..44d5ff9 100644
--- a/maxlike/func/matrix.py
+++ b/maxlike/func/matrix.py
@@ -22,7 +22,7 @@ class CollapseMatrix(Func):
         elif isinstance(conditions, tuple):
             self.conditions = [conditions]
         else:
-            self.conditions = list(conditions)
+            self.conditions = [tuple(c) for c in conditions]
 
     def __call__(self, params):
         """
@@ -66,7 +66,7 @@ class MarkovMatrix(Func):
         self.steps = steps
         if skew is None:
             skew = np.ones((size, size))
-        self.skew = skew
+        self.skew = np.array(skew)
 
     def __call__(self, params):
         s1 = np.asarray(params[0]) / self.steps
@@ -180,7 +180,7 @@ class MarkovVector(Func):
         self.steps = steps
         if skew is None:
             skew = np.ones((2 * size - 1,))
-        self.skew = skew
+        self.skew = np.array(skew)
 
     def __call__(self, params):
         s1 = np.asarray(params[0]) / self.steps
-- 
2.43.0


From 706b7f8288660424878f95c52a54eb13d39f6c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:33 +0000
Subject: [PATCH 47/57] fix: Sum misplaces array constants of its terms when it
 expands their features

---
 maxlike/func/func_op.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/maxlike/func/func_op.py b/maxlike/func/func_op.py
index b34c4b6..2d2cbef 100644
--- a/maxlike/func/func_op.py
+++ b/maxlike/func/func_op.py
@@ -175,7 +175,8 @@ class Sum(Func):
         elif isinstance(dim_map, int):
             dim_map = [dim_map]
 
-        if isinstance(foo, Affine):
+        if isinstance(foo, Affine) and np.ndim(foo.a) == np.ndim(foo.b) == 0:
+            # constants with features have to be expanded with the function
             self.b += weight * foo.b
             self.add(foo.base, param_map, feat_map, dim_map, weight * foo.a)
         elif isinstance(foo, Sum):
-- 
2.43.0


From 22413dcd668847c604fd21c2be4a255c6e75e852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:33 +0000
Subject: [PATCH 48/57] fix: array + function gives an array of functions

---
 maxlike/func/func_base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/maxlike/func/func_base.py b/maxlike/func/func_base.py
index 3b0f7c1..8cbe5f2 100644
--- a/maxlike/func/func_base.py
+++ b/maxlike/func/func_base.py
@@ -174,6 +174,9 @@ class FuncMeta(type):
 
 class Func(with_metaclass(FuncMeta, object)):
 
+    # array + function is a function, not an array of functions
+    __array_ufunc__ = None
+
     def __call__(self, params):
         raise NotImplementedError
 
-- 
2.43.0


From 31b4a92094a9d0a9d86a4c13606c88ab848cf583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:13 +0000
Subject: [PATCH 49/57] fix: fit divided by zero when the objective is null

---
 maxlike/maxlike_base.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/maxlike/maxlike_base.py b/maxlike/maxlike_base.py
index 2a8f873..22d986b 100644
--- a/maxlike/maxlike_base.py
+++ b/maxlike/maxlike_base.py
@@ -440,6 +440,11 @@ class MaxLike(with_metaclass(abc.ABCMeta)):
         
         return step, g, lgrad, lhess
 
+    @staticmethod
+    def _is_close(prev_g, g, tol):
+        # relative change of the objective, which may be null or tiny
+        return abs(prev_g - g) < tol * abs(g) + np.finfo(float).eps
+
     def fit(self, tol=1e-8, max_steps=20, verbose=0, method="Newton", **kwargs):
         """
         Run the algorithm to find the best fit.
@@ -502,7 +507,7 @@ class MaxLike(with_metaclass(abc.ABCMeta)):
                     new_flat_params = flat_params - mult * step
                     params = self._reshape_params(new_flat_params)
                     g = self.g(params, self.model(params))
-                    if g >= prev_g or abs(prev_g / g - 1) < tol:
+                    if g >= prev_g or self._is_close(prev_g, g, tol):
                         flat_params = new_flat_params
                         break
                     else:
@@ -514,7 +519,7 @@ class MaxLike(with_metaclass(abc.ABCMeta)):
                         "Error: the objective function did not increase " +
                         "after %d steps" % max_inner_steps, "step")
 
-                if abs(prev_g / g - 1) < tol:
+                if self._is_close(prev_g, g, tol):
                     self.params = params
                     self.flat_hess_ = hess
                     self.converged = True
@@ -548,7 +553,7 @@ class MaxLike(with_metaclass(abc.ABCMeta)):
                         params = self._reshape_params(
                             flat_params + step[:i1])
                         g = self.g(params)
-                        if g >= prev_g or abs(prev_g / g - 1) < tol:
+                        if g >= prev_g or self._is_close(prev_g, g, tol):
                             flat_params = flat_params + step[:i1]
                             break
                         step = .5 * step
@@ -560,7 +565,7 @@ class MaxLike(with_metaclass(abc.ABCMeta)):
                     if verbose > 0:
                         print(k + 1, g)
 
-                    if abs(prev_g / g - 1) < tol:
+                    if self._is_close(prev_g, g, tol):
                         self.params = params
                         self.flat_hess_ = pinvh(J)
                         self.converged = True
-- 
2.43.0


From f648484bffee9d84714d92d5b9b01790e93c9357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:08 +0000
Subject: [PATCH 50/57] fix: a fit returned although its constraints did not
 hold

---
 maxlike/maxlike_base.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/maxlike/maxlike_base.py b/maxlike/maxlike_base.py
index 22d986b..e645b62 100644
--- a/maxlike/maxlike_base.py
+++ b/maxlike/maxlike_base.py
@@ -445,6 +445,11 @@ class MaxLike(with_metaclass(abc.ABCMeta)):
         # relative change of the objective, which may be null or tiny
         return abs(prev_g - g) < tol * abs(g) + np.finfo(float).eps
 
+    def _is_feasible(self, params, tol):
+        # the constraints hold, up to the precision of the parameters
+        return all(abs(float(g([params[k] for k in param_map]))) < tol ** .5
+                   for param_map, _, g in self.constraint)
+
     def fit(self, tol=1e-8, max_steps=20, verbose=0, method="Newton", **kwargs):
         """
         Run the algorithm to find the best fit.
@@ -519,7 +524,8 @@ class MaxLike(with_metaclass(abc.ABCMeta)):
                         "Error: the objective function did not increase " +
                         "after %d steps" % max_inner_steps, "step")
 
-                if self._is_close(prev_g, g, tol):
+                if self._is_close(prev_g, g, tol) and \
+                   self._is_feasible(params, tol):
                     self.params = params
                     self.flat_hess_ = hess
                     self.converged = True
@@ -565,7 +571,8 @@ class MaxLike(with_metaclass(abc.ABCMeta)):
                     if verbose > 0:
                         print(k + 1, g)
 
-                    if self._is_close(prev_g, g, tol):
+                    if self._is_close(prev_g, g, tol) and \
+                       self._is_feasible(params, tol):
                         self.params = params
                         self.flat_hess_ = pinvh(J)
                         self.converged = True
-- 
2.43.0


From 8cb83e07c0cd564e1339a0faf41965165fb1509f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:14 +0000
Subject: [PATCH 51/57] fix: a fit returned in the middle of a cycle of steps

---
 maxlike/maxlike_base.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/maxlike/maxlike_base.py b/maxlike/maxlike_base.py
index e645b62..19d3dfa 100644
--- a/maxlike/maxlike_base.py
+++ b/maxlike/maxlike_base.py
@@ -445,6 +445,12 @@ class MaxLike(with_metaclass(abc.ABCMeta)):
         # relative change of the objective, which may be null or tiny
         return abs(prev_g - g) < tol * abs(g) + np.finfo(float).eps
 
+    def _is_stationary(self, grad, step, g, tol):
+        # no gain is expected from the step: when the iterations cycle, the
+        # objective stays the same but the gradient does not vanish
+        gain = np.dot(grad[:step.size], step) / float(self.N.sum())
+        return abs(gain) < tol ** .5 * abs(g) + np.finfo(float).eps
+
     def _is_feasible(self, params, tol):
         # the constraints hold, up to the precision of the parameters
         return all(abs(float(g([params[k] for k in param_map]))) < tol ** .5
@@ -525,6 +531,7 @@ class MaxLike(with_metaclass(abc.ABCMeta)):
                         "after %d steps" % max_inner_steps, "step")
 
                 if self._is_close(prev_g, g, tol) and \
+                   self._is_stationary(grad, step, g, tol) and \
                    self._is_feasible(params, tol):
                     self.params = params
                     self.flat_hess_ = hess
@@ -572,6 +579,7 @@ class MaxLike(with_metaclass(abc.ABCMeta)):
                         print(k + 1, g)
 
                     if self._is_close(prev_g, g, tol) and \
+                       self._is_stationary(grad, step[:i1], g, tol) and \
                        self._is_feasible(params, tol):
                         self.params = params
                         self.flat_hess_ = pinvh(J)
-- 
2.43.0


From 71249cfb6aef7670f48778637958bacb8c0ea411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:40 +0000
Subject: [PATCH 52/57] fix: adding a sum to itself, or a product, never ended

Sum.add and Product.add went through the terms of the given function while
appending to them.
---
 maxlike/func/func_op.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/maxlike/func/func_op.py b/maxlike/func/func_op.py
index 2d2cbef..38de98c 100644
--- a/maxlike/func/func_op.py
+++ b/maxlike/func/func_op.py
@@ -181,7 +181,7 @@ class Sum(Func):
             self.add(foo.base, param_map, feat_map, dim_map, weight * foo.a)
         elif isinstance(foo, Sum):
             self.b += weight * foo.b
-            for w, atom in foo.atoms:
+            for w, atom in list(foo.atoms):  # foo may be self
                 self.add(
                     atom.foo,
                     atom.param_map(param_map),
@@ -238,7 +238,7 @@ class Product(Func):
             dim_map = [dim_map]
 
         if isinstance(foo, Product):
-            for atom in foo.atoms:
+            for atom in list(foo.atoms):  # foo may be self
                 self.add(
                     atom.foo,
                     atom.param_map(param_map),
-- 
2.43.0


From 46fb1d14df341af833fb4374185e571c16400a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:51 +0000
Subject: [PATCH 53/57] fix: outer products, reductions and masked ufuncs of a
 tensor gave the plain ufunc

---
 maxlike/tensor/tensor.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/maxlike/tensor/tensor.py b/maxlike/tensor/tensor.py
index 61e65da..3921286 100644
--- a/maxlike/tensor/tensor.py
+++ b/maxlike/tensor/tensor.py
@@ -435,6 +435,11 @@ class GenericTensor(BaseTensor):
 
     def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
         name = ufunc.__name__
+
+        # Tensors have no reductions, outer products nor masked operations
+        if method != "__call__" or kwargs.get("where", True) is not True:
+            raise InvalidOperation('Invalid ufunc method:', name, method)
+
         try:
             op_type, rop_type = {
                 'add': (TensorOp.ADD, TensorOp.ADD),
@@ -986,6 +991,10 @@ class Tensor(BaseTensor):
     def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
         name = ufunc.__name__
 
+        # Tensors have no reductions, outer products nor masked operations
+        if method != "__call__" or kwargs.get("where", True) is not True:
+            raise InvalidOperation('Invalid ufunc method:', name, method)
+
         if name in (
             "exp", "log", "gamma", "square", "gammaln",
             "expit", "logit", "tanh", "arctan"):
-- 
2.43.0


From a597082baedce1af19a6268de8578e582ab97e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:57 +0000
Subject: [PATCH 54/57] fix: maximum and minimum of tensors of different ranks
 were not aligned

---
 maxlike/tensor/tensor.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/maxlike/tensor/tensor.py b/maxlike/tensor/tensor.py
index 3921286..3fd58d5 100644
--- a/maxlike/tensor/tensor.py
+++ b/maxlike/tensor/tensor.py
@@ -1010,8 +1010,21 @@ class Tensor(BaseTensor):
                     "{} only supported for Tensor".format(name) +
                     "for x_dim == y_dim == 0")
             other = inputs[1] if inputs[0] is self else inputs[0]
-            return Tensor(ufunc(self.values, other),
-                          x_dim=0, y_dim=0, dim=self.dim)
+            if isinstance(other, np.ndarray) and other.ndim == self.n:
+                other = Tensor(other)
+            if not isinstance(other, BaseTensor):
+                return Tensor(ufunc(self.values, other),
+                              x_dim=0, y_dim=0, dim=self.dim)
+            if not isinstance(other, Tensor) or \
+                    (other.x_dim > 0) | (other.y_dim > 0):
+                raise InvalidOperation(
+                    "{} only supported for Tensor".format(name) +
+                    "for x_dim == y_dim == 0")
+            n = max(self.n, other.n)
+            dim = max(self.dim, other.dim)
+            return Tensor(ufunc(self._align(0, 0, n, dim).values,
+                                other._align(0, 0, n, dim).values),
+                          x_dim=0, y_dim=0, dim=dim)
 
         try:
             op_type, rop_type = {
-- 
2.43.0


From efa82865539a1423327791c50221791ce82de529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:02 +0000
Subject: [PATCH 55/57] fix: the null entries of a mapped tensor stayed null
 when raised to a null or negative power

---
 maxlike/tensor/tensor.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/maxlike/tensor/tensor.py b/maxlike/tensor/tensor.py
index 3fd58d5..5a27b1e 100644
--- a/maxlike/tensor/tensor.py
+++ b/maxlike/tensor/tensor.py
@@ -820,6 +820,11 @@ class Tensor(BaseTensor):
             x_map=self.x_map, y_map=self.y_map)
 
     def __pow__(self, a):
+        if (self.x_map or self.y_map) and not np.all(np.asarray(a) > 0):
+            # null entries don't stay null
+            return Tensor(
+                np.power(self.toarray(), a),
+                x_dim=self.x_dim, y_dim=self.y_dim, dim=self.dim)
         return Tensor(
             np.power(self.values, a),
             x_dim=self.x_dim, y_dim=self.y_dim, dim=self.dim,
-- 
2.43.0


From 1ff67c38984258a89f56bb290fe95c9b6d496372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:56:32 +0000
Subject: [PATCH 56/57] fix: the zero-inflated Poisson likelihood overflowed
 for rates above 709

log(exp(exp(y)) + s - 1) is infinite there, so every fit of such data stopped
with a ConvergenceError although gradient and Hessian were finite.
---
 maxlike/maxlike.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/maxlike/maxlike.py b/maxlike/maxlike.py
index 3e79b2d..b12fee1 100644
--- a/maxlike/maxlike.py
+++ b/maxlike/maxlike.py
@@ -43,8 +43,9 @@ class ZeroInflatedPoisson(MaxLike):
         self.Z = None
 
     def like(self, params, y):
+        exp_y = np.exp(y)
         return (self.X * y + self.Z * np.log(self.s) -
-                self.N * np.log(np.exp(np.exp(y)) + self.s - 1) - 
+                self.N * (exp_y + np.log(1 + (self.s - 1) * np.exp(-exp_y))) -
                 gammaln(self.X + 1)).sum()
 
     def grad_like(self, params, y, der):
-- 
2.43.0


From 341765c39d714cd8dbda1af914b8dec11a04faf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:31:14 +0000
Subject: [PATCH 57/57] fix: error_matrix dropped the constraints of large data
 sets

The pseudo-inverse discards the eigenvalues that are small next to the largest
one. From about 1e7 observations on, those of a constraint were, and the
covariance became the one of the problem without it.
---
 maxlike/maxlike_base.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/maxlike/maxlike_base.py b/maxlike/maxlike_base.py
index 19d3dfa..9657c8e 100644
--- a/maxlike/maxlike_base.py
+++ b/maxlike/maxlike_base.py
@@ -302,8 +302,17 @@ class MaxLike(with_metaclass(abc.ABCMeta)):
             mask = self.flat_hess_.mask
         except AttributeError:
             mask = None
-        return self._reshape_matrix(
-            -np.ma.array(pinvh(self.flat_hess_.data), mask=mask))
+        hess = np.array(self.flat_hess_)
+        # pinvh discards small eigenvalues: give the constraints, which are
+        # defined up to a factor, the magnitude of the second derivatives
+        cut = hess.shape[0] - len(self.constraint)
+        top = np.abs(hess[:cut, :cut]).max(initial=0)
+        for k in range(cut, hess.shape[0]):
+            row = np.abs(hess[k, :cut]).max(initial=0)
+            if row > 0 and top > 0:
+                hess[k] *= top / row
+                hess[:, k] *= top / row
+        return self._reshape_matrix(-np.ma.array(pinvh(hess), mask=mask))
 
     def std_error(self):
         """
-- 
2.43.0

