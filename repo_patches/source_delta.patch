From e51bdd194ed346d2fa2d88080db6adbe21ff74b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:00 +0000
Subject: [PATCH 01/46] fix: subtract (not add) the number in in-place tensor
 subtraction

---
 src/sigmaepsilon/math/linalg/abstract.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sigmaepsilon/math/linalg/abstract.py b/src/sigmaepsilon/math/linalg/abstract.py
index 3e29bef..5145b9f 100644
--- a/src/sigmaepsilon/math/linalg/abstract.py
+++ b/src/sigmaepsilon/math/linalg/abstract.py
@@ -101,7 +101,7 @@ class AbstractTensor(TensorLike):
 
     def __isub__(self, other) -> TensorLike:
         if isinstance(other, numbers.Number):
-            self.array += other
+            self.array -= other
         elif isinstance(other, TensorLike):
             if not self.array.shape == other.array.shape:
                 raise TensorShapeMismatchError
-- 
2.43.0


From 20b1735c30b1311a6d669f9292c54d22e2520d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:00 +0000
Subject: [PATCH 02/46] fix: return the result of the shape test in
 TensorLike.is_bulk

---
 src/sigmaepsilon/math/linalg/meta.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sigmaepsilon/math/linalg/meta.py b/src/sigmaepsilon/math/linalg/meta.py
index d7228fb..c0e1077 100644
--- a/src/sigmaepsilon/math/linalg/meta.py
+++ b/src/sigmaepsilon/math/linalg/meta.py
@@ -483,7 +483,7 @@ class TensorLike(ArrayWrapper):
         if self._bulk:
             return True
         else:
-            not self.rank == len(self.array.shape)
+            return not self.rank == len(self.array.shape)
 
 
 ArrayLike = Union[ArrayWrapper, ndarray, Array]
-- 
2.43.0


From f0c6c926ae068565d563bf181ffc6d1978e29a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:00 +0000
Subject: [PATCH 03/46] fix: write the determinant to the output of det2x2 and
 det3x3

---
 src/sigmaepsilon/math/linalg/utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sigmaepsilon/math/linalg/utils.py b/src/sigmaepsilon/math/linalg/utils.py
index 6d0f17e..63ce482 100644
--- a/src/sigmaepsilon/math/linalg/utils.py
+++ b/src/sigmaepsilon/math/linalg/utils.py
@@ -701,9 +701,9 @@ def ATBAw(A: ndarray, B: ndarray, w: float = 1.0) -> ndarray:
     return w * (A.T @ B @ A)
 
 
-@guv(["(f8[:, :], f8)"], "(n, n) -> ()", nopython=True, cache=__cache)
+@guv(["(f8[:, :], f8[:])"], "(n, n) -> ()", nopython=True, cache=__cache)
 def det3x3(A, res):
-    res = (
+    res[0] = (
         A[0, 0] * A[1, 1] * A[2, 2]
         - A[0, 0] * A[1, 2] * A[2, 1]
         - A[0, 1] * A[1, 0] * A[2, 2]
@@ -713,9 +713,9 @@ def det3x3(A, res):
     )
 
 
-@guv(["(f8[:, :], f8)"], "(n, n) -> ()", nopython=True, cache=__cache)
+@guv(["(f8[:, :], f8[:])"], "(n, n) -> ()", nopython=True, cache=__cache)
 def det2x2(A, res):
-    res = A[0, 0] * A[1, 1] - A[0, 1] * A[1, 0]
+    res[0] = A[0, 0] * A[1, 1] - A[0, 1] * A[1, 0]
 
 
 @njit(nogil=True, cache=__cache)
-- 
2.43.0


From 9eb19a83b34f3667a068d80246d7e6014551af3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:00 +0000
Subject: [PATCH 04/46] fix: make the frame own a contiguous float copy of
 assigned axes

---
 src/sigmaepsilon/math/linalg/frame.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/sigmaepsilon/math/linalg/frame.py b/src/sigmaepsilon/math/linalg/frame.py
index 399d3a9..b0e116d 100644
--- a/src/sigmaepsilon/math/linalg/frame.py
+++ b/src/sigmaepsilon/math/linalg/frame.py
@@ -292,12 +292,9 @@ class ReferenceFrame(FrameLike):
         """
         Sets the array of the frame.
         """
-        if isinstance(value, np.ndarray):
-            buf = value
-        else:
-            if not issequence(value):
-                raise TypeError("'value' must be some kind of iterable")
-            buf = np.array(value).astype(float)
+        if not isinstance(value, np.ndarray) and not issequence(value):
+            raise TypeError("'value' must be some kind of iterable")
+        buf = np.array(value, dtype=float, order="C")
         value = self._array_cls_(shape=buf.shape, buffer=buf, dtype=buf.dtype)
         if value.shape == self._array.shape:
             if self._weakrefs and len(self._weakrefs) > 0:
-- 
2.43.0


From ebffc0f92b6d8de8076753c38316c2bcdd13c193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:00 +0000
Subject: [PATCH 05/46] fix: update the tensors of a frame all together or not
 at all

---
 src/sigmaepsilon/math/linalg/frame.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sigmaepsilon/math/linalg/frame.py b/src/sigmaepsilon/math/linalg/frame.py
index b0e116d..90e08b6 100644
--- a/src/sigmaepsilon/math/linalg/frame.py
+++ b/src/sigmaepsilon/math/linalg/frame.py
@@ -300,8 +300,9 @@ class ReferenceFrame(FrameLike):
             if self._weakrefs and len(self._weakrefs) > 0:
                 target = ReferenceFrame(value)
                 dcm = self.dcm(target=target)
-                for v in self._weakrefs.values():
-                    arr = v.show(dcm=dcm)
+                tensors = list(self._weakrefs.values())
+                arrays = [v.show(dcm=dcm) for v in tensors]
+                for v, arr in zip(tensors, arrays):
                     v.array = arr
             self._array = value
         else:
-- 
2.43.0


From 4a40b2d192aa32f6a8912a62b46466dac733c2a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:00 +0000
Subject: [PATCH 06/46] fix: cross product of vectors in frames that are not
 orthonormal

---
 src/sigmaepsilon/math/linalg/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sigmaepsilon/math/linalg/utils.py b/src/sigmaepsilon/math/linalg/utils.py
index 63ce482..8fede4e 100644
--- a/src/sigmaepsilon/math/linalg/utils.py
+++ b/src/sigmaepsilon/math/linalg/utils.py
@@ -315,7 +315,9 @@ def cross(
         ra, rb = a.rank, b.rank
         result = None
         if ra == 1 and rb == 1:
-            arr = np.cross(a.array, b.show(a.frame), axis=0)
+            arr = np.cross(a.show(), b.show(), axis=0)
+            if arr.ndim > 0:
+                arr = a.__class__(arr).show(a.frame)
             result = a.__class__(arr, frame=a.frame)
         elif ra == 2 and rb == 1:
             arr = np.cross(a.show(), b.show(), axis=0)
-- 
2.43.0


From c68439dec3deae3d8a55ac7ee83b203d1abeb092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:00 +0000
Subject: [PATCH 07/46] fix: dot product of a vector and a second order tensor

---
 src/sigmaepsilon/math/linalg/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sigmaepsilon/math/linalg/utils.py b/src/sigmaepsilon/math/linalg/utils.py
index 8fede4e..cc83a8a 100644
--- a/src/sigmaepsilon/math/linalg/utils.py
+++ b/src/sigmaepsilon/math/linalg/utils.py
@@ -220,7 +220,7 @@ def dot(
             arr = (a.array @ b.show(a.frame.dual()).T).T
             result = b.__class__(arr, frame=a.frame)
         elif ra == 1 and rb == 2:
-            arr = (a.array.T @ b.show(a.frame.dual()).T).T
+            arr = a.show(a.frame.dual()) @ b.show(a.frame)
             result = a.__class__(arr, frame=a.frame)
         elif ra == 2 and rb == 2:
             g = a.frame.Gram()
-- 
2.43.0


From b6e07c9b5aa1dd62e24d5a1e3f5c195bad11d71f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:00 +0000
Subject: [PATCH 08/46] fix: transform fourth order tensors of any dimension,
 not just 3

---
 src/sigmaepsilon/math/linalg/tr.py | 36 ++++++++++++++++--------------
 1 file changed, 19 insertions(+), 17 deletions(-)

diff --git a/src/sigmaepsilon/math/linalg/tr.py b/src/sigmaepsilon/math/linalg/tr.py
index aae5901..f8e7ae6 100644
--- a/src/sigmaepsilon/math/linalg/tr.py
+++ b/src/sigmaepsilon/math/linalg/tr.py
@@ -125,15 +125,16 @@ def _tr_3333_sym(array: Iterable, Q: ndarray) -> ndarray:
 
 @njit(nogil=True, parallel=False, fastmath=True, cache=__cache)
 def _tr_3333(array: ndarray, Q: ndarray) -> ndarray:
-    res = np.zeros((3, 3, 3, 3), dtype=array.dtype)
-    for p in prange(3):
-        for q in prange(3):
-            for r in prange(3):
-                for s in prange(3):
-                    for i in prange(3):
-                        for j in prange(3):
-                            for k in prange(3):
-                                for m in prange(3):
+    n = array.shape[0]
+    res = np.zeros((n, n, n, n), dtype=array.dtype)
+    for p in prange(n):
+        for q in prange(n):
+            for r in prange(n):
+                for s in prange(n):
+                    for i in prange(n):
+                        for j in prange(n):
+                            for k in prange(n):
+                                for m in prange(n):
                                     res[i, j, k, m] += (
                                         Q[i, p]
                                         * Q[j, q]
@@ -146,14 +147,15 @@ def _tr_3333(array: ndarray, Q: ndarray) -> ndarray:
 
 @njit(nogil=True, parallel=False, fastmath=True, cache=__cache)
 def _tr_3333_out(array: ndarray, Q: ndarray, out: ndarray) -> ndarray:
-    for p in prange(3):
-        for q in prange(3):
-            for r in prange(3):
-                for s in prange(3):
-                    for i in prange(3):
-                        for j in prange(3):
-                            for k in prange(3):
-                                for m in prange(3):
+    n = array.shape[0]
+    for p in prange(n):
+        for q in prange(n):
+            for r in prange(n):
+                for s in prange(n):
+                    for i in prange(n):
+                        for j in prange(n):
+                            for k in prange(n):
+                                for m in prange(n):
                                     out[i, j, k, m] += (
                                         Q[i, p]
                                         * Q[j, q]
-- 
2.43.0


From 21d6f685e291a9f4267182cd011c7fe3e6df5e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:00 +0000
Subject: [PATCH 09/46] fix: transform nested collections of fourth order
 tensors with one matrix

---
 src/sigmaepsilon/math/linalg/tr.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sigmaepsilon/math/linalg/tr.py b/src/sigmaepsilon/math/linalg/tr.py
index f8e7ae6..57d5137 100644
--- a/src/sigmaepsilon/math/linalg/tr.py
+++ b/src/sigmaepsilon/math/linalg/tr.py
@@ -87,6 +87,9 @@ def _tr_tensors4x3(arr: ndarray, Q: ndarray) -> ndarray:
         return _tr_3333(arr, Q)
     elif n_shape_arr == 5 and n_shape_Q == 2:
         return _tr_3333_multi3(arr, Q)
+    elif n_shape_arr >= 6 and n_shape_Q == 2:
+        res = _tr_3333_multi3(arr.reshape((-1,) + shape_arr[-4:]), Q)
+        return res.reshape(shape_arr)
     elif n_shape_arr == 5 and n_shape_Q == 3:
         return _tr_3333_multi(arr, Q)
     elif n_shape_arr == 6 and n_shape_Q == 3:
-- 
2.43.0


From 5915f4aa4a5cb22e07f507ee6c0b50d515e282d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:00 +0000
Subject: [PATCH 10/46] fix: dual and orientation of collections of vectors

---
 src/sigmaepsilon/math/linalg/vector.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sigmaepsilon/math/linalg/vector.py b/src/sigmaepsilon/math/linalg/vector.py
index 7741607..6db6981 100644
--- a/src/sigmaepsilon/math/linalg/vector.py
+++ b/src/sigmaepsilon/math/linalg/vector.py
@@ -114,7 +114,7 @@ class Vector(AbstractTensor):
         """
         # NOTE Strictly this should be self.frame.Gram().T @ self.array,
         # but since the Gram matrix is symmetric, it's cheaper like this
-        a = self.frame.Gram() @ self.array
+        a = show_vector(self.frame.Gram(), self.array)
         return self.__class__(a, frame=self.frame.dual())
 
     def show(self, target: Frame = None, *, dcm: ndarray = None) -> ndarray:
@@ -164,7 +164,7 @@ class Vector(AbstractTensor):
         """
         if not isinstance(dcm, ndarray):
             fcls = self.__class__._frame_cls_
-            dcm = fcls.eye(dim=len(self)).orient_new(*args, **kwargs).dcm()
+            dcm = fcls.eye(dim=self.array.shape[-1]).orient_new(*args, **kwargs).dcm()
             # self.array = dcm.T @ self._array
             self.array = show_vector(dcm.T, self.array)
             # self.array = np.linalg.inv(dcm) @ self._array
@@ -192,8 +192,8 @@ class Vector(AbstractTensor):
         :func:`orient`
         """
         fcls = self.__class__._frame_cls_
-        dcm = fcls.eye(dim=len(self)).orient_new(*args, **kwargs).dcm()
-        array = dcm.T @ self._array
+        dcm = fcls.eye(dim=self.array.shape[-1]).orient_new(*args, **kwargs).dcm()
+        array = show_vector(dcm.T, self.array)
         # FIXME check if inversion is necessary or not
         # array = np.linalg.inv(dcm) @ self._array
         return Vector(array, frame=self.frame)
-- 
2.43.0


From 05458f1bd627a4945d1e6e0cb7358b746821c47b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:00 +0000
Subject: [PATCH 11/46] fix: keep the frame of a tensor when copying it

---
 src/sigmaepsilon/math/linalg/tensor.py | 6 +++---
 src/sigmaepsilon/math/linalg/vector.py | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/sigmaepsilon/math/linalg/tensor.py b/src/sigmaepsilon/math/linalg/tensor.py
index 6bc6309..7a106b7 100644
--- a/src/sigmaepsilon/math/linalg/tensor.py
+++ b/src/sigmaepsilon/math/linalg/tensor.py
@@ -1,4 +1,4 @@
-from copy import deepcopy as dcopy
+from copy import copy as scopy, deepcopy as dcopy
 
 import numpy as np
 from numpy import ndarray
@@ -177,9 +177,9 @@ class Tensor(AbstractTensor):
         argument `deepcopy` (default is False).
         """
         if deep:
-            return self.__class__(dcopy(self.array), name=name)
+            return dcopy(self)
         else:
-            return self.__class__(self.array, name=name)
+            return scopy(self)
 
     def deepcopy(self, name: str = None) -> "Tensor":
         """
diff --git a/src/sigmaepsilon/math/linalg/vector.py b/src/sigmaepsilon/math/linalg/vector.py
index 6db6981..2f19bda 100644
--- a/src/sigmaepsilon/math/linalg/vector.py
+++ b/src/sigmaepsilon/math/linalg/vector.py
@@ -1,4 +1,4 @@
-from copy import deepcopy as dcopy
+from copy import copy as scopy, deepcopy as dcopy
 
 from numpy import ndarray
 import numbers
@@ -204,9 +204,9 @@ class Vector(AbstractTensor):
         argument `deepcopy` (default is False).
         """
         if deep:
-            return self.__class__(dcopy(self.array), name=name)
+            return dcopy(self)
         else:
-            return self.__class__(self.array, name=name)
+            return scopy(self)
 
     def deepcopy(self, name: str = None) -> "Vector":
         """
-- 
2.43.0


From d38307bdc12808010ef2cfcf2fd60f5e3337def1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:00 +0000
Subject: [PATCH 12/46] fix: derive collections of tensors as collections

---
 src/sigmaepsilon/math/linalg/abstract.py | 10 +++++-----
 src/sigmaepsilon/math/linalg/meta.py     | 14 ++++++++++++--
 src/sigmaepsilon/math/linalg/tensor.py   |  4 ++--
 src/sigmaepsilon/math/linalg/vector.py   |  4 ++--
 4 files changed, 21 insertions(+), 11 deletions(-)

diff --git a/src/sigmaepsilon/math/linalg/abstract.py b/src/sigmaepsilon/math/linalg/abstract.py
index 5145b9f..7a1356c 100644
--- a/src/sigmaepsilon/math/linalg/abstract.py
+++ b/src/sigmaepsilon/math/linalg/abstract.py
@@ -48,7 +48,7 @@ class AbstractTensor(TensorLike):
         if not isinstance(other, numbers.Number):
             raise TypeError("The multiplier must be a scalar.")
         arr = self.array * other
-        return self.__class__(arr, frame=self.frame)
+        return self.__class__(arr, frame=self.frame, **self._like_params)
 
     def __imatmul__(self, other) -> TensorLike:
         raise LinalgInvalidTensorOperationError("Use a dot product.")
@@ -73,7 +73,7 @@ class AbstractTensor(TensorLike):
             fcls = cls._frame_cls_
             frame = _new_and_init_(fcls, deepcopy(self.frame.axes))
             arr = self.array + other.show(self.frame)
-            return cls(arr, frame=frame)
+            return cls(arr, frame=frame, **self._like_params)
         else:
             raise TypeError(
                 (
@@ -90,7 +90,7 @@ class AbstractTensor(TensorLike):
             fcls = cls._frame_cls_
             frame = _new_and_init_(fcls, deepcopy(self.frame.axes))
             arr = self.array - other.show(self.frame)
-            return cls(arr, frame=frame)
+            return cls(arr, frame=frame, **self._like_params)
         else:
             raise TypeError(
                 (
@@ -118,7 +118,7 @@ class AbstractTensor(TensorLike):
         if not isinstance(other, numbers.Number):
             raise TypeError("The multiplier must be a scalar.")
         arr = self.array / other
-        return self.__class__(arr, frame=self.frame)
+        return self.__class__(arr, frame=self.frame, **self._like_params)
 
     def __ipow__(self, other) -> TensorLike:
         raise NotImplementedError("This operation is not implemented yet.")
@@ -155,7 +155,7 @@ def negative_implementation(method, *args, **kwargs):
         raise LinalgOperationInputError(msg)
     obj = args[0]
     arr = getattr(np.negative, method)(obj._array, **kwargs)
-    return obj.__class__(arr, frame=obj.frame)
+    return obj.__class__(arr, frame=obj.frame, **obj._like_params)
 
 
 @implements(np.dot)
diff --git a/src/sigmaepsilon/math/linalg/meta.py b/src/sigmaepsilon/math/linalg/meta.py
index c0e1077..445a155 100644
--- a/src/sigmaepsilon/math/linalg/meta.py
+++ b/src/sigmaepsilon/math/linalg/meta.py
@@ -338,6 +338,14 @@ class TensorLike(ArrayWrapper):
         else:
             self._rank = None
 
+    @property
+    def _like_params(self) -> dict:
+        """
+        Returns the parameters necessary to create a tensor of the same kind.
+        """
+        params = dict(bulk=self._bulk, rank=self._rank)
+        return {k: v for k, v in params.items() if v is not None}
+
     def __deepcopy__(self, memo):
         return self.__copy__(memo)
 
@@ -358,7 +366,7 @@ class TensorLike(ArrayWrapper):
         if is_deep:
             memo[id(self.array)] = arr
 
-        return cls(arr, frame=frame)
+        return cls(arr, frame=frame, **self._like_params)
 
     @classmethod
     def _from_any_input(cls, *args, **kwargs) -> "TensorLike":
@@ -464,7 +472,9 @@ class TensorLike(ArrayWrapper):
         else:
             f = self.frame
             frame = f.__class__(np.copy(f.axes))
-            return self.__class__(np.transpose(self.array, indices), frame=frame)
+            return self.__class__(
+                np.transpose(self.array, indices), frame=frame, **self._like_params
+            )
 
     @abstractmethod
     def show(self) -> Array: ...
diff --git a/src/sigmaepsilon/math/linalg/tensor.py b/src/sigmaepsilon/math/linalg/tensor.py
index 7a106b7..88e1a60 100644
--- a/src/sigmaepsilon/math/linalg/tensor.py
+++ b/src/sigmaepsilon/math/linalg/tensor.py
@@ -88,7 +88,7 @@ class Tensor(AbstractTensor):
         Returns the tensor described in the dual (or reciprocal) frame.
         """
         a = self.transform_components(self.frame.Gram())
-        return self.__class__(a, frame=self.frame.dual())
+        return self.__class__(a, frame=self.frame.dual(), **self._like_params)
 
     def transform_components(self, Q: ndarray) -> ndarray:
         """
@@ -169,7 +169,7 @@ class Tensor(AbstractTensor):
         fcls: Frame = self.__class__._frame_cls_
         dcm = fcls.eye(dim=self.frame.shape[-1]).orient_new(*args, **kwargs).dcm()
         array = self.transform_components(dcm.T)
-        return self.__class__(array, frame=self.frame)
+        return self.__class__(array, frame=self.frame, **self._like_params)
 
     def copy(self, deep: bool = False, name: str = None) -> "Tensor":
         """
diff --git a/src/sigmaepsilon/math/linalg/vector.py b/src/sigmaepsilon/math/linalg/vector.py
index 2f19bda..34ec13f 100644
--- a/src/sigmaepsilon/math/linalg/vector.py
+++ b/src/sigmaepsilon/math/linalg/vector.py
@@ -115,7 +115,7 @@ class Vector(AbstractTensor):
         # NOTE Strictly this should be self.frame.Gram().T @ self.array,
         # but since the Gram matrix is symmetric, it's cheaper like this
         a = show_vector(self.frame.Gram(), self.array)
-        return self.__class__(a, frame=self.frame.dual())
+        return self.__class__(a, frame=self.frame.dual(), **self._like_params)
 
     def show(self, target: Frame = None, *, dcm: ndarray = None) -> ndarray:
         """
@@ -196,7 +196,7 @@ class Vector(AbstractTensor):
         array = show_vector(dcm.T, self.array)
         # FIXME check if inversion is necessary or not
         # array = np.linalg.inv(dcm) @ self._array
-        return Vector(array, frame=self.frame)
+        return Vector(array, frame=self.frame, **self._like_params)
 
     def copy(self, deep: bool = False, name: str = None) -> "Vector":
         """
-- 
2.43.0


From fca0f8fec2cfe2a9085b89288f0a5d3201193d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:20 +0000
Subject: [PATCH 13/46] fix: keep array methods of frames and tensors in step
 with their data

After assigning axes or transposing in place, methods forwarded to the
wrapped array (sum, tolist, ...) still operated on the previous data.
---
 src/sigmaepsilon/math/linalg/frame.py | 1 +
 src/sigmaepsilon/math/linalg/meta.py  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/sigmaepsilon/math/linalg/frame.py b/src/sigmaepsilon/math/linalg/frame.py
index 90e08b6..a21e673 100644
--- a/src/sigmaepsilon/math/linalg/frame.py
+++ b/src/sigmaepsilon/math/linalg/frame.py
@@ -305,6 +305,7 @@ class ReferenceFrame(FrameLike):
                 for v, arr in zip(tensors, arrays):
                     v.array = arr
             self._array = value
+            self.wrap(value)
         else:
             raise ValueError("Mismatch in data dimensinons!")
 
diff --git a/src/sigmaepsilon/math/linalg/meta.py b/src/sigmaepsilon/math/linalg/meta.py
index 445a155..5c70f5e 100644
--- a/src/sigmaepsilon/math/linalg/meta.py
+++ b/src/sigmaepsilon/math/linalg/meta.py
@@ -468,6 +468,7 @@ class TensorLike(ArrayWrapper):
         indices = data_indices + tensor_indices[::-1]
         if inplace:
             self._array = np.transpose(self.array, indices)
+            self.wrap(self._array)
             return self
         else:
             f = self.frame
-- 
2.43.0


From f0b9feb122f00b95be52642715f6665d32bdb5cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:20 +0000
Subject: [PATCH 14/46] fix: reject axes that violate the regularity of the
 frame class

RectangularFrame and CartesianFrame check their axes at creation, but any
axes could be assigned later, silently breaking Gram, dual and volume and
hence every tensor registered to the frame.
---
 src/sigmaepsilon/math/linalg/frame.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/sigmaepsilon/math/linalg/frame.py b/src/sigmaepsilon/math/linalg/frame.py
index a21e673..fad2b97 100644
--- a/src/sigmaepsilon/math/linalg/frame.py
+++ b/src/sigmaepsilon/math/linalg/frame.py
@@ -297,6 +297,7 @@ class ReferenceFrame(FrameLike):
         buf = np.array(value, dtype=float, order="C")
         value = self._array_cls_(shape=buf.shape, buffer=buf, dtype=buf.dtype)
         if value.shape == self._array.shape:
+            self._verify_axes(value)
             if self._weakrefs and len(self._weakrefs) > 0:
                 target = ReferenceFrame(value)
                 dcm = self.dcm(target=target)
@@ -309,6 +310,11 @@ class ReferenceFrame(FrameLike):
         else:
             raise ValueError("Mismatch in data dimensinons!")
 
+    def _verify_axes(self, axes: ndarray):
+        """
+        Raises an error if the axes are not admissible for the class.
+        """
+
     def show(self, target: "ReferenceFrame" = None) -> ndarray:
         """
         Returns the components of the current frame in a target frame.
@@ -669,6 +675,10 @@ class RectangularFrame(ReferenceFrame):
                 self.axes
             ), "This frame is not rectangular, check your input!"
 
+    def _verify_axes(self, axes: ndarray):
+        if len(axes.shape) == 2 and not is_rectangular_frame(axes):
+            raise ValueError("This frame is not rectangular, check your input!")
+
     @property
     def is_rectangular(self) -> bool:
         """
@@ -765,6 +775,10 @@ class CartesianFrame(RectangularFrame):
                     self.axes
                 ), "This frame is not cartesian, check your input!"
 
+    def _verify_axes(self, axes: ndarray):
+        if len(axes.shape) == 2 and not is_orthonormal_frame(axes):
+            raise ValueError("This frame is not cartesian, check your input!")
+
     @property
     def is_rectangular(self) -> bool:
         """
-- 
2.43.0


From e26bd9a32a3cba520c03a094e021724d920c2e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:20 +0000
Subject: [PATCH 15/46] fix: check the last pivot in Gauss-Jordan elimination

A singular system could be reported as solved with nan or inf values.
---
 src/sigmaepsilon/math/linalg/solve.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/sigmaepsilon/math/linalg/solve.py b/src/sigmaepsilon/math/linalg/solve.py
index 8e0054b..66dea8b 100644
--- a/src/sigmaepsilon/math/linalg/solve.py
+++ b/src/sigmaepsilon/math/linalg/solve.py
@@ -203,17 +203,16 @@ def _GaussJordan(
                 B[iROW] -= A[iROW, iEQ] * presc_val[iEQ]
                 A[iROW, iEQ] = 0.0
         else:
-            if iEQ < nEQ - 1:
-                pivot = A[iEQ, iEQ]
-                if abs(pivot) < 1e-12:
-                    raise Exception("The matrix is singular!")
-                for iROW in range(iEQ + 1, nEQ):
-                    factor = A[iROW, iEQ] / pivot
-                    if abs(factor) < 1e-12:
-                        continue
-                    for iCOL in range(nEQ):
-                        A[iROW, iCOL] -= factor * A[iEQ, iCOL]
-                    B[iROW] -= factor * B[iEQ]
+            pivot = A[iEQ, iEQ]
+            if abs(pivot) < 1e-12:
+                raise Exception("The matrix is singular!")
+            for iROW in range(iEQ + 1, nEQ):
+                factor = A[iROW, iEQ] / pivot
+                if abs(factor) < 1e-12:
+                    continue
+                for iCOL in range(nEQ):
+                    A[iROW, iCOL] -= factor * A[iEQ, iCOL]
+                B[iROW] -= factor * B[iEQ]
     return A, B
 
 
-- 
2.43.0


From b189b710d5d5f967f6b92c3c462a9636d121078d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:47 +0000
Subject: [PATCH 16/46] fix: solve systems of equations given with integers

None of the methods worked, and elimination reported regular matrices as
singular.
---
 src/sigmaepsilon/math/linalg/solve.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sigmaepsilon/math/linalg/solve.py b/src/sigmaepsilon/math/linalg/solve.py
index 66dea8b..8552dcb 100644
--- a/src/sigmaepsilon/math/linalg/solve.py
+++ b/src/sigmaepsilon/math/linalg/solve.py
@@ -99,6 +99,8 @@ def linsolve(
     array([11.,  6., 10.])
 
     """
+    A = A if np.issubdtype(A.dtype, np.inexact) else A.astype(np.float64)
+    B = B if np.issubdtype(B.dtype, np.inexact) else B.astype(np.float64)
     # FIXME : check if presc_bool and presc_val have matching shape to A and B
     # FIXME : check if presc_bool is a boolean array
     if method == "numpy":
-- 
2.43.0


From 195dc6610e771217f74970279477a19479b33a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:47 +0000
Subject: [PATCH 17/46] fix: deduce the shape of a CSR matrix from the column
 indices

The number of columns was taken as the number of values in the longest row,
resulting in invalid matrices for rows that do not start at the first column.
---
 src/sigmaepsilon/math/linalg/sparse/csr.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sigmaepsilon/math/linalg/sparse/csr.py b/src/sigmaepsilon/math/linalg/sparse/csr.py
index 5f568e0..42f4609 100644
--- a/src/sigmaepsilon/math/linalg/sparse/csr.py
+++ b/src/sigmaepsilon/math/linalg/sparse/csr.py
@@ -149,7 +149,8 @@ class csr_matrix:
             self.indices = np.array(indices).astype(np.int32)
             self.indptr = np.array(indptr).astype(np.int32)
             if shape is None:
-                shape = get_shape_sp(indptr)
+                nC = self.indices.max() + 1 if len(self.indices) > 0 else 0
+                shape = (len(self.indptr) - 1, int(nC))
             self.shape = shape
 
     def to_numpy(self) -> np.ndarray:
-- 
2.43.0


From d63a9eedf8a890817450d6e6cf2742c86e48685d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:47 +0000
Subject: [PATCH 18/46] fix: count the columns of a CSR matrix from its row
 boundaries

The function read beyond the end of the inputs and subtracted column indices.
---
 src/sigmaepsilon/math/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sigmaepsilon/math/utils.py b/src/sigmaepsilon/math/utils.py
index 4ab8234..4bc8042 100644
--- a/src/sigmaepsilon/math/utils.py
+++ b/src/sigmaepsilon/math/utils.py
@@ -460,10 +460,10 @@ def count_cols_csr(indptr: ndarray, indices: ndarray) -> ndarray:
     --------
     :class:`~sigmaepsilon.math.linalg.sparse.csr.csr_matrix`
     """
-    n = len(indptr)
+    n = len(indptr) - 1
     res = np.zeros(n, dtype=indptr.dtype)
     for i in prange(n):
-        res[i] = indices[indptr[i + 1]] - indices[indptr[i]]
+        res[i] = indptr[i + 1] - indptr[i]
     return res
 
 
-- 
2.43.0


From b23c8c1f0e34a52a887cf151bf6418ca69b40071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:47 +0000
Subject: [PATCH 19/46] fix: find every pair of equal rows

Integer arrays of the same length were only compared row by row, and
the distance of rows was truncated if the first input had integers.
---
 src/sigmaepsilon/math/utils.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/sigmaepsilon/math/utils.py b/src/sigmaepsilon/math/utils.py
index 4bc8042..beede9f 100644
--- a/src/sigmaepsilon/math/utils.py
+++ b/src/sigmaepsilon/math/utils.py
@@ -390,11 +390,7 @@ def indices_of_equal_rows(x: ndarray, y: ndarray, tol=1e-12):
     square = nX == nY
     integer = isintegerarray(x) and isintegerarray(y)
     if integer:
-        if square:
-            inds = np.flatnonzero((x == y).all(1))
-            return inds, np.copy(inds)
-        else:
-            return indices_of_equal_rows_njit(x, y, 0)
+        return indices_of_equal_rows_njit(x, y, 0)
     else:
         if square:
             return indices_of_equal_rows_square_njit(x, y, tol)
@@ -404,7 +400,7 @@ def indices_of_equal_rows(x: ndarray, y: ndarray, tol=1e-12):
 
 @njit(nogil=True, parallel=True, cache=__cache)
 def indices_of_equal_rows_njit(x: ndarray, y: ndarray, tol: float = 1e-12):
-    R = np.zeros((x.shape[0], y.shape[0]), dtype=x.dtype)
+    R = np.zeros((x.shape[0], y.shape[0]), dtype=np.float64)
     for i in prange(R.shape[0]):
         for j in prange(R.shape[1]):
             R[i, j] = np.sum(np.abs(x[i] - y[j]))
@@ -418,7 +414,7 @@ def indices_of_equal_rows_square_njit(x: ndarray, y: ndarray, tol=1e-12):
         n = nx
     else:
         n = ny
-    R = np.zeros((n, n), dtype=x.dtype)
+    R = np.zeros((n, n), dtype=np.float64)
     for i in prange(n):
         for j in prange(n):
             R[i, j] = np.sum(np.abs(x[i] - y[j]))
-- 
2.43.0


From 05d27767c226273eb2c6b4e51066257ae470b048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:47 +0000
Subject: [PATCH 20/46] fix: do not truncate integer values mapped to a range

---
 src/sigmaepsilon/math/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sigmaepsilon/math/utils.py b/src/sigmaepsilon/math/utils.py
index beede9f..25dbaba 100644
--- a/src/sigmaepsilon/math/utils.py
+++ b/src/sigmaepsilon/math/utils.py
@@ -493,7 +493,7 @@ def repeat_diagonal_2d(a: ndarray, N: int = 2) -> ndarray:
 
 @njit(nogil=True, parallel=True, cache=__cache)
 def _to_range_1d_(vals: ndarray, source: ndarray, target: ndarray):
-    res = np.zeros_like(vals)
+    res = np.zeros(vals.shape, dtype=np.float64)
     s0, s1 = source
     t0, t1 = target
     b = (t1 - t0) / (s1 - s0)
-- 
2.43.0


From 0985c99e759c69fefcc35211f54a23e8f22625bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:16 +0000
Subject: [PATCH 21/46] fix: recognise float and integer arrays of every
 precision

---
 src/sigmaepsilon/math/logical.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sigmaepsilon/math/logical.py b/src/sigmaepsilon/math/logical.py
index 71348a8..c406b34 100644
--- a/src/sigmaepsilon/math/logical.py
+++ b/src/sigmaepsilon/math/logical.py
@@ -16,14 +16,14 @@ def isfloatarray(a: ndarray) -> bool:
     """
     Returns `True` if `a` is a float array.
     """
-    return np.issubdtype(a.dtype, float)
+    return np.issubdtype(a.dtype, np.floating)
 
 
 def isintegerarray(a: ndarray) -> bool:
     """
     Returns `True` if `a` is an integer array.
     """
-    return np.issubdtype(a.dtype, int)
+    return np.issubdtype(a.dtype, np.integer)
 
 
 def isintarray(a: ndarray) -> bool:
-- 
2.43.0


From 59779463c75721345044bee8ff86f766d079a91d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:16 +0000
Subject: [PATCH 22/46] fix: build the level structure of graphs that are not
 connected

The search never ended if some of the nodes could not be reached.
---
 src/sigmaepsilon/math/graph/utils.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/sigmaepsilon/math/graph/utils.py b/src/sigmaepsilon/math/graph/utils.py
index 7702be0..cbdc593 100644
--- a/src/sigmaepsilon/math/graph/utils.py
+++ b/src/sigmaepsilon/math/graph/utils.py
@@ -48,9 +48,12 @@ def rooted_level_structure(adj: csr_matrix, root: int = 0) -> Dict:
         for iN in range(nN):
             if nodes[iN] == 1:
                 levelset[iN] = 0
+        new_nodes = np.where(levelset == 1)[0]
+        if len(new_nodes) == 0:
+            break  # the remaining nodes are not connected to the root
         level += 1
-        rls[level] = np.where(levelset == 1)[0]
-        nE += len(rls[level])
+        rls[level] = new_nodes
+        nE += len(new_nodes)
         for iN in range(nN):
             if levelset[iN] == 1:
                 nodes[iN] = 1
-- 
2.43.0


From 99986e95d421053af5fdedd265bab6308de0c169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:16 +0000
Subject: [PATCH 23/46] fix: respect the arguments of nearest neighbour
 searches

Default sampling points, the maximum distance and the extra arguments of the
query had no effect or raised an error, and the MLS approximator failed with
one neighbour and truncated integer data.
---
 src/sigmaepsilon/math/approx/mls.py | 12 ++++++++++--
 src/sigmaepsilon/math/knn.py        |  5 +++--
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/sigmaepsilon/math/approx/mls.py b/src/sigmaepsilon/math/approx/mls.py
index 23c3524..a68b3f3 100644
--- a/src/sigmaepsilon/math/approx/mls.py
+++ b/src/sigmaepsilon/math/approx/mls.py
@@ -159,8 +159,14 @@ class MLSApproximator:
         self._factors = val
 
     def _calc_factors_and_neighbours(self, X_S: ndarray, X_T: ndarray) -> None:
-        self.neighbours = self._get_neighbours(X_S, X_T, **self._knn_config)
-        self.factors = np.ones_like(self.neighbours) / self.neighbours.shape[-1]
+        neighbours = self._get_neighbours(X_S, X_T, **self._knn_config)
+        neighbours = neighbours.reshape(len(X_T), -1)
+        # missing neighbours are marked with the number of source points
+        found = neighbours < len(X_S)
+        n_found = np.sum(found, axis=-1, keepdims=True)
+        with np.errstate(invalid="ignore"):
+            self.factors = np.where(found | (n_found == 0), found / n_found, 0.0)
+        self.neighbours = np.where(found, neighbours, 0)
 
     @staticmethod
     def _get_neighbours(
@@ -192,6 +198,8 @@ class MLSApproximator:
         factors = self.factors
 
         data = self.Y_S
+        if not np.issubdtype(data.dtype, np.inexact):
+            data = data.astype(float)
         if len(self.Y_S.shape) == 1:
             data = atleast2d(data, back=True)
 
diff --git a/src/sigmaepsilon/math/knn.py b/src/sigmaepsilon/math/knn.py
index 234184d..cc098be 100644
--- a/src/sigmaepsilon/math/knn.py
+++ b/src/sigmaepsilon/math/knn.py
@@ -88,7 +88,8 @@ def k_nearest_neighbours(
 
     """
     tree_kwargs = {} if tree_kwargs is None else tree_kwargs
-    query_kwargs = {} if query_kwargs is None else query_kwargs
+    query_kwargs = {} if query_kwargs is None else dict(query_kwargs)
+    Y = X if Y is None else Y
     if backend == "scipy":
         tree = KD_scipy(X, leafsize=leaf_size, **tree_kwargs)
         max_distance = np.inf if max_distance is None else max_distance
@@ -101,7 +102,7 @@ def k_nearest_neighbours(
             )
             d, i = tree.query(Y, k=k, **query_kwargs)
         else:
-            d, i = tree.query(Y, k=k, workers=workers)
+            d, i = tree.query(Y, k=k, workers=workers, **query_kwargs)
     elif backend == "sklearn":  # pragma: no cover
         if not __has_sklearn__:
             raise ImportError("'sklearn' must be installed for this!")
-- 
2.43.0


From eb19ae8a1d5cf6ea08610cb6d869cc2f3a4390f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:16 +0000
Subject: [PATCH 24/46] fix: mate the parents of the smallest population

No parents were generated from a pool of two, so a population of four could
not be created.
---
 src/sigmaepsilon/math/optimize/ga.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/sigmaepsilon/math/optimize/ga.py b/src/sigmaepsilon/math/optimize/ga.py
index e58f7eb..9b5157c 100644
--- a/src/sigmaepsilon/math/optimize/ga.py
+++ b/src/sigmaepsilon/math/optimize/ga.py
@@ -596,10 +596,8 @@ class GeneticAlgorithm:
         n = len(genotypes)
         assert n % 2 == 0, "'n' must be a multiple of 2"
         pool = np.full(n, True)
-        nPool = n
-        while nPool > 2:
+        for _ in range(n // 2):
             where = np.argwhere(pool == True).flatten()
-            nPool = len(where)
             pair = np.random.choice(where, 2, replace=False)
             parent1 = genotypes[pair[0]]
             parent2 = genotypes[pair[1]]
-- 
2.43.0


From 40527fba34c30dd3701583a6c8c72b05a7f5ed0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:16 +0000
Subject: [PATCH 25/46] fix: support every elitism setting in the binary
 genetic algorithm

The algorithm failed without elitism, or if an odd number of elites exceeded
half of the population.
---
 src/sigmaepsilon/math/optimize/bga.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sigmaepsilon/math/optimize/bga.py b/src/sigmaepsilon/math/optimize/bga.py
index 10b5fe6..4deea20 100644
--- a/src/sigmaepsilon/math/optimize/bga.py
+++ b/src/sigmaepsilon/math/optimize/bga.py
@@ -98,12 +98,12 @@ class BinaryGeneticAlgorithm(GeneticAlgorithm):
 
         if nParent < nPop:
             offspring = []
-            g = self.random_parents_generator(genotypes)
+            g = self.random_parents_generator(genotypes[: nParent - nParent % 2])
             try:
                 while (len(offspring) + nParent) < nPop:
                     parent1, parent2 = next(g)
                     offspring.extend(self.crossover(parent1, parent2))
-                genotypes = np.vstack([genotypes, offspring])
+                genotypes = np.vstack([genotypes, offspring[: nPop - nParent]])
             except Exception:  # pragma: no cover
                 raise RuntimeError
 
@@ -185,7 +185,7 @@ class BinaryGeneticAlgorithm(GeneticAlgorithm):
                 "but only the default case (both None) is currently supported."
             )
         winners, others = self.divide(fitness)
-        winners = winners.tolist()
+        winners = list(winners)
         while len(winners) < int(self.nPop / 2):
             candidates = np.random.choice(others, 3, replace=False)
             argsort = np.argsort([fitness[ID] for ID in candidates])
-- 
2.43.0


From 53765309f75e46cc15cc4195632d9273ab57e402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:16 +0000
Subject: [PATCH 26/46] fix: derive the variables of expressions in a fixed
 order

The order depended on the hash seed of the process, so that functions like
Rosenbrock took their arguments in a different order from run to run and did
not match their optimums.
---
 src/sigmaepsilon/math/function/symutils.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/sigmaepsilon/math/function/symutils.py b/src/sigmaepsilon/math/function/symutils.py
index 190ed39..9547f45 100644
--- a/src/sigmaepsilon/math/function/symutils.py
+++ b/src/sigmaepsilon/math/function/symutils.py
@@ -32,8 +32,7 @@ def decode(
         expr = parse_expr(str_expr, evaluate=False)
 
     if not variables:
-        variables = []
-        variables = tuple(expr.free_symbols)
+        variables = tuple(sorted(expr.free_symbols, key=str))
     else:
         if not all([isinstance(v, (sy.Expr, sy.Symbol)) for v in variables]):
             variables = list(symbols(variables))
@@ -89,7 +88,7 @@ def substitute(
         will help you avoid this issue.
     """
     if variables is None:
-        variables = tuple(expr.free_symbols)
+        variables = tuple(sorted(expr.free_symbols, key=str))
 
     if not as_string:
         return expr.subs([(v, val) for v, val in zip(variables, values)])
-- 
2.43.0


From a57a878b45f0c37f27223d216548582540dc0e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:16 +0000
Subject: [PATCH 27/46] fix: optimum of the Rosenbrock function with other than
 default parameters

---
 src/sigmaepsilon/math/function/functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sigmaepsilon/math/function/functions.py b/src/sigmaepsilon/math/function/functions.py
index e392f48..c5f20ee 100644
--- a/src/sigmaepsilon/math/function/functions.py
+++ b/src/sigmaepsilon/math/function/functions.py
@@ -21,11 +21,11 @@ def Rosenbrock(a: float = 1, b: float = 100) -> TestMinFunction2D:
 
     a,b are constants, tipically a is set to 1 and  b is set to 100.
 
-    One global minimum : f(1, 1) = 0.
+    One global minimum : f(a, a^2) = 0.
     """
     str_expr = "(a-x)**2 + b*(y-x**2)**2"
     expr = substitute(sy.sympify(str_expr), [a, b], ["a", "b"])
-    return TestMinFunction2D(**symbolize(expr=expr), optimums=[(1.0, 1.0)])
+    return TestMinFunction2D(**symbolize(expr=expr), optimums=[(a, a**2)])
 
 
 def Himmelblau() -> TestMinFunction2D:
-- 
2.43.0


From 1bd876e3f972a1d64a846a906bc043ae2df8b8fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:16 +0000
Subject: [PATCH 28/46] fix: substitute for some of the variables of a function

The result took the substituted variables as arguments instead of the ones
that remained, and without explicit variables the values were assigned in an
arbitrary order.
---
 src/sigmaepsilon/math/function/function.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/sigmaepsilon/math/function/function.py b/src/sigmaepsilon/math/function/function.py
index 0feb7e2..2dcb4b6 100644
--- a/src/sigmaepsilon/math/function/function.py
+++ b/src/sigmaepsilon/math/function/function.py
@@ -356,8 +356,14 @@ class Function(MetaFunction):
         if not self.is_symbolic:
             raise TypeError("This is exclusive to symbolic functions.")
 
-        expr = substitute(self.expr, values, variables, as_string=self.from_str)
-        kwargs = self._sympy_to_func(expr=expr, variables=variables)
+        variables = self.variables if variables is None else variables
+        names = [str(v) for v in variables]
+        own = {str(v): v for v in self.variables}
+        expr = substitute(self.expr, values, [own.get(n, n) for n in names])
+        remaining = [v for n, v in own.items() if n not in names]
+        kwargs = self._sympy_to_func(
+            expr=expr, variables=remaining if remaining else variables
+        )
 
         if not inplace:
             return Function(None, None, None, **kwargs)
-- 
2.43.0


From ca171aef4e4f2067d2a777068dfd1adbc257eafe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:16 +0000
Subject: [PATCH 29/46] fix: second derivatives of the cubic weight function at
 its core

---
 src/sigmaepsilon/math/approx/functions.py | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/src/sigmaepsilon/math/approx/functions.py b/src/sigmaepsilon/math/approx/functions.py
index 887bd6a..cc8b904 100644
--- a/src/sigmaepsilon/math/approx/functions.py
+++ b/src/sigmaepsilon/math/approx/functions.py
@@ -183,10 +183,7 @@ class CubicWeightFunction(MLSWeightFunction):
         dmX = self.supportdomain[0]
         rX = abs(difX) / dmX
 
-        if abs(difX) < 1e-12:
-            drdX = 0
-        else:
-            drdX = (difX / abs(difX)) / dmX
+        drdX = (-1 if difX < 0 else 1) / dmX
 
         if rX <= 0.5:
             wX = 2 / 3 - 4 * rX**2 + 4 * rX**3
@@ -216,15 +213,9 @@ class CubicWeightFunction(MLSWeightFunction):
         rX = abs(difX) / dmX
         rY = abs(difY) / dmY
 
-        if abs(difX) < 1e-12:
-            drdX = 0
-        else:
-            drdX = (difX / abs(difX)) / dmX
+        drdX = (-1 if difX < 0 else 1) / dmX
 
-        if abs(difY) < 1e-12:
-            drdY = 0
-        else:
-            drdY = (difY / abs(difY)) / dmY
+        drdY = (-1 if difY < 0 else 1) / dmY
 
         if rX <= 0.5:
             wX = 2 / 3 - 4 * rX**2 + 4 * rX**3
-- 
2.43.0


From 479f1251b6ce607187c2923c8baeb6ca4554c329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:14 +0000
Subject: [PATCH 30/46] fix: refused in-place change of a Cartesian frame
 leaves its tensors attached

The tensors were first moved to the resulting frame and stayed there if the
new axes turned out to be inadmissible.
---
 src/sigmaepsilon/math/linalg/frame.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/sigmaepsilon/math/linalg/frame.py b/src/sigmaepsilon/math/linalg/frame.py
index fad2b97..ed3eaf6 100644
--- a/src/sigmaepsilon/math/linalg/frame.py
+++ b/src/sigmaepsilon/math/linalg/frame.py
@@ -39,11 +39,10 @@ def inplace_binary(
     new_axes = np.zeros_like(axes)
     bop(axes, other, out=(new_axes,))
     if rtype:
-        result = rtype(axes)
+        result = rtype(new_axes)
         tensors = list(obj._weakrefs.values())
         for t in tensors:
             t.frame = result
-        result.axes = new_axes
     else:
         obj.axes = new_axes
         result = obj
-- 
2.43.0


From 16414c2f68d94e04f77ed7ecb5dfb273d6c3a45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:34 +0000
Subject: [PATCH 31/46] fix: reduce systems of integers in floating point

---
 src/sigmaepsilon/math/linalg/solve.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sigmaepsilon/math/linalg/solve.py b/src/sigmaepsilon/math/linalg/solve.py
index 8552dcb..3d7351d 100644
--- a/src/sigmaepsilon/math/linalg/solve.py
+++ b/src/sigmaepsilon/math/linalg/solve.py
@@ -150,6 +150,8 @@ def reduce(
     elif method == "Jordan":
         fnc = _Jordan
     if fnc is not None:
+        A = A if np.issubdtype(A.dtype, np.inexact) else A.astype(np.float64)
+        B = B if np.issubdtype(B.dtype, np.inexact) else B.astype(np.float64)
         try:
             if presc_bool is None:
                 nEQ = len(B)
-- 
2.43.0


From f602b8c412755428ce2e31becfad8114d140e964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:43 +0000
Subject: [PATCH 32/46] fix: inverse of a 2 by 2 matrix of integers

---
 src/sigmaepsilon/math/linalg/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sigmaepsilon/math/linalg/utils.py b/src/sigmaepsilon/math/linalg/utils.py
index cc83a8a..92c6a11 100644
--- a/src/sigmaepsilon/math/linalg/utils.py
+++ b/src/sigmaepsilon/math/linalg/utils.py
@@ -722,7 +722,7 @@ def det2x2(A, res):
 
 @njit(nogil=True, cache=__cache)
 def inv2x2(A) -> ndarray:
-    res = np.zeros_like(A)
+    res = np.zeros(A.shape, dtype=np.float64)
     d = A[0, 0] * A[1, 1] - A[0, 1] * A[1, 0]
     res[0, 0] = A[1, 1] / d
     res[1, 1] = A[0, 0] / d
-- 
2.43.0


From 4f6ded2e62b141b4fa71507d0320ae5818d16fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:43 +0000
Subject: [PATCH 33/46] fix: points between two coinciding points

---
 src/sigmaepsilon/math/linalg/utils.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/sigmaepsilon/math/linalg/utils.py b/src/sigmaepsilon/math/linalg/utils.py
index 92c6a11..92bd018 100644
--- a/src/sigmaepsilon/math/linalg/utils.py
+++ b/src/sigmaepsilon/math/linalg/utils.py
@@ -659,12 +659,10 @@ def inv_sym_3x3(m: Matrix, as_adj_det=False) -> Matrix:
 def vpath(p1: ndarray, p2: ndarray, n: int) -> ndarray:
     nD = len(p1)
     dist = p2 - p1
-    length = np.linalg.norm(dist)
-    s = np.linspace(0, length, n)
+    s = np.linspace(0, 1, n)
     res = np.zeros((n, nD), dtype=p1.dtype)
-    d = dist / length
     for i in prange(n):
-        res[i] = p1 + s[i] * d
+        res[i] = p1 + s[i] * dist
     return res
 
 
@@ -859,11 +857,7 @@ def norm2d(A) -> ndarray:
 
 @njit(nogil=True, parallel=True, cache=__cache)
 def _linspace(p0: ndarray, p1: ndarray, N):
-    s = p1 - p0
-    L = np.linalg.norm(s)
-    n = s / L
-    djac = L / (N - 1)
-    step = n * djac
+    step = (p1 - p0) / (N - 1)
     res = np.zeros((N, p0.shape[0]))
     res[0] = p0
     for i in prange(1, N - 1):
-- 
2.43.0


From 8b1646ee6755cf9e2da59278e65953198b53f414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:43 +0000
Subject: [PATCH 34/46] fix: refuse one-sided inverses that do not exist

---
 src/sigmaepsilon/math/linalg/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/sigmaepsilon/math/linalg/utils.py b/src/sigmaepsilon/math/linalg/utils.py
index 92bd018..25c1d74 100644
--- a/src/sigmaepsilon/math/linalg/utils.py
+++ b/src/sigmaepsilon/math/linalg/utils.py
@@ -893,6 +893,8 @@ def generalized_left_inverse(matrix: ndarray) -> ndarray:
         \\end{equation}
 
     """
+    if np.linalg.matrix_rank(matrix) < matrix.shape[1]:
+        raise np.linalg.LinAlgError("The matrix has no left inverse")
     return np.linalg.inv(matrix.T @ matrix) @ matrix.T
 
 
@@ -907,6 +909,8 @@ def generalized_right_inverse(matrix: ndarray) -> ndarray:
         \\end{equation}
 
     """
+    if np.linalg.matrix_rank(matrix) < matrix.shape[0]:
+        raise np.linalg.LinAlgError("The matrix has no right inverse")
     return matrix.T @ np.linalg.inv(matrix @ matrix.T)
 
 
-- 
2.43.0


From 4eaca2c694142cc9983ba30c79a32c43f7eefac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:43 +0000
Subject: [PATCH 35/46] fix: definiteness of singular matrices

---
 src/sigmaepsilon/math/linalg/logical.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/sigmaepsilon/math/linalg/logical.py b/src/sigmaepsilon/math/linalg/logical.py
index bdb58bd..6619753 100644
--- a/src/sigmaepsilon/math/linalg/logical.py
+++ b/src/sigmaepsilon/math/linalg/logical.py
@@ -18,18 +18,27 @@ __all__ = [
 ]
 
 
+def _zero_eigval_tol(eigvals: ndarray) -> float:
+    """
+    Returns the limit below which an eigenvalue is zero up to rounding.
+    """
+    return 4 * len(eigvals) * np.finfo(float).eps * np.abs(eigvals).max()
+
+
 def is_pos_def(arr) -> bool:
     """
     Returns True if the input is positive definite.
     """
-    return np.all(np.linalg.eigvals(arr) > 0)
+    w = np.linalg.eigvals(arr)
+    return np.all(w > _zero_eigval_tol(w))
 
 
 def is_pos_semidef(arr) -> bool:
     """
     Returns True if the input is positive semi definite.
     """
-    return np.all(np.linalg.eigvals(arr) >= 0)
+    w = np.linalg.eigvals(arr)
+    return np.all(w >= -_zero_eigval_tol(w))
 
 
 def is_rectangular_frame(axes: ndarray) -> bool:
-- 
2.43.0


From 8951dc8fd722636a8c6ada463fd3c38ac1fd2c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:43 +0000
Subject: [PATCH 36/46] fix: frames with dependent base vectors are not
 independent

---
 src/sigmaepsilon/math/linalg/logical.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sigmaepsilon/math/linalg/logical.py b/src/sigmaepsilon/math/linalg/logical.py
index 6619753..d1e558b 100644
--- a/src/sigmaepsilon/math/linalg/logical.py
+++ b/src/sigmaepsilon/math/linalg/logical.py
@@ -90,7 +90,9 @@ def is_independent_frame(axes: ndarray, tol: float = 0) -> bool:
     axes: numpy.ndarray
         A matrix where the i-th row is the i-th basis vector.
     """
-    return np.linalg.det(Gram(axes)) > tol
+    gram = Gram(axes)
+    full_rank = np.linalg.matrix_rank(axes) == axes.shape[-2]
+    return full_rank & (np.linalg.det(gram) > tol)
 
 
 def is_hermitian(arr: ndarray) -> bool:
-- 
2.43.0


From 64a60876c147303712e353ea487cdc6ed2559809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:09 +0000
Subject: [PATCH 37/46] fix: definiteness of singular matrices in the general
 predicates

---
 src/sigmaepsilon/math/logical.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/sigmaepsilon/math/logical.py b/src/sigmaepsilon/math/logical.py
index c406b34..625703e 100644
--- a/src/sigmaepsilon/math/logical.py
+++ b/src/sigmaepsilon/math/logical.py
@@ -62,6 +62,13 @@ def issymmetric(a: ndarray, tol: float = 1e-8) -> bool:
     return np.linalg.norm(a - a.T) < tol
 
 
+def _zero_eigval_tol(eigvals: ndarray) -> float:
+    """
+    Returns the limit below which an eigenvalue is zero up to rounding.
+    """
+    return 4 * len(eigvals) * np.finfo(float).eps * np.abs(eigvals).max()
+
+
 def isposdef(A: ndarray, tol=0) -> bool:
     """
     Returns `True` if `A` is positive definite.
@@ -80,7 +87,8 @@ def isposdef(A: ndarray, tol=0) -> bool:
     False
 
     """
-    return np.all(np.linalg.eigvals(A) > tol)
+    w = np.linalg.eigvals(A)
+    return np.all(w > max(tol, _zero_eigval_tol(w)))
 
 
 def ispossemidef(A: ndarray) -> bool:
@@ -96,7 +104,8 @@ def ispossemidef(A: ndarray) -> bool:
     True
 
     """
-    return np.all(np.linalg.eigvals(A) >= 0)
+    w = np.linalg.eigvals(A)
+    return np.all(w >= -_zero_eigval_tol(w))
 
 
 def isclose(
-- 
2.43.0


From f6ad3d183e31c4814348cc725d5384baf2a9d431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:15 +0000
Subject: [PATCH 38/46] fix: lists of matrices with the same number of rows but
 different widths

---
 src/sigmaepsilon/math/linalg/sparse/jaggedarray.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/sigmaepsilon/math/linalg/sparse/jaggedarray.py b/src/sigmaepsilon/math/linalg/sparse/jaggedarray.py
index a344838..e8d6a7b 100644
--- a/src/sigmaepsilon/math/linalg/sparse/jaggedarray.py
+++ b/src/sigmaepsilon/math/linalg/sparse/jaggedarray.py
@@ -155,7 +155,10 @@ class JaggedArray(NDArrayOperatorsMixin, Wrapper):
         if isinstance(wrap, akarray) and force_numpy:
             N = len(np.unique(count_cols(wrap)))
             if N == 1:
-                wrap = wrap.to_numpy()
+                try:
+                    wrap = wrap.to_numpy()
+                except ValueError:
+                    pass  # matrices with the same number of rows, but not of columns
         super(JaggedArray, self).__init__(wrap=wrap)
 
     def __repr__(self):
-- 
2.43.0


From 05038f38dce2a8844b60c055afeb2d383749f20f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:10:14 +0000
Subject: [PATCH 39/46] fix: is_linear must answer for every symbolic function
 and reject products of variables

---
 src/sigmaepsilon/math/function/function.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/sigmaepsilon/math/function/function.py b/src/sigmaepsilon/math/function/function.py
index 2dcb4b6..0da6ada 100644
--- a/src/sigmaepsilon/math/function/function.py
+++ b/src/sigmaepsilon/math/function/function.py
@@ -2,9 +2,8 @@ from typing import TypeVar, Callable, Iterable
 from collections import OrderedDict
 import warnings
 
-from sympy import Expr, degree, latex
+from sympy import Expr, Poly, PolynomialError, latex
 from sympy.core.numbers import One
-import numpy as np
 
 from sigmaepsilon.core.kwargtools import getasany
 
@@ -234,9 +233,11 @@ class Function(MetaFunction):
         Returns `True` if the function is at most linear in all of its variables.
         """
         if self.is_symbolic:
-            return all(
-                np.array([degree(self.expr, v) for v in self.variables], dtype=int) <= 1
-            )
+            try:
+                poly = Poly(self.expr, *self.variables)
+            except PolynomialError:
+                return False
+            return bool(poly.total_degree() <= 1)
         else:
             return self.f2 is None
 
-- 
2.43.0


From b75927631707e02acfdee28f0696cd735bf78eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:10:28 +0000
Subject: [PATCH 40/46] fix: coefficients of a function with irrational or
 factored coefficients were lost

---
 src/sigmaepsilon/math/function/function.py | 4 ++--
 src/sigmaepsilon/math/function/symutils.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sigmaepsilon/math/function/function.py b/src/sigmaepsilon/math/function/function.py
index 0da6ada..f0ef432 100644
--- a/src/sigmaepsilon/math/function/function.py
+++ b/src/sigmaepsilon/math/function/function.py
@@ -307,8 +307,8 @@ class Function(MetaFunction):
 
         try:
             d = OrderedDict({x: 0 for x in self.variables})
-            expr = self.expr.simplify()
-            d.update(expr.as_coefficients_dict())
+            expr = self.expr.simplify().expand()
+            d.update(expr.as_coefficients_dict(*self.variables))
             if not normalize:
                 return d
             else:
diff --git a/src/sigmaepsilon/math/function/symutils.py b/src/sigmaepsilon/math/function/symutils.py
index 9547f45..39fad9b 100644
--- a/src/sigmaepsilon/math/function/symutils.py
+++ b/src/sigmaepsilon/math/function/symutils.py
@@ -134,7 +134,7 @@ def coefficients(
         variables = tuple(expr.free_symbols)
 
     d = dict({x: 0 for x in variables})
-    d.update(expr.as_coefficients_dict())
+    d.update(expr.expand().as_coefficients_dict(*variables))
 
     if not normalize:
         return d
-- 
2.43.0


From 2a10e1adb98ce6df81b2f297039cc343bbbab7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:19:08 +0000
Subject: [PATCH 41/46] fix: constraints of linear programs given by a callable
 operator were ignored or reversed

---
 src/sigmaepsilon/math/optimize/lp.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/sigmaepsilon/math/optimize/lp.py b/src/sigmaepsilon/math/optimize/lp.py
index a40c1f6..0a448f8 100644
--- a/src/sigmaepsilon/math/optimize/lp.py
+++ b/src/sigmaepsilon/math/optimize/lp.py
@@ -162,6 +162,12 @@ class LinearProgrammingProblem:
                 if not constraint.is_symbolic:
                     raise ValueError("The constraints must be symbolic!")
 
+                if not isinstance(constraint, Equality) and not (
+                    isinstance(constraint, InEquality)
+                    and (constraint.op or constraint.op_str)
+                ):
+                    raise ValueError("The operators of the constraints must be known!")
+
                 self.constraints.append(constraint)
                 _variables += constraint.variables
             else:
@@ -254,14 +260,15 @@ class LinearProgrammingProblem:
                 A_ub_multiplier = 1
                 b_ub_multiplier = 1
                 b_ub_adjustment = 0.0
-                if ieq.op == Relations.ge:
+                op = ieq.op or Relations(ieq.op_str)
+                if op == Relations.ge:
                     A_ub_multiplier = -1
                     b_ub_multiplier = -1
-                elif ieq.op == Relations.gt:
+                elif op == Relations.gt:
                     A_ub_multiplier = -1
                     b_ub_multiplier = -1
                     b_ub_adjustment = -SMALLNUM
-                elif ieq.op == Relations.lt:
+                elif op == Relations.lt:
                     b_ub_adjustment = -SMALLNUM
 
                 if self._sparsify:
-- 
2.43.0


From b9c190cc4c8ad4244cae7812d0a8fec2e91dfa74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:50:33 +0000
Subject: [PATCH 42/46] fix: accept sample points given as a list in
 moving_least_squares

---
 src/sigmaepsilon/math/approx/ls.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sigmaepsilon/math/approx/ls.py b/src/sigmaepsilon/math/approx/ls.py
index 69dc37b..66f2271 100644
--- a/src/sigmaepsilon/math/approx/ls.py
+++ b/src/sigmaepsilon/math/approx/ls.py
@@ -22,6 +22,9 @@ def moving_least_squares(
     Moving least squares approximation. The usage is the same as for the
     :func:`~sigmaepsilon.math.approx.ls.weighted_least_squares` function.
     """
+    if not isinstance(points, ndarray):
+        points = np.array(points)
+
     dim = 1 if len(points.shape) == 1 else points.shape[1]
 
     if not isMLSWeightFunction(w):
-- 
2.43.0


From b5ea7f87cd5cb54c4648422825b57656748a3049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:02:29 +0000
Subject: [PATCH 43/46] fix: compare rows of unsigned integers without
 wrap-around in indices_of_equal_rows

---
 src/sigmaepsilon/math/utils.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/sigmaepsilon/math/utils.py b/src/sigmaepsilon/math/utils.py
index 25dbaba..957c1ca 100644
--- a/src/sigmaepsilon/math/utils.py
+++ b/src/sigmaepsilon/math/utils.py
@@ -390,7 +390,7 @@ def indices_of_equal_rows(x: ndarray, y: ndarray, tol=1e-12):
     square = nX == nY
     integer = isintegerarray(x) and isintegerarray(y)
     if integer:
-        return indices_of_equal_rows_njit(x, y, 0)
+        return indices_of_identical_rows_njit(x, y)
     else:
         if square:
             return indices_of_equal_rows_square_njit(x, y, tol)
@@ -398,6 +398,16 @@ def indices_of_equal_rows(x: ndarray, y: ndarray, tol=1e-12):
             return indices_of_equal_rows_njit(x, y, tol)
 
 
+@njit(nogil=True, parallel=True, cache=__cache)
+def indices_of_identical_rows_njit(x: ndarray, y: ndarray):
+    # differences of unsigned integers would wrap around
+    R = np.zeros((x.shape[0], y.shape[0]), dtype=np.int64)
+    for i in prange(R.shape[0]):
+        for j in prange(R.shape[1]):
+            R[i, j] = np.sum(x[i] != y[j])
+    return np.where(R == 0)
+
+
 @njit(nogil=True, parallel=True, cache=__cache)
 def indices_of_equal_rows_njit(x: ndarray, y: ndarray, tol: float = 1e-12):
     R = np.zeros((x.shape[0], y.shape[0]), dtype=np.float64)
-- 
2.43.0


From f3ed37a1204165fb847742fa1d8ac46a45a8ac5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:02:29 +0000
Subject: [PATCH 44/46] fix: do not truncate the bin centers of integer bin
 edges

---
 src/sigmaepsilon/math/hist.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sigmaepsilon/math/hist.py b/src/sigmaepsilon/math/hist.py
index b74a9f2..02d4af9 100644
--- a/src/sigmaepsilon/math/hist.py
+++ b/src/sigmaepsilon/math/hist.py
@@ -17,7 +17,7 @@ def histogram(data, bins, *args, return_edges=False, **kwargs):
 
 @njit(nogil=True, parallel=True, cache=True)
 def bin_centers(bin_edges: np.ndarray):
-    res = np.zeros(bin_edges.shape[0] - 1, dtype=bin_edges.dtype)
+    res = np.zeros(bin_edges.shape[0] - 1, dtype=np.float64)
     for i in prange(res.shape[0]):
         res[i] = (bin_edges[i] + bin_edges[i + 1]) / 2
     return res
-- 
2.43.0


From a1b078f66f63ca8948a1865f7b072304b21de967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:02:29 +0000
Subject: [PATCH 45/46] fix: keep fractional increments when tiling integer
 arrays

---
 src/sigmaepsilon/math/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sigmaepsilon/math/utils.py b/src/sigmaepsilon/math/utils.py
index 957c1ca..6a4fcf6 100644
--- a/src/sigmaepsilon/math/utils.py
+++ b/src/sigmaepsilon/math/utils.py
@@ -366,7 +366,7 @@ def tile(a: ndarray, da: ndarray, N: int = 1) -> ndarray:
            [[ 2, -2]]])
 
     """
-    res = np.zeros((N, a.shape[0], a.shape[1]), dtype=a.dtype)
+    res = np.zeros((N, a.shape[0], a.shape[1]), dtype=(a + da).dtype)
     for i in prange(N):
         res[i, :, :] = a + i * da
     return res
@@ -375,7 +375,7 @@ def tile(a: ndarray, da: ndarray, N: int = 1) -> ndarray:
 @njit(nogil=True, parallel=True, cache=__cache)
 def tile1d(a: ndarray, da: ndarray, N=1) -> ndarray:
     M = a.shape[0]
-    res = np.zeros(N * M, dtype=a.dtype)
+    res = np.zeros(N * M, dtype=(a + da).dtype)
     for i in prange(N):
         res[i * M : (i + 1) * M] = a + i * da
     return res
-- 
2.43.0


From 94f9fa0904230307d99b82a02d4be9bf50ee3fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:26 +0000
Subject: [PATCH 46/46] fix: writing items of a frame changed the vectors and
 tensors described in it

---
 src/sigmaepsilon/math/linalg/frame.py | 5 +++++
 src/sigmaepsilon/math/linalg/meta.py  | 2 +-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/sigmaepsilon/math/linalg/frame.py b/src/sigmaepsilon/math/linalg/frame.py
index ed3eaf6..f11e2df 100644
--- a/src/sigmaepsilon/math/linalg/frame.py
+++ b/src/sigmaepsilon/math/linalg/frame.py
@@ -314,6 +314,11 @@ class ReferenceFrame(FrameLike):
         Raises an error if the axes are not admissible for the class.
         """
 
+    def __setitem__(self, key, value):
+        axes = np.array(self.axes)
+        axes[key] = value
+        self.axes = axes
+
     def show(self, target: "ReferenceFrame" = None) -> ndarray:
         """
         Returns the components of the current frame in a target frame.
diff --git a/src/sigmaepsilon/math/linalg/meta.py b/src/sigmaepsilon/math/linalg/meta.py
index 5c70f5e..bda186d 100644
--- a/src/sigmaepsilon/math/linalg/meta.py
+++ b/src/sigmaepsilon/math/linalg/meta.py
@@ -164,7 +164,7 @@ class ArrayWrapper(NDArrayOperatorsMixin, Wrapper):
         ~`sigmaepsilon.math.linalg.meta.ArrayWrapper`
             The object the call was made upon.
         """
-        self._array[np.where(np.abs(self._array) < tol)] = 0.0
+        self[np.where(np.abs(self._array) < tol)] = 0.0
         return self
 
     def __array__(self, dtype=None):
-- 
2.43.0

