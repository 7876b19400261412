From 2f63ffb1134940b3785e3d70464035240c8c8dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:07 +0000
Subject: [PATCH 01/34] fix: inner product arrays of handles take the data type
 of all inner products

The array had the type of the first inner product only, so that later
real values were truncated to integers, and complex ones to their real
parts.
---
 modred/vectorspace.py | 63 ++++++++++++++++++++++++++-----------------
 1 file changed, 39 insertions(+), 24 deletions(-)

diff --git a/modred/vectorspace.py b/modred/vectorspace.py
index e4e172f..0da68ce 100644
--- a/modred/vectorspace.py
+++ b/modred/vectorspace.py
@@ -64,6 +64,17 @@ class VectorSpaceArrays(object):
         return not self.__eq__(other)
 
 
+def _insert_inner_product(IP_array, row_index, col_index, IP):
+    """Stores an inner product in an array, promoting the data type of the
+    array first if it cannot hold the inner product (e.g., a complex value
+    in a real array).  Returns the array."""
+    dtype = np.result_type(IP_array, IP)
+    if dtype != IP_array.dtype:
+        IP_array = IP_array.astype(dtype)
+    IP_array[row_index, col_index] = IP
+    return IP_array
+
+
 class VectorSpaceHandles(object):
     """Provides efficient, parallel implementations of vector space operations,
     using handles.
@@ -450,12 +461,12 @@ class VectorSpaceHandles(object):
                     if len(row_vecs) > 0:
                         for row_index in range(start_row_index, end_row_index):
                             for col_vec_index, col_vec in enumerate(col_vecs):
-                                IP_array[
-                                    row_index,
-                                    col_indices[col_vec_index]
-                                ] = self.inner_product(
-                                    row_vecs[row_index - start_row_index],
-                                    col_vec)
+                                IP_array = _insert_inner_product(
+                                    IP_array, row_index,
+                                    col_indices[col_vec_index],
+                                    self.inner_product(
+                                        row_vecs[row_index - start_row_index],
+                                        col_vec))
                         if (
                             (time() - self.prev_print_time) >
                             self.print_interval):
@@ -604,16 +615,20 @@ class VectorSpaceHandles(object):
                 for row_index in range(proc_row_tasks[0],
                     proc_row_tasks[-1] + 1):
                     # Diagonal term
-                    IP_array[row_index, row_index] = self.inner_product(
-                        row_vecs[row_index - proc_row_tasks[0]],
-                        row_vecs[row_index - proc_row_tasks[0]])
+                    IP_array = _insert_inner_product(
+                        IP_array, row_index, row_index,
+                        self.inner_product(
+                            row_vecs[row_index - proc_row_tasks[0]],
+                            row_vecs[row_index - proc_row_tasks[0]]))
 
                     # Off-diagonal terms
                     for col_index in range(
                         row_index + 1, proc_row_tasks[-1] + 1):
-                        IP_array[row_index, col_index] = self.inner_product(
-                            row_vecs[row_index - proc_row_tasks[0]],
-                            row_vecs[col_index - proc_row_tasks[0]])
+                        IP_array = _insert_inner_product(
+                            IP_array, row_index, col_index,
+                            self.inner_product(
+                                row_vecs[row_index - proc_row_tasks[0]],
+                                row_vecs[col_index - proc_row_tasks[0]]))
 
             # Number of square chunks to fill in is n * (n-1) / 2.  At each
             # iteration we fill in n of them, so we need (n-1) / 2
@@ -681,12 +696,12 @@ class VectorSpaceHandles(object):
                         for row_index in range(
                             my_row_indices[0], my_row_indices[-1] + 1):
                             for col_vec_index, col_vec in enumerate(col_vecs):
-                                IP_array[
-                                    row_index,
-                                    my_col_indices[col_vec_index]
-                                ] = self.inner_product(
-                                    row_vecs[row_index - my_row_indices[0]],
-                                    col_vec)
+                                IP_array = _insert_inner_product(
+                                    IP_array, row_index,
+                                    my_col_indices[col_vec_index],
+                                    self.inner_product(
+                                        row_vecs[row_index - my_row_indices[0]],
+                                        col_vec))
                             if (
                                 (time() - self.prev_print_time) >
                                 self.print_interval):
@@ -769,12 +784,12 @@ class VectorSpaceHandles(object):
                         for row_index in range(
                             proc_row_tasks[0], proc_row_tasks[-1] + 1):
                             for col_vec_index, col_vec in enumerate(col_vecs):
-                                IP_array[
-                                    row_index,
-                                    col_indices[col_vec_index]
-                                ] = self.inner_product(
-                                    row_vecs[row_index - proc_row_tasks[0]],
-                                    col_vec)
+                                IP_array = _insert_inner_product(
+                                    IP_array, row_index,
+                                    col_indices[col_vec_index],
+                                    self.inner_product(
+                                        row_vecs[row_index - proc_row_tasks[0]],
+                                        col_vec))
                         if (
                             (time() - self.prev_print_time) >
                             self.print_interval):
-- 
2.43.0


From fccb089123397656862f00d52e0b24735aadaac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:07 +0000
Subject: [PATCH 02/34] fix: lin_combine accepts basis vectors of mixed real
 and complex type

In-place addition of a complex layer to a real one raises an exception.
---
 modred/vectorspace.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/modred/vectorspace.py b/modred/vectorspace.py
index 0da68ce..0c0318c 100644
--- a/modred/vectorspace.py
+++ b/modred/vectorspace.py
@@ -1058,8 +1058,9 @@ class VectorSpaceHandles(object):
                                 sum_layers[
                                     sum_index-start_sum_index] = sum_layer
                             else:
-                                sum_layers[
-                                    sum_index - start_sum_index] += sum_layer
+                                sum_layers[sum_index - start_sum_index] = (
+                                    sum_layers[sum_index - start_sum_index] +
+                                    sum_layer)
                         if (
                             (time() - self.prev_print_time) >
                             self.print_interval):
-- 
2.43.0


From f6135fc7d2c20ba4c25b67a28832f36b551385ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:42 +0000
Subject: [PATCH 03/34] fix: obey rtol in DMDHandles, TLSqrDMDHandles and the
 TLSqrDMD snapshot method

The argument was accepted and documented but None was passed on.
---
 modred/dmd.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/modred/dmd.py b/modred/dmd.py
index 577f0f9..699a687 100644
--- a/modred/dmd.py
+++ b/modred/dmd.py
@@ -783,7 +783,7 @@ class DMDHandles(object):
         # Compute eigendecomposition of correlation array
         self.correlation_array_eigvals, self.correlation_array_eigvecs =\
             parallel.call_and_bcast(
-            util.eigh, self.correlation_array, atol=atol, rtol=None,
+            util.eigh, self.correlation_array, atol=atol, rtol=rtol,
             is_positive_definite=True)
 
         # Truncate if necessary
@@ -1282,7 +1282,7 @@ def compute_TLSqrDMD_arrays_snaps_method(
                 sum_correlation_array_eigvecs.dot(
                     sum_correlation_array_eigvecs.conj().T))))
     proj_correlation_array_eigvals, proj_correlation_array_eigvecs = util.eigh(
-        proj_correlation_array, atol=atol, rtol=None, is_positive_definite=True)
+        proj_correlation_array, atol=atol, rtol=rtol, is_positive_definite=True)
 
     # Truncate if necessary
     if max_num_eigvals is not None and (
@@ -1764,7 +1764,7 @@ class TLSqrDMDHandles(DMDHandles):
         (self.sum_correlation_array_eigvals,
         self.sum_correlation_array_eigvecs) = parallel.call_and_bcast(
             util.eigh, self.sum_correlation_array,
-            atol=atol, rtol=None, is_positive_definite=True)
+            atol=atol, rtol=rtol, is_positive_definite=True)
 
         # Truncate if necessary
         if max_num_eigvals is not None and (
@@ -1783,7 +1783,7 @@ class TLSqrDMDHandles(DMDHandles):
         (self.proj_correlation_array_eigvals,
         self.proj_correlation_array_eigvecs) = parallel.call_and_bcast(
             util.eigh, self.proj_correlation_array,
-            atol=atol, rtol=None, is_positive_definite=True)
+            atol=atol, rtol=rtol, is_positive_definite=True)
 
         # Truncate if necessary
         if max_num_eigvals is not None and (
-- 
2.43.0


From 21bcbc7f2cac45f91f1cf3a88e8097252c8139c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:42 +0000
Subject: [PATCH 04/34] fix: conjugate in spectral coefficients of the TLSqrDMD
 snapshot method

They were wrong for complex data.
---
 modred/dmd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modred/dmd.py b/modred/dmd.py
index 699a687..e5b0edd 100644
--- a/modred/dmd.py
+++ b/modred/dmd.py
@@ -1327,7 +1327,7 @@ def compute_TLSqrDMD_arrays_snaps_method(
     spectral_coeffs = np.abs(
         L_low_order_eigvecs.conj().T.dot(
             np.diag(proj_correlation_array_eigvals ** 0.5).dot(
-                proj_correlation_array_eigvecs[0, :].T))).squeeze()
+                proj_correlation_array_eigvecs[0, :].conj().T))).squeeze()
 
     # Compute projection coefficients
     proj_coeffs = L_low_order_eigvecs.conj().T.dot(
-- 
2.43.0


From 984e9f729d1dde710558e79e2a441dd9df67f897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:42 +0000
Subject: [PATCH 05/34] fix: forget advanced vector handles of an earlier DMD
 decomposition

A sequential decomposition after one with advanced vectors computed the
exact modes from the old advanced vectors.
---
 modred/dmd.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modred/dmd.py b/modred/dmd.py
index e5b0edd..f1c6c30 100644
--- a/modred/dmd.py
+++ b/modred/dmd.py
@@ -856,8 +856,8 @@ class DMDHandles(object):
             of correlation array.
         """
         self.vec_handles = vec_handles
+        self.adv_vec_handles = adv_vec_handles
         if adv_vec_handles is not None:
-            self.adv_vec_handles = adv_vec_handles
             if len(self.vec_handles) != len(self.adv_vec_handles):
                 raise ValueError(('Number of vec_handles and adv_vec_handles'
                     ' is not equal.'))
@@ -1872,8 +1872,8 @@ class TLSqrDMDHandles(DMDHandles):
         under-constrined datasets.
         """
         self.vec_handles = vec_handles
+        self.adv_vec_handles = adv_vec_handles
         if adv_vec_handles is not None:
-            self.adv_vec_handles = adv_vec_handles
             if len(self.vec_handles) != len(self.adv_vec_handles):
                 raise ValueError(('Number of vec_handles and adv_vec_handles'
                     ' is not equal.'))
-- 
2.43.0


From 5eb7d215f1cecf53747e3f47a56189597a726a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:42 +0000
Subject: [PATCH 06/34] fix: raise ValueError in DMDHandles.compute_exact_modes

The Python 2 form of the statement raises a TypeError instead.
---
 modred/dmd.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/modred/dmd.py b/modred/dmd.py
index f1c6c30..985a3d6 100644
--- a/modred/dmd.py
+++ b/modred/dmd.py
@@ -958,13 +958,11 @@ class DMDHandles(object):
                     mode_handles, self.vec_handles[1:], build_coeffs_exact,
                     coeff_array_col_indices=mode_indices)
             else:
-                raise(
-                    ValueError, (
+                raise ValueError(
                     'Number of vec_handles is not correct for a sequential '
-                    'dataset.'))
+                    'dataset.')
         else:
-            raise(
-                ValueError,
+            raise ValueError(
                 'Neither vec_handles nor adv_vec_handles is defined.')
 
 
-- 
2.43.0


From 3be1d63eafbaa7008bc99629d8a2e24b0fd415c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:59 +0000
Subject: [PATCH 07/34] fix: loaded decompositions with a single component

Squeezing turned a single eigenvalue or singular value into a 0D array,
of which no diagonal array can be formed.
---
 modred/bpod.py |  2 +-
 modred/dmd.py  | 10 +++++-----
 modred/pod.py  |  2 +-
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/modred/bpod.py b/modred/bpod.py
index 3c14782..34e3312 100644
--- a/modred/bpod.py
+++ b/modred/bpod.py
@@ -210,7 +210,7 @@ class BPODHandles(object):
             ``R_sing_vecs_src``: Source from which to retrieve right singular
             vectors of Hankel array.
         """
-        self.sing_vals = np.squeeze(parallel.call_and_bcast(
+        self.sing_vals = np.ravel(parallel.call_and_bcast(
             self.get_array, sing_vals_src))
         self.L_sing_vecs = parallel.call_and_bcast(
             self.get_array, L_sing_vecs_src)
diff --git a/modred/dmd.py b/modred/dmd.py
index 985a3d6..faa564d 100644
--- a/modred/dmd.py
+++ b/modred/dmd.py
@@ -557,13 +557,13 @@ class DMDHandles(object):
             ``correlation_array_eigvecs_src``: Source from which to retrieve
             eigenvectors of correlation array.
         """
-        self.eigvals = np.squeeze(np.array(
+        self.eigvals = np.ravel(np.array(
             parallel.call_and_bcast(self.get_array, eigvals_src)))
         self.R_low_order_eigvecs = parallel.call_and_bcast(
             self.get_array, R_low_order_eigvecs_src)
         self.L_low_order_eigvecs = parallel.call_and_bcast(
             self.get_array, L_low_order_eigvecs_src)
-        self.correlation_array_eigvals = np.squeeze(np.array(
+        self.correlation_array_eigvals = np.ravel(np.array(
             parallel.call_and_bcast(
             self.get_array, correlation_array_eigvals_src)))
         self.correlation_array_eigvecs = parallel.call_and_bcast(
@@ -1977,18 +1977,18 @@ class TLSqrDMDHandles(DMDHandles):
             ``proj_correlation_array_eigvecs_src``: Source from which to
             retrieve eigenvectors of projected correlation array.
         """
-        self.eigvals = np.squeeze(np.array(
+        self.eigvals = np.ravel(np.array(
             parallel.call_and_bcast(self.get_array, eigvals_src)))
         self.R_low_order_eigvecs = parallel.call_and_bcast(
             self.get_array, R_low_order_eigvecs_src)
         self.L_low_order_eigvecs = parallel.call_and_bcast(
             self.get_array, L_low_order_eigvecs_src)
-        self.sum_correlation_array_eigvals = np.squeeze(np.array(
+        self.sum_correlation_array_eigvals = np.ravel(np.array(
             parallel.call_and_bcast(
             self.get_array, sum_correlation_array_eigvals_src)))
         self.sum_correlation_array_eigvecs = parallel.call_and_bcast(
             self.get_array, sum_correlation_array_eigvecs_src)
-        self.proj_correlation_array_eigvals = np.squeeze(np.array(
+        self.proj_correlation_array_eigvals = np.ravel(np.array(
             parallel.call_and_bcast(
             self.get_array, proj_correlation_array_eigvals_src)))
         self.proj_correlation_array_eigvecs = parallel.call_and_bcast(
diff --git a/modred/pod.py b/modred/pod.py
index 8ebf430..e639643 100644
--- a/modred/pod.py
+++ b/modred/pod.py
@@ -264,7 +264,7 @@ class PODHandles(object):
             ``eigvecs_src``: Source from which to retrieve eigenvectors of
             correlation array.
         """
-        self.eigvals = np.squeeze(np.array(parallel.call_and_bcast(
+        self.eigvals = np.ravel(np.array(parallel.call_and_bcast(
             self.get_array, eigvals_src)))
         self.eigvecs = parallel.call_and_bcast(self.get_array, eigvecs_src)
 
-- 
2.43.0


From eacdcdcd3114f7c6a1e16e7c64d78daddf584e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:59 +0000
Subject: [PATCH 08/34] fix: DMD spectral coefficients are a 1D array for a
 single eigenvalue

---
 modred/dmd.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/modred/dmd.py b/modred/dmd.py
index faa564d..ce04b90 100644
--- a/modred/dmd.py
+++ b/modred/dmd.py
@@ -174,7 +174,7 @@ def compute_DMD_arrays_snaps_method(
     # Compute spectral coefficients
     spectral_coeffs = np.abs(L_low_order_eigvecs.conj().T.dot(
         np.diag(correlation_array_eigvals ** 0.5).dot(
-            correlation_array_eigvecs[0, :].conj().T)).squeeze())
+            correlation_array_eigvecs[0, :].conj().T)))
 
     # Compute projection coefficients
     proj_coeffs = L_low_order_eigvecs.conj().T.dot(
@@ -427,7 +427,7 @@ def compute_DMD_arrays_direct_method(
     # Compute spectral coefficients
     spectral_coeffs = np.abs(L_low_order_eigvecs.conj().T.dot(
         np.diag(correlation_array_eigvals ** 0.5).dot(
-            correlation_array_eigvecs[0, :].conj().T))).squeeze()
+            correlation_array_eigvecs[0, :].conj().T)))
 
     # Compute projection coefficients
     proj_coeffs = L_low_order_eigvecs.conj().T.dot(
@@ -1074,7 +1074,7 @@ class DMDHandles(object):
         self.spectral_coeffs = np.abs(
             self.L_low_order_eigvecs.conj().T.dot(
                 np.diag(self.correlation_array_eigvals ** 0.5).dot(
-                    self.correlation_array_eigvecs[0, :]).conj().T)).squeeze()
+                    self.correlation_array_eigvecs[0, :]).conj().T))
         return self.spectral_coeffs
 
 
@@ -1325,7 +1325,7 @@ def compute_TLSqrDMD_arrays_snaps_method(
     spectral_coeffs = np.abs(
         L_low_order_eigvecs.conj().T.dot(
             np.diag(proj_correlation_array_eigvals ** 0.5).dot(
-                proj_correlation_array_eigvecs[0, :].conj().T))).squeeze()
+                proj_correlation_array_eigvecs[0, :].conj().T)))
 
     # Compute projection coefficients
     proj_coeffs = L_low_order_eigvecs.conj().T.dot(
@@ -2146,7 +2146,7 @@ class TLSqrDMDHandles(DMDHandles):
         # ie first, last, or mean?
         self.spectral_coeffs = np.abs(self.L_low_order_eigvecs.conj().T.dot(
             np.diag(self.proj_correlation_array_eigvals ** 0.5).dot(
-                self.proj_correlation_array_eigvecs[0, :]).conj().T)).squeeze()
+                self.proj_correlation_array_eigvecs[0, :]).conj().T))
         return self.spectral_coeffs
 
 
-- 
2.43.0


From 88a05acb1c548f5c721728ab2d12eeebf6fde9f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:24 +0000
Subject: [PATCH 09/34] fix: find_assignments assigns tasks with zero or
 negligible weights

Such tasks at the end of the list were assigned to no worker.
---
 modred/parallel.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/modred/parallel.py b/modred/parallel.py
index ac26e9e..280a1c4 100644
--- a/modred/parallel.py
+++ b/modred/parallel.py
@@ -224,6 +224,10 @@ def find_assignments(tasks, task_weights=None):
             new_max_task_index = np.abs(np.cumsum(
                 task_weights[first_unassigned_index:]) -\
                 work_per_worker).argmin() + first_unassigned_index
+            # The last worker gets all tasks that are left, including those
+            # at the end with zero or negligible weights
+            if num_remaining_workers == 1:
+                new_max_task_index = len(tasks) - 1
             # Append all tasks up to and including new_max_task_index
             task_assignments.append(tasks[first_unassigned_index:\
                 new_max_task_index+1])
-- 
2.43.0


From b1953866cfdaab136f9dd128111950e3a1d23362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:47 +0000
Subject: [PATCH 10/34] fix: forget the cached base vector when a vector is put

---
 modred/vectors.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modred/vectors.py b/modred/vectors.py
index 7a45c5e..bc638ab 100644
--- a/modred/vectors.py
+++ b/modred/vectors.py
@@ -43,6 +43,9 @@ class VecHandle(object):
     def put(self, vec):
         """Put a vector to file or memory using the private (user-overwritten)
         ``_put`` function."""
+        # The cached base vector may be the one that is overwritten
+        VecHandle.cached_base_vec_handle = None
+        VecHandle.cached_base_vec = None
         return self._put(vec)
 
 
-- 
2.43.0


From 75fc3f75367b5aa1cb867cf7fdab8d5956151043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:09 +0000
Subject: [PATCH 11/34] fix: handles are equal only if base vector, scale and
 type agree

---
 modred/vectors.py | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/modred/vectors.py b/modred/vectors.py
index bc638ab..2d5ed04 100644
--- a/modred/vectors.py
+++ b/modred/vectors.py
@@ -59,6 +59,14 @@ class VecHandle(object):
         raise NotImplementedError("must be implemented by subclasses")
 
 
+    def _has_same_base_and_scale(self, other):
+        """Checks if base vector and scaling are the same as for another
+        handle, so that handles of equal vectors also deliver equal vectors."""
+        return (
+            self.__base_vec_handle == other.__base_vec_handle and
+            util.smart_eq(self.scale, other.scale))
+
+
     def __scale_vec(self, vec):
         """Scales the vector by a scalar."""
         if self.scale is not None:
@@ -86,7 +94,9 @@ class VecHandleInMemory(VecHandle):
     def __eq__(self, other):
         if type(other) != type(self):
             return False
-        return util.smart_eq(self.vec, other.vec)
+        return (
+            util.smart_eq(self.vec, other.vec) and
+            self._has_same_base_and_scale(other))
 
 
 class VecHandleArrayText(VecHandle):
@@ -111,7 +121,10 @@ class VecHandleArrayText(VecHandle):
     def __eq__(self, other):
         if type(other) != type(self):
             return False
-        return self.vec_path == other.vec_path
+        return (
+            self.vec_path == other.vec_path and
+            self.is_complex == other.is_complex and
+            self._has_same_base_and_scale(other))
 
 
 class VecHandlePickle(VecHandle):
@@ -134,7 +147,9 @@ class VecHandlePickle(VecHandle):
     def __eq__(self, other):
         if type(other) != type(self):
             return False
-        return self.vec_path == other.vec_path
+        return (
+            self.vec_path == other.vec_path and
+            self._has_same_base_and_scale(other))
 
 
 def inner_product_array_uniform(vec1, vec2):
-- 
2.43.0


From 9a60f5d0bcf5bc6235dc4379e4a730042246e69d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:40 +0000
Subject: [PATCH 12/34] fix: save_array_text saves arrays of any data type and
 memory layout

---
 modred/util.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/modred/util.py b/modred/util.py
index 15fefb1..e7735df 100644
--- a/modred/util.py
+++ b/modred/util.py
@@ -82,11 +82,17 @@ def save_array_text(array, file_name, delimiter=None):
     elif array.ndim > 2:
         raise RuntimeError('Cannot save an array with >2 dimensions')
 
+    # Double precision, contiguous, with alternating real and imaginary parts
+    if np.iscomplexobj(array):
+        array = np.ascontiguousarray(array, dtype=complex).view(float)
+    else:
+        array = np.array(array, dtype=float)
+
     # Save data
     if delimiter is None:
-        np.savetxt(file_name, array.view(float))
+        np.savetxt(file_name, array)
     else:
-        np.savetxt(file_name, array.view(float), delimiter=delimiter)
+        np.savetxt(file_name, array, delimiter=delimiter)
 
 
 def load_array_text(file_name, delimiter=None, is_complex=False):
-- 
2.43.0


From 9085b0a39c0cd0cb3d7e740b74e5c7e385b486e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:39 +0000
Subject: [PATCH 13/34] fix: VectorSpaceArrays accepts weights of a single
 element

---
 modred/vectorspace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modred/vectorspace.py b/modred/vectorspace.py
index 0c0318c..3af07a6 100644
--- a/modred/vectorspace.py
+++ b/modred/vectorspace.py
@@ -19,7 +19,7 @@ class VectorSpaceArrays(object):
     def __init__(self, weights=None):
         self.weights = weights
         if self.weights is not None:
-            self.weights = np.array(self.weights).squeeze()
+            self.weights = np.atleast_1d(np.array(self.weights).squeeze())
         if self.weights is None:
             self.compute_inner_product_array = self._IP_no_weights
         elif self.weights.ndim == 1:
-- 
2.43.0


From aaed8fa9f2d200099dbb81f165de71aeade62ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:39 +0000
Subject: [PATCH 14/34] fix: direct methods accept the same inner product
 weights as others

---
 modred/dmd.py | 2 ++
 modred/pod.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/modred/dmd.py b/modred/dmd.py
index ce04b90..7379d82 100644
--- a/modred/dmd.py
+++ b/modred/dmd.py
@@ -331,6 +331,7 @@ def compute_DMD_arrays_direct_method(
 
     # Set up vector space (for inner products)
     vec_space = VectorSpaceArrays(weights=inner_product_weights)
+    inner_product_weights = vec_space.weights
 
     # Weight data as necessary
     if inner_product_weights is None:
@@ -1511,6 +1512,7 @@ def compute_TLSqrDMD_arrays_direct_method(
 
     # Set up vector space (for inner products)
     vec_space = VectorSpaceArrays(weights=inner_product_weights)
+    inner_product_weights = vec_space.weights
 
     # Weight data as necessary
     if inner_product_weights is None:
diff --git a/modred/pod.py b/modred/pod.py
index e639643..f296ad4 100644
--- a/modred/pod.py
+++ b/modred/pod.py
@@ -163,6 +163,8 @@ def compute_POD_arrays_direct_method(
 
     # Force data to be arrays (not matrices)
     vecs = np.array(vecs)
+    inner_product_weights = VectorSpaceArrays(
+        weights=inner_product_weights).weights
 
     # If no inner product weights, compute SVD directly
     if inner_product_weights is None:
-- 
2.43.0


From bacc2ad20daa03d9b59f7c49fb71c7cb0a894463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:35 +0000
Subject: [PATCH 15/34] fix: eigh accepts atol=None for positive definite
 arrays

---
 modred/util.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/modred/util.py b/modred/util.py
index e7735df..356da5c 100644
--- a/modred/util.py
+++ b/modred/util.py
@@ -283,7 +283,8 @@ def eigh(array, atol=1e-13, rtol=None, is_positive_definite=False):
     # given tolerance.  In that case, we assume the given tolerance is too
     # samll (relative to the accuracy of the computation) and increase it to at
     # least filter out negative eigenvalues.
-    if is_positive_definite and eigvals.min() < 0 and abs(eigvals.min()) > atol:
+    if is_positive_definite and eigvals.min() <= 0 and (
+        atol is None or abs(eigvals.min()) > atol):
         atol = abs(eigvals.min())
 
     # Filter out small and negative eigenvalues, if necessary
-- 
2.43.0


From 95df915ef03f68ff3536098996bf50176ec459e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:35 +0000
Subject: [PATCH 16/34] fix: balanced_truncation uses the Gramians of
 discrete-time systems

---
 modred/util.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/modred/util.py b/modred/util.py
index 356da5c..6a1ac5e 100644
--- a/modred/util.py
+++ b/modred/util.py
@@ -370,20 +370,21 @@ def balanced_truncation(
     A = np.array(A)
     B = np.array(B)
     C = np.array(C)
-    gram_cont = scipy.linalg.solve_lyapunov(A, B.dot(B.transpose().conj()))
-    gram_obsv = scipy.linalg.solve_lyapunov(A.transpose().conj(),
-        C.transpose().conj().dot(C))
+    gram_cont = scipy.linalg.solve_discrete_lyapunov(
+        A, B.dot(B.transpose().conj()))
+    gram_obsv = scipy.linalg.solve_discrete_lyapunov(
+        A.transpose().conj(), C.transpose().conj().dot(C))
     Uc, Ec, Vc = svd(gram_cont)
     Uo, Eo, Vo = svd(gram_obsv)
     Lc = Uc.dot(np.diag(Ec**0.5))
     Lo = Uo.dot(np.diag(Eo**0.5))
-    U, E, V = svd(Lo.transpose().dot(Lc))
+    U, E, V = svd(Lo.transpose().conj().dot(Lc))
     if order is None:
         order = len(E)
     SL = Lo.dot(U[:, :order]).dot(np.diag(E[:order]**-0.5))
     SR = Lc.dot(V[:, :order]).dot(np.diag(E[:order]**-0.5))
-    A_bal_trunc = SL.transpose().dot(A).dot(SR)
-    B_bal_trunc = SL.transpose().dot(B)
+    A_bal_trunc = SL.transpose().conj().dot(A).dot(SR)
+    B_bal_trunc = SL.transpose().conj().dot(B)
     C_bal_trunc = C.dot(SR)
     if return_sing_vals:
         return A_bal_trunc, B_bal_trunc, C_bal_trunc, E
-- 
2.43.0


From 54a81d7d0e76fcc864c227624dcd1913e8c53747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:35 +0000
Subject: [PATCH 17/34] fix: Hankel accepts any sequence as last row

---
 modred/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modred/util.py b/modred/util.py
index 6a1ac5e..33eba0f 100644
--- a/modred/util.py
+++ b/modred/util.py
@@ -588,7 +588,7 @@ def Hankel(first_col, last_row=None):
     if last_row is None:
         last_row = np.zeros(first_col.shape)
     else:
-        last_row = last_row.flatten()
+        last_row = np.array(last_row).flatten()
 
     unique_vals = np.concatenate((first_col, last_row[1:]))
     a, b = np.ogrid[0:len(first_col), 0:len(last_row)]
-- 
2.43.0


From d313b6127c2ae7067250278ba4ebefcff747c235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:35 +0000
Subject: [PATCH 18/34] fix: load_multiple_signals rejects files of different
 sizes

---
 modred/util.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/modred/util.py b/modred/util.py
index 33eba0f..bb1acf0 100644
--- a/modred/util.py
+++ b/modred/util.py
@@ -561,9 +561,13 @@ def load_multiple_signals(signal_paths, delimiter=None):
     for path_num, signal_path in enumerate(signal_paths):
         time_values_read, signals = load_signals(signal_path,
             delimiter=delimiter)
-        if not np.allclose(time_values_read, time_values):
+        if time_values_read.shape != time_values.shape or not np.allclose(
+            time_values_read, time_values):
             raise ValueError('Time values in %s are inconsistent with '
-                'other files')
+                'other files' % signal_path)
+        if signals.shape[1] != num_signals:
+            raise ValueError('Number of signals in %s is inconsistent with '
+                'other files' % signal_path)
         all_signals[path_num] = signals
 
     return time_values, all_signals
-- 
2.43.0


From 89b568de448c7f2efb5dfa7f2614afec9a73683a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:26 +0000
Subject: [PATCH 19/34] fix: ERA obeys Hankel dimensions given to the
 constructor or alone

---
 modred/era.py | 37 ++++++++++++++++++++++---------------
 1 file changed, 22 insertions(+), 15 deletions(-)

diff --git a/modred/era.py b/modred/era.py
index f22a091..dcd1307 100644
--- a/modred/era.py
+++ b/modred/era.py
@@ -144,6 +144,8 @@ class ERA(object):
         self.put_array = put_array
         self.mc = mc
         self.mo = mo
+        self._default_mc = mc
+        self._default_mo = mo
         self.outputs = None
         self.verbosity = verbosity
         self.A = None
@@ -190,8 +192,8 @@ class ERA(object):
         :math:`dt`.  You can account for this by multiplying B by :math:`dt`.
         """
         self._set_Markovs(np.array(Markovs))
-        self.mc = mc
-        self.mo = mo
+        self.mc = self._default_mc if mc is None else mc
+        self.mo = self._default_mo if mo is None else mo
 
         self._assemble_Hankel()
         self.L_sing_vecs, self.sing_vals, self.R_sing_vecs = util.svd(
@@ -313,22 +315,27 @@ class ERA(object):
         # To understand the default choice of mc and mo,
         # consider (let sample_interval=P=1 w.l.o.g.)
         # sequences
-        # [0 1 1 2 2 3] => H = [[0 1][1 2]]   H2 = [[1 2][2 3]], mc=mo=1, nt=6
+        # [0 1 1 2 2 3] => H = [[0 1][1 2]]   H2 = [[1 2][2 3]], mc=mo=2, nt=6
         # [0 1 1 2 2 3 3 4 4 5] => H=[[0 1 2][1 2 3][2 3 4]]
-        # and H2=[[1 2 3][2 3 4][3 4 5]], mc=mo=2,nt=10
-        # Thus, using all available data means mc=mo=(nt-2)/4.
-        # For additional output times, (nt-2)/4 rounds down, so
-        # we use this formula.
-
-        if self.mo is None or self.mc is None:
-            # Set mo and mc, time_steps is always in format [0, 1, P, P+1, ...]
-            self.mo = (self.num_time_steps-2)//4
+        # and H2=[[1 2 3][2 3 4][3 4 5]], mc=mo=3,nt=10
+        # Thus the last samples used are number 2*(mo+mc-2) and
+        # 2*(mo+mc-2)+1, so that mo+mc is at most nt/2+1.
+        max_sum = self.num_time_steps // 2 + 1
+        if self.mo is None and self.mc is None:
+            self.mo = max_sum // 2
             self.mc = self.mo
-
-        if (self.mo + self.mc) + 2 > self.num_time_steps:
+        elif self.mo is None:
+            self.mo = max_sum - self.mc
+        elif self.mc is None:
+            self.mc = max_sum - self.mo
+
+        if self.mo < 1 or self.mc < 1:
+            raise ValueError('mo = %d and mc = %d must be positive for %d '
+                'samples' % (self.mo, self.mc, self.num_time_steps))
+        if self.mo + self.mc > max_sum:
             raise ValueError(
-                'mo + mc + 2= %d and must be <= than the number of samples %d'
-                % (self.mo + self.mc + 2, self.num_time_steps))
+                'mo + mc = %d and must be <= %d for %d samples'
+                % (self.mo + self.mc, max_sum, self.num_time_steps))
 
         self.Hankel_array = np.zeros(
             (self.num_Markovs * self.mo, self.num_inputs * self.mc))
-- 
2.43.0


From 0d7b2f982e4d8f6bbd3ca314cb1a6dc442881d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:26 +0000
Subject: [PATCH 20/34] fix: ERA keeps the imaginary part of complex Markov
 parameters

---
 modred/era.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/modred/era.py b/modred/era.py
index dcd1307..53b0124 100644
--- a/modred/era.py
+++ b/modred/era.py
@@ -43,7 +43,8 @@ def make_sampled_format(times, Markovs, dt_tol=1e-6):
 
     time_steps = np.round((times-times[0])/dt)
     num_time_steps_corr = (num_time_steps - 1)*2
-    Markovs_corr = np.zeros((num_time_steps_corr, num_Markovs, num_inputs))
+    Markovs_corr = np.zeros(
+        (num_time_steps_corr, num_Markovs, num_inputs), dtype=Markovs.dtype)
     time_steps_corr = np.zeros(num_time_steps_corr, dtype=int)
     Markovs_corr[::2] = Markovs[:-1]
     Markovs_corr[1::2] = Markovs[1:]
@@ -338,8 +339,10 @@ class ERA(object):
                 % (self.mo + self.mc, max_sum, self.num_time_steps))
 
         self.Hankel_array = np.zeros(
-            (self.num_Markovs * self.mo, self.num_inputs * self.mc))
-        self.Hankel_array2 = np.zeros(self.Hankel_array.shape)
+            (self.num_Markovs * self.mo, self.num_inputs * self.mc),
+            dtype=self.Markovs.dtype)
+        self.Hankel_array2 = np.zeros(
+            self.Hankel_array.shape, dtype=self.Markovs.dtype)
         #Markovs_flattened = \
         #    self.Markovs.swapaxes(0,1).reshape((num_Markovs, -1))
         for row in range(self.mo):
-- 
2.43.0


From 39e87cc3428af54e65c6ba592307783e23e764fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:38 +0000
Subject: [PATCH 21/34] fix: OKID keeps the imaginary part of complex data

---
 modred/okid.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/modred/okid.py b/modred/okid.py
index 25334af..733008f 100644
--- a/modred/okid.py
+++ b/modred/okid.py
@@ -49,10 +49,13 @@ def OKID(inputs, outputs, num_Markovs):
     # Convenience variable
     num_inouts = num_inputs + num_outputs
 
-    V = np.zeros((num_inputs + num_inouts * num_Markovs, num_samples))
+    inputs_outputs = np.concatenate((inputs, outputs), axis=0)
+
+    V = np.zeros(
+        (num_inputs + num_inouts * num_Markovs, num_samples),
+        dtype=np.result_type(inputs_outputs, float))
     V[:num_inputs] = inputs
 
-    inputs_outputs = np.concatenate((inputs, outputs), axis=0)
     for i in range(1, num_Markovs + 1):
         V[num_inputs + (i - 1) * num_inouts:num_inputs + i * num_inouts, i:] =\
             inputs_outputs[:, :num_samples - i]
@@ -60,8 +63,9 @@ def OKID(inputs, outputs, num_Markovs):
     # Ybar in book
     #Markov_aug = np.dot(outputs, np.array(np.linalg.pinv(V, cutoff)))
     # Using least squares for better numerical conditioning? outputs = M V, so
-    # outputs.T = V.T M.T, solve for M = Markovs_aug.
-    Markov_aug = np.linalg.lstsq(V.conj().T, outputs.T)[0].conj().T
+    # outputs.H = V.H M.H, solve for M = Markovs_aug.
+    Markov_aug = np.linalg.lstsq(
+        V.conj().T, outputs.conj().T)[0].conj().T
 
     D = Markov_aug[:, :num_inputs]
 
@@ -85,11 +89,13 @@ def OKID(inputs, outputs, num_Markovs):
                 Markov_num * num_inouts + num_inouts])
 
     # Estimate the Markov parameters of the system
-    Markov_est = np.empty((num_Markovs, num_outputs, num_inputs))
+    Markov_est = np.empty(
+        (num_Markovs, num_outputs, num_inputs), dtype=Markov_aug.dtype)
     Markov_est[0] = D
 
     for Markov_num in range(1, num_Markovs):
-        summation_term = np.zeros((num_outputs, num_inputs))
+        summation_term = np.zeros(
+            (num_outputs, num_inputs), dtype=Markov_aug.dtype)
         for i in range(1, Markov_num + 1):
             summation_term += Markov_aug_output[i].dot(
                 Markov_est[Markov_num- i , :, :])
-- 
2.43.0


From 54c804d608462f7b0b2199746e254c2fd8d77bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:38 +0000
Subject: [PATCH 22/34] fix: ERA assembles Hankel arrays in double precision

---
 modred/era.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/modred/era.py b/modred/era.py
index 53b0124..8404771 100644
--- a/modred/era.py
+++ b/modred/era.py
@@ -44,7 +44,8 @@ def make_sampled_format(times, Markovs, dt_tol=1e-6):
     time_steps = np.round((times-times[0])/dt)
     num_time_steps_corr = (num_time_steps - 1)*2
     Markovs_corr = np.zeros(
-        (num_time_steps_corr, num_Markovs, num_inputs), dtype=Markovs.dtype)
+        (num_time_steps_corr, num_Markovs, num_inputs),
+        dtype=np.result_type(Markovs, float))
     time_steps_corr = np.zeros(num_time_steps_corr, dtype=int)
     Markovs_corr[::2] = Markovs[:-1]
     Markovs_corr[1::2] = Markovs[1:]
@@ -340,9 +341,9 @@ class ERA(object):
 
         self.Hankel_array = np.zeros(
             (self.num_Markovs * self.mo, self.num_inputs * self.mc),
-            dtype=self.Markovs.dtype)
+            dtype=np.result_type(self.Markovs, float))
         self.Hankel_array2 = np.zeros(
-            self.Hankel_array.shape, dtype=self.Markovs.dtype)
+            self.Hankel_array.shape, dtype=self.Hankel_array.dtype)
         #Markovs_flattened = \
         #    self.Markovs.swapaxes(0,1).reshape((num_Markovs, -1))
         for row in range(self.mo):
-- 
2.43.0


From 9b6d683f4cd268cbeb347e379bc414ccd682af40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:49 +0000
Subject: [PATCH 23/34] fix: loaded DMD spectral coefficients are a 1D array

---
 modred/dmd.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/modred/dmd.py b/modred/dmd.py
index 7379d82..165d223 100644
--- a/modred/dmd.py
+++ b/modred/dmd.py
@@ -596,7 +596,8 @@ class DMDHandles(object):
         Args:
             ``src``: Source from which to retrieve spectral coefficients.
         """
-        self.spectral_coeffs = parallel.call_and_bcast(self.get_array, src)
+        self.spectral_coeffs = np.ravel(np.array(
+            parallel.call_and_bcast(self.get_array, src)))
 
 
     def get_proj_coeffs(self, src, adv_src):
-- 
2.43.0


From e360223319b9d771ddb0bb645f2d831142171e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:49 +0000
Subject: [PATCH 24/34] fix: vectors need only addition and scalar
 multiplication

---
 modred/ltigalerkinproj.py | 3 ++-
 modred/vectors.py         | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/modred/ltigalerkinproj.py b/modred/ltigalerkinproj.py
index 89a7170..ab1b966 100644
--- a/modred/ltigalerkinproj.py
+++ b/modred/ltigalerkinproj.py
@@ -48,7 +48,8 @@ def compute_derivs_handles(vec_handles, adv_vec_handles, deriv_vec_handles, dt):
     for i in vec_index_tasks:
         vec = vec_handles[i].get()
         vec_dt = adv_vec_handles[i].get()
-        deriv_vec_handles[i].put((1. / dt) * (vec_dt - vec))
+        # Vectors only need to support addition and scalar multiplication
+        deriv_vec_handles[i].put((1. / dt) * (vec_dt + (-1 * vec)))
     parallel.barrier()
 
 
diff --git a/modred/vectors.py b/modred/vectors.py
index 2d5ed04..b565dfa 100644
--- a/modred/vectors.py
+++ b/modred/vectors.py
@@ -37,7 +37,8 @@ class VecHandle(object):
             base_vec = self.__base_vec_handle.get()
             VecHandle.cached_base_vec_handle = self.__base_vec_handle
             VecHandle.cached_base_vec = base_vec
-        return self.__scale_vec(vec - base_vec)
+        # Vectors only need to support addition and scalar multiplication
+        return self.__scale_vec(vec + (-1 * base_vec))
 
 
     def put(self, vec):
-- 
2.43.0


From 87edace8938f5df07a2f2d7b1947e2c87543a82d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:45 +0000
Subject: [PATCH 25/34] fix: a single weight fits vectors of length one only

---
 modred/vectorspace.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/modred/vectorspace.py b/modred/vectorspace.py
index 3af07a6..32348d8 100644
--- a/modred/vectorspace.py
+++ b/modred/vectorspace.py
@@ -19,7 +19,10 @@ class VectorSpaceArrays(object):
     def __init__(self, weights=None):
         self.weights = weights
         if self.weights is not None:
-            self.weights = np.atleast_1d(np.array(self.weights).squeeze())
+            self.weights = np.array(self.weights)
+            # Remove extra dimensions, but keep one for a single weight
+            if self.weights.ndim > 0:
+                self.weights = np.atleast_1d(self.weights.squeeze())
         if self.weights is None:
             self.compute_inner_product_array = self._IP_no_weights
         elif self.weights.ndim == 1:
@@ -35,6 +38,11 @@ class VectorSpaceArrays(object):
 
 
     def _IP_1D_weights(self, vecs1, vecs2):
+        # A single weight would be applied to vectors of any length
+        if self.weights.shape[0] != vecs1.shape[0]:
+            raise ValueError(
+                'Number of weights (%d) does not equal length of vectors (%d)'
+                % (self.weights.shape[0], vecs1.shape[0]))
         return np.dot(vecs1.conj().T * self.weights, vecs2)
 
 
-- 
2.43.0


From 47356abb6caed52d8d708b0bab7c6c7288688cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:57 +0000
Subject: [PATCH 26/34] fix: BPODHandles rejects numbers of vectors that do not
 fit

---
 modred/bpod.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/modred/bpod.py b/modred/bpod.py
index 34e3312..b6e6d34 100644
--- a/modred/bpod.py
+++ b/modred/bpod.py
@@ -383,6 +383,12 @@ class BPODHandles(object):
             ``R_sing_vecs``: Array of right singular vectors of Hankel array
             (:math:`V`).
         """
+        if len(direct_vec_handles) % num_inputs:
+            raise ValueError(
+                'Number of direct vectors is not a multiple of num_inputs')
+        if len(adjoint_vec_handles) % num_outputs:
+            raise ValueError(
+                'Number of adjoint vectors is not a multiple of num_outputs')
         self.direct_vec_handles = direct_vec_handles
         self.adjoint_vec_handles = adjoint_vec_handles
 
-- 
2.43.0


From ecc522fdae8ff250359429925b6a846bd66fbcbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:36 +0000
Subject: [PATCH 27/34] fix: vectors need not support multiplication from the
 left

---
 modred/ltigalerkinproj.py | 2 +-
 modred/vectors.py         | 2 +-
 modred/vectorspace.py     | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/modred/ltigalerkinproj.py b/modred/ltigalerkinproj.py
index ab1b966..4c9cceb 100644
--- a/modred/ltigalerkinproj.py
+++ b/modred/ltigalerkinproj.py
@@ -49,7 +49,7 @@ def compute_derivs_handles(vec_handles, adv_vec_handles, deriv_vec_handles, dt):
         vec = vec_handles[i].get()
         vec_dt = adv_vec_handles[i].get()
         # Vectors only need to support addition and scalar multiplication
-        deriv_vec_handles[i].put((1. / dt) * (vec_dt + (-1 * vec)))
+        deriv_vec_handles[i].put((vec_dt + vec * -1) * (1. / dt))
     parallel.barrier()
 
 
diff --git a/modred/vectors.py b/modred/vectors.py
index b565dfa..a4b6b06 100644
--- a/modred/vectors.py
+++ b/modred/vectors.py
@@ -38,7 +38,7 @@ class VecHandle(object):
             VecHandle.cached_base_vec_handle = self.__base_vec_handle
             VecHandle.cached_base_vec = base_vec
         # Vectors only need to support addition and scalar multiplication
-        return self.__scale_vec(vec + (-1 * base_vec))
+        return self.__scale_vec(vec + base_vec * -1)
 
 
     def put(self, vec):
diff --git a/modred/vectorspace.py b/modred/vectorspace.py
index 32348d8..dafef1a 100644
--- a/modred/vectorspace.py
+++ b/modred/vectorspace.py
@@ -927,7 +927,7 @@ class VectorSpaceHandles(object):
 
         # Burn the first operations to allow for slow imports
         test_vec_burn = basis_vec_handles[0].get()
-        test_vec_burn_3 = test_vec_burn + 2. * test_vec_burn
+        test_vec_burn_3 = test_vec_burn + test_vec_burn * 2.
         del test_vec_burn, test_vec_burn_3
 
         # Time get method
@@ -937,7 +937,7 @@ class VectorSpaceHandles(object):
 
         # Time vector space operations
         start_time = time()
-        test_vec_3 = test_vec + 2.*test_vec
+        test_vec_3 = test_vec + test_vec * 2.
         add_scale_time = time() - start_time
         del test_vec, test_vec_3
 
-- 
2.43.0


From 7f91c2b0d3e69f4917aded642b3467a5efc84693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:36 +0000
Subject: [PATCH 28/34] fix: sanity_check compares relative to the magnitude of
 the vector

---
 modred/vectorspace.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/modred/vectorspace.py b/modred/vectorspace.py
index dafef1a..27ce910 100644
--- a/modred/vectorspace.py
+++ b/modred/vectorspace.py
@@ -171,9 +171,6 @@ class VectorSpaceHandles(object):
         # TODO: Other things which could be tested:
         # ``get``/``put`` doesn't affect other vecs (memory problems)
 
-        # Set tolerance
-        tol = 1e-12
-
         # Check inner product properties
         self._check_inner_product()
 
@@ -185,6 +182,10 @@ class VectorSpaceHandles(object):
         vec_copy = copy.deepcopy(test_vec)
         vec_copy_mag_sq = self.inner_product(vec_copy, vec_copy)
 
+        # Set tolerance, relative to the magnitude of the vector.  It allows for
+        # vectors stored in single precision.
+        tol = 1e-5 * abs(vec_copy_mag_sq)
+
         # Check that inner product of scaled vector is correct
         scale_factor = 2.
         vec_mult = test_vec * scale_factor
-- 
2.43.0


From cf31e6ffa85561c23cb4efec1dc3cd659de97fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:13 +0000
Subject: [PATCH 29/34] fix: load_multiple_signals judges times relative to the
 time step

The absolute tolerance of allclose accepts any times in small units, and its
relative one accepts shifts of several time steps if the times are large.
---
 modred/util.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/modred/util.py b/modred/util.py
index bb1acf0..bcaa0df 100644
--- a/modred/util.py
+++ b/modred/util.py
@@ -549,6 +549,13 @@ def load_multiple_signals(signal_paths, delimiter=None):
     time_values, signals = load_signals(signal_paths[0], delimiter=delimiter)
     num_time_values = len(time_values)
 
+    # Differences in time values are judged relative to the time step, not to
+    # the magnitude of the times, which depends on the units and the start time
+    if num_time_values > 1:
+        time_tol = 1e-3 * np.abs(np.diff(time_values)).min()
+    else:
+        time_tol = 1e-5 * np.abs(time_values[0])
+
     num_signals = signals.shape[1]
 
     # Now allocate array and read all of the signals
@@ -562,7 +569,7 @@ def load_multiple_signals(signal_paths, delimiter=None):
         time_values_read, signals = load_signals(signal_path,
             delimiter=delimiter)
         if time_values_read.shape != time_values.shape or not np.allclose(
-            time_values_read, time_values):
+            time_values_read, time_values, rtol=1e-12, atol=time_tol):
             raise ValueError('Time values in %s are inconsistent with '
                 'other files' % signal_path)
         if signals.shape[1] != num_signals:
-- 
2.43.0


From 24498f7d5d52c65a050fb4b038b3771caab613ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:52 +0000
Subject: [PATCH 30/34] fix: eig_biorthog returns biorthogonal eigenvectors of
 repeated eigenvalues

---
 modred/util.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/modred/util.py b/modred/util.py
index bcaa0df..bf7e8f8 100644
--- a/modred/util.py
+++ b/modred/util.py
@@ -329,12 +329,21 @@ def eig_biorthog(array, scale_choice='left'):
     # Compute eigendecomposition
     evals, L_evecs, R_evecs = scipy.linalg.eig(array, left=True, right=True)
 
-    # Scale the evecs to get a biorthogonal set
-    scale_factors = np.diag(np.dot(L_evecs.conj().T, R_evecs))
+    # Scale the evecs to get a biorthogonal set. The evecs of distinct evals are
+    # orthogonal, but those of a repeated eval are not as computed, so all of
+    # the inner products among them need to be accounted for.
+    IP_array = np.dot(L_evecs.conj().T, R_evecs)
+    eval_tol = 1e-8 * np.linalg.norm(array)
+    IP_array[np.abs(evals[:, np.newaxis] - evals) > eval_tol] = 0.
+    try:
+        IP_array_inv = np.linalg.inv(IP_array)
+    except np.linalg.LinAlgError:
+        # There is no biorthogonal set, as the array is defective
+        IP_array_inv = np.diag(1. / np.diag(IP_array))
     if scale_choice.lower() == 'left':
-        L_evecs /= scale_factors.conj()
+        L_evecs = np.dot(L_evecs, IP_array_inv.conj().T)
     elif scale_choice.lower() == 'right':
-        R_evecs /= scale_factors
+        R_evecs = np.dot(R_evecs, IP_array_inv)
     else:
         raise ValueError('Invalid scale choice.  Must be LEFT or RIGHT.')
 
-- 
2.43.0


From c0aaab1a0e49dab8cd49f8eb18215230b2944eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:50 +0000
Subject: [PATCH 31/34] fix: inner products of vectors of different precisions
 are not truncated

---
 modred/vectorspace.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/modred/vectorspace.py b/modred/vectorspace.py
index 27ce910..0131060 100644
--- a/modred/vectorspace.py
+++ b/modred/vectorspace.py
@@ -75,8 +75,9 @@ class VectorSpaceArrays(object):
 def _insert_inner_product(IP_array, row_index, col_index, IP):
     """Stores an inner product in an array, promoting the data type of the
     array first if it cannot hold the inner product (e.g., a complex value
-    in a real array).  Returns the array."""
-    dtype = np.result_type(IP_array, IP)
+    in a real array, or a double in a single precision array).  Returns the
+    array."""
+    dtype = np.result_type(IP_array.dtype, np.asarray(IP).dtype)
     if dtype != IP_array.dtype:
         IP_array = IP_array.astype(dtype)
     IP_array[row_index, col_index] = IP
-- 
2.43.0


From 6224d6e20550068dd801cb4da7d896330742788c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:45 +0000
Subject: [PATCH 32/34] fix: arrays of integers are promoted before their
 products and differences overflow

---
 modred/dmd.py             |  4 ++--
 modred/ltigalerkinproj.py |  2 +-
 modred/util.py            | 12 +++++++++---
 modred/vectorspace.py     |  6 +++---
 4 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/modred/dmd.py b/modred/dmd.py
index 165d223..1b37c60 100644
--- a/modred/dmd.py
+++ b/modred/dmd.py
@@ -335,7 +335,7 @@ def compute_DMD_arrays_direct_method(
 
     # Weight data as necessary
     if inner_product_weights is None:
-        vecs_weighted = vecs
+        vecs_weighted = util.as_inexact(vecs)
         if adv_vecs is not None:
             adv_vecs_weighted = adv_vecs
     elif inner_product_weights.ndim == 1:
@@ -1517,7 +1517,7 @@ def compute_TLSqrDMD_arrays_direct_method(
 
     # Weight data as necessary
     if inner_product_weights is None:
-        vecs_weighted = vecs
+        vecs_weighted = util.as_inexact(vecs)
         if adv_vecs is not None:
             adv_vecs_weighted = adv_vecs
     elif inner_product_weights.ndim == 1:
diff --git a/modred/ltigalerkinproj.py b/modred/ltigalerkinproj.py
index 4c9cceb..eaf039c 100644
--- a/modred/ltigalerkinproj.py
+++ b/modred/ltigalerkinproj.py
@@ -71,7 +71,7 @@ def compute_derivs_arrays(vecs, adv_vecs, dt):
     Computes d(``vec``)/dt = ( ``vec``\(t=dt) -  ``vec``\(t=0) ) / dt.
     """
     # Force data to be arrays, then compute derivatives
-    return (np.array(adv_vecs) - np.array(vecs))/(1. * dt)
+    return (util.as_inexact(np.array(adv_vecs)) - np.array(vecs))/(1. * dt)
 
 
 class LTIGalerkinProjectionBase(object):
diff --git a/modred/util.py b/modred/util.py
index bf7e8f8..f20f06c 100644
--- a/modred/util.py
+++ b/modred/util.py
@@ -45,6 +45,12 @@ def flatten_list(my_list):
     return [num for elem in my_list for num in elem]
 
 
+def as_inexact(array):
+    """Converts an array of integers to floating point, so that its products
+    and differences cannot overflow.  Other arrays are returned as they are."""
+    return array.astype(float) if array.dtype.kind in 'biu' else array
+
+
 def save_array_text(array, file_name, delimiter=None):
     """Saves a 1D or 2D array to a text file.
 
@@ -376,9 +382,9 @@ def balanced_truncation(
     - This function is not computationally efficient or accurate relative to
       Matlab's ``balancmr``.
     """
-    A = np.array(A)
-    B = np.array(B)
-    C = np.array(C)
+    A = as_inexact(np.array(A))
+    B = as_inexact(np.array(B))
+    C = as_inexact(np.array(C))
     gram_cont = scipy.linalg.solve_discrete_lyapunov(
         A, B.dot(B.transpose().conj()))
     gram_obsv = scipy.linalg.solve_discrete_lyapunov(
diff --git a/modred/vectorspace.py b/modred/vectorspace.py
index 0131060..e3b0245 100644
--- a/modred/vectorspace.py
+++ b/modred/vectorspace.py
@@ -19,7 +19,7 @@ class VectorSpaceArrays(object):
     def __init__(self, weights=None):
         self.weights = weights
         if self.weights is not None:
-            self.weights = np.array(self.weights)
+            self.weights = util.as_inexact(np.array(self.weights))
             # Remove extra dimensions, but keep one for a single weight
             if self.weights.ndim > 0:
                 self.weights = np.atleast_1d(self.weights.squeeze())
@@ -34,7 +34,7 @@ class VectorSpaceArrays(object):
 
 
     def _IP_no_weights(self, vecs1, vecs2):
-        return np.dot(vecs1.conj().T, vecs2)
+        return np.dot(util.as_inexact(vecs1).conj().T, vecs2)
 
 
     def _IP_1D_weights(self, vecs1, vecs2):
@@ -56,7 +56,7 @@ class VectorSpaceArrays(object):
 
     def lin_combine(
         self, basis_vecs, coeff_array, coeff_array_col_indices=None):
-        coeff_array = np.array(coeff_array)
+        coeff_array = util.as_inexact(np.array(coeff_array))
         if coeff_array_col_indices is not None:
             coeff_array = coeff_array[:, coeff_array_col_indices]
         return basis_vecs.dot(coeff_array)
-- 
2.43.0


From 454de467865922d2fa7b837128030ba233640444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:42 +0000
Subject: [PATCH 33/34] fix: inner products of integer vectors and integer
 grids do not overflow

---
 modred/vectors.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/modred/vectors.py b/modred/vectors.py
index a4b6b06..aec9321 100644
--- a/modred/vectors.py
+++ b/modred/vectors.py
@@ -157,7 +157,7 @@ def inner_product_array_uniform(vec1, vec2):
     """Takes inner product of numpy arrays without weighting. The first element
     is conjugated, i.e., IP = np.dot(vec1.conj().T, v2)
     """
-    return np.vdot(vec1, vec2)
+    return np.vdot(util.as_inexact(np.asarray(vec1)), vec2)
 
 
 class InnerProductTrapz(object):
@@ -210,9 +210,9 @@ class InnerProductTrapz(object):
         # loop over the grids collapses each dimension after integrating
         # over that dimension until IP is a scalar by the end of the loop
         # over the grids.
-        IP = vec1.conj() * vec2
+        IP = util.as_inexact(vec1).conj() * vec2
         for grid in reversed(self.grids):
-            IP = np.trapz(IP, x=grid)
+            IP = np.trapz(IP, x=util.as_inexact(grid))
         return IP
 
 
-- 
2.43.0


From 5aa585a81dd45c30390e1ce86d724ec8c858df5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:42 +0000
Subject: [PATCH 34/34] fix: integer coefficients of linear combinations do not
 overflow integer vectors

---
 modred/vectorspace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modred/vectorspace.py b/modred/vectorspace.py
index e3b0245..d91e95d 100644
--- a/modred/vectorspace.py
+++ b/modred/vectorspace.py
@@ -895,7 +895,7 @@ class VectorSpaceHandles(object):
         num_sums = len(sum_vec_handles)
 
         # Force coefficients to be array
-        coeff_array = np.array(coeff_array)
+        coeff_array = util.as_inexact(np.array(coeff_array))
 
         # Check for 1d coefficient arrays
         if coeff_array.ndim < 2:
-- 
2.43.0

