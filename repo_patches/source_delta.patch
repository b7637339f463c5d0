From 0221a0faee841b2f19913e490e0e78f9c064048a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:18 +0000
Subject: [PATCH 1/9] fix: solve_index accepts only position 0 for the empty
 shape

Assigning to a single element of COO, FlatCOO, CSR, and DM arrays
overwrote all stored elements because every position was reported as a
match of the zero-dimensional slice.
---
 gcs/slice_tools.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gcs/slice_tools.py b/gcs/slice_tools.py
index 208938d..01843e5 100644
--- a/gcs/slice_tools.py
+++ b/gcs/slice_tools.py
@@ -340,6 +340,8 @@ def solve_index(pos, shape, strides, data=None):
         data = init_diophantine(strides, shape=shape)
     d, z0, zs, D, b, s = data
     assert not shape or s is not None
+    if not shape and pos != 0:
+        return  # the empty sum is zero, no solution exists
     if pos % d:
         return  # no solution exists
 
-- 
2.43.0


From daed0bd2db6334eff2c9e338982998664438a7ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:18 +0000
Subject: [PATCH 2/9] fix: take reduction offset into account when slicing a
 sliced DM array

Fixing all axes of a reduced dimension of an already sliced DM array
ignored the offset of the first slice and returned wrong elements.
---
 gcs/storage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gcs/storage.py b/gcs/storage.py
index 0198cd7..5675438 100644
--- a/gcs/storage.py
+++ b/gcs/storage.py
@@ -1113,7 +1113,7 @@ class DM(Storage):
                 rstrides += (kstrides,)
                 dindex += (None,)
             else:
-                dindex += (koffset,)
+                dindex += (self.roffset[k] + koffset,)
             t = tuple(axis_map[i] for i in self.rdimensions[k] if i not in axis_to_be_removed)
             if t:
                 rdimensions += (t,)
-- 
2.43.0


From fe3805fff23ceb91d750441333160bed329f4646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:18 +0000
Subject: [PATCH 3/9] fix: DM slicing must not copy storage data when no
 storage dimension is removed

Slicing a DM array with COO, FlatCOO, or CSR storage copied all storage
data although such slicing is documented to be no-copy, so that
assignments via the slice were lost.
---
 gcs/storage.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gcs/storage.py b/gcs/storage.py
index 5675438..144f44c 100644
--- a/gcs/storage.py
+++ b/gcs/storage.py
@@ -1122,5 +1122,8 @@ class DM(Storage):
         # storage data when the sliced array has the same
         # dimensionality (holds also for COO and CSR use cases) or
         # when the data storage uses strided storage format.
-        data = self.data[dindex] if dindex else self.data
+        if all(i is None for i in dindex):
+            data = self.data
+        else:
+            data = self.data[dindex]
         return DM(gshape, rdimensions, rstrides, roffset, data)
-- 
2.43.0


From abd91588e64e1aa3541d521f143b8d5d1905b739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:18 +0000
Subject: [PATCH 4/9] fix: slicing an empty Strided array raised IndexError

As a consequence, also the conversion to CSR failed when all the array
elements were unspecified.
---
 gcs/storage.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gcs/storage.py b/gcs/storage.py
index 144f44c..dcbbf35 100644
--- a/gcs/storage.py
+++ b/gcs/storage.py
@@ -649,7 +649,9 @@ class Strided(Storage):
         return get_position(index, self.shape, self.strides)
 
     def get_slice(self, shape, strides, offset):
-        return Strided(shape, strides, self.data[offset:])
+        # a slice without elements does not need to point into the buffer
+        data = self.data[offset:] if product(shape) else self.data
+        return Strided(shape, strides, data)
 
 
 class COO(Storage):
-- 
2.43.0


From 60cddd9eb14c719e0577f5ed98ab634e9dbe1d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:18 +0000
Subject: [PATCH 5/9] fix: slicing along an axis of size zero raised
 ZeroDivisionError

---
 gcs/slice_tools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gcs/slice_tools.py b/gcs/slice_tools.py
index 01843e5..c81711e 100644
--- a/gcs/slice_tools.py
+++ b/gcs/slice_tools.py
@@ -84,7 +84,7 @@ def apply_slices(slices, shape, strides):
             offset += stride * (s % size)
         elif isinstance(s, slice):
             s = reduced(s, size)
-            offset += stride * (s.start % size)
+            offset += stride * (s.start % size) if size else 0
             new_strides.append(stride * s.step)
             new_shape.append(nitems(s, size, reduce=False))
         elif s is None:  # None represents slice(None, None, None)
@@ -115,7 +115,7 @@ def index_strided(index, shape, strides, offset=0):
         if isinstance(ind, int):
             offset += stride * ind
         elif isinstance(ind, slice):
-            offset += stride * (ind.start % size)
+            offset += stride * (ind.start % size) if size else 0
             new_shape.append(nitems(ind, size, reduce=False))
             new_strides.append(stride * ind.step)
         elif ind is None:
-- 
2.43.0


From f18ef52674b28675f51e0be70d0c94057f66dd1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:18 +0000
Subject: [PATCH 6/9] fix: init_diophantine failed for shapes of empty arrays

For instance, iterating over the elements of an empty FlatCOO array
raised AssertionError or ZeroDivisionError.
---
 gcs/slice_tools.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gcs/slice_tools.py b/gcs/slice_tools.py
index c81711e..912b361 100644
--- a/gcs/slice_tools.py
+++ b/gcs/slice_tools.py
@@ -206,6 +206,10 @@ def init_diophantine(a, shape=None):
     if len(a) == 0:
         return 1, (), (), (), (), None
 
+    if shape is not None and 0 in shape:
+        # an empty array has no valid indices
+        return 1, (0,) * len(a), (), (), (), shape
+
     if len(a) == 1:
         d = a[0]
         return d, (1,), (), (), (), shape
-- 
2.43.0


From 5f67cbffa20b8df9ebc43472128b7dd9b1ad5c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:18 +0000
Subject: [PATCH 7/9] fix: Buffer elements must be indexed by tuples as in
 other storages

Buffer was never equal element-wise to an 1-D array of any other format.
---
 gcs/storage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gcs/storage.py b/gcs/storage.py
index dcbbf35..f12f603 100644
--- a/gcs/storage.py
+++ b/gcs/storage.py
@@ -592,7 +592,7 @@ class Buffer(Storage):
     def indices_and_data_position(self):
         for data_pos in range(self.offset, self.offset + self.size):
             index = data_pos - self.offset
-            yield index, data_pos
+            yield (index,), data_pos
 
 
 class Strided(Storage):
-- 
2.43.0


From 68b1e63d63c02d4c0fa826e3d4d5481be401a5c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:27 +0000
Subject: [PATCH 8/9] fix: compare the elements of Strided arrays rather than
 their buffers

For instance, reversed slices of different arrays compared equal when
the last elements of the arrays were equal, and slices with the same
elements compared unequal when the rest of the buffers were different.
---
 gcs/storage.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/gcs/storage.py b/gcs/storage.py
index f12f603..b869cf5 100644
--- a/gcs/storage.py
+++ b/gcs/storage.py
@@ -621,6 +621,17 @@ class Strided(Storage):
     def _get_object_data(self):
         return self.shape, self.strides, self.data
 
+    def __eq__(self, other):
+        # the buffer of a slice may not cover all the slice elements or
+        # it may contain extra elements, hence compare the elements
+        if isinstance(other, type(self)):
+            return self is other or (
+                self.shape == other.shape
+                and self.strides == other.strides
+                and self.unspecified == other.unspecified
+                and list(self.elements()) == list(other.elements()))
+        return NotImplemented
+
     def copy(self, unspecified=DEFAULT):
         """Return a row-wise contiguous copy.
         """
-- 
2.43.0


From e25eb66d76242650491a40774d5cc7efdf0ab04d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:28 +0000
Subject: [PATCH 9/9] fix: is_full of sliced DM arrays used the size of the
 storage array

---
 gcs/storage.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gcs/storage.py b/gcs/storage.py
index b869cf5..97a64a2 100644
--- a/gcs/storage.py
+++ b/gcs/storage.py
@@ -1082,6 +1082,11 @@ class DM(Storage):
     def _get_object_data(self):
         return self.shape, self.rdimensions, self.rstrides, self.roffset, self.data
 
+    def is_full(self):
+        # a slice of DM array may cover only a part of the storage array
+        return self.data.is_full() or all(
+            value != self.unspecified for _, value in self.elements())
+
     def indices_and_data_position(self):
         for index in itertools.product(*map(range, self.shape)):
             rindex = reduce_index(self.rshapes, self.rdimensions, self.rstrides,
-- 
2.43.0

