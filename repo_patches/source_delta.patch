From 8d4d14c30fa3d30e77faaa00689449919f1feca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:57 +0000
Subject: [PATCH 001/109] fix: send C-ordered local data in MPIArray.gather

A local array that is Fortran-ordered (e.g. after a transpose) was sent as raw
memory and scrambled on the receiving rank, and a non-contiguous one raised.
---
 caput/mpiarray.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/caput/mpiarray.py b/caput/mpiarray.py
index 69bba87..dbe2e85 100644
--- a/caput/mpiarray.py
+++ b/caput/mpiarray.py
@@ -1552,7 +1552,9 @@ class MPIArray(np.ndarray):
 
             # Send the data
             if self.comm.rank == ri:
-                request = self.comm.Isend(self._prep_buf(self.local_array), dest=rank)
+                # The data must be sent in C-order to match the receive buffer
+                sbuf = np.ascontiguousarray(self.local_array)
+                request = self.comm.Isend(self._prep_buf(sbuf), dest=rank)
 
                 # Wait until the data has been sent
                 stat = mpitools.MPI.Status()
-- 
2.43.0


From bac309e08122e8ef131c564d75e4f7fa8be6bf88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:57 +0000
Subject: [PATCH 002/109] fix: wait for the receive from the gathering rank
 itself in MPIArray.gather

The send request overwrote the receive request on the gathering rank, so the
receive buffer was read without its receive ever being completed.
---
 caput/mpiarray.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/caput/mpiarray.py b/caput/mpiarray.py
index dbe2e85..ea82641 100644
--- a/caput/mpiarray.py
+++ b/caput/mpiarray.py
@@ -1548,7 +1548,7 @@ class MPIArray(np.ndarray):
                 tbuf = np.empty(tshape, dtype=self.dtype)
 
                 # Set up the non-blocking receive request
-                request = self.comm.Irecv(self._prep_buf(tbuf), source=ri)
+                recv_request = self.comm.Irecv(self._prep_buf(tbuf), source=ri)
 
             # Send the data
             if self.comm.rank == ri:
@@ -1568,7 +1568,7 @@ class MPIArray(np.ndarray):
             if self.comm.rank == rank:
                 # Wait until the data has arrived
                 stat = mpitools.MPI.Status()
-                request.Wait(status=stat)
+                recv_request.Wait(status=stat)
 
                 if stat.error != mpitools.MPI.SUCCESS:
                     raise RuntimeError(
-- 
2.43.0


From b95b3d5e9dae9a5f83aa30191f06e7fe1e2bb7b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:57 +0000
Subject: [PATCH 003/109] fix: index with a tuple of slices in gather_local on
 a single process

Indexing with a list of slices raises an IndexError.
---
 caput/util/mpitools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/caput/util/mpitools.py b/caput/util/mpitools.py
index fc4521c..fb1934a 100644
--- a/caput/util/mpitools.py
+++ b/caput/util/mpitools.py
@@ -608,7 +608,7 @@ def gather_local(
 
     if comm is None or comm.size == 1:
         # only one process
-        slc = [slice(s, s + n) for (s, n) in zip(local_start, local_size)]
+        slc = tuple(slice(s, s + n) for (s, n) in zip(local_start, local_size))
         global_array[slc] = local_array.copy()
     else:
         local_sizes = comm.gather(local_size, root=root)
-- 
2.43.0


From b37f1cba0ba9c826739806cbb861f85b14033aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:24 +0000
Subject: [PATCH 004/109] fix: resolve negative, strided and out of range
 global slices per rank

---
 caput/mpiarray.py | 67 ++++++++++++++++++++---------------------------
 1 file changed, 29 insertions(+), 38 deletions(-)

diff --git a/caput/mpiarray.py b/caput/mpiarray.py
index ea82641..c53c3d7 100644
--- a/caput/mpiarray.py
+++ b/caput/mpiarray.py
@@ -305,7 +305,7 @@ class _global_resolver:
         local_length = self.array.shape[self.axis]
 
         # Expand a single integer or slice index
-        if isinstance(slobj, int | slice):
+        if isinstance(slobj, int | np.integer | slice):
             slobj: SelectionTupleLike = (slobj, Ellipsis)
 
         # Add an ellipsis if length of slice object is too short
@@ -331,55 +331,46 @@ class _global_resolver:
 
         # Process the parallel axis. Calculate the correct index for the
         # containing rank, and set None on all others.
-        if isinstance(slice_list[self.axis], int):
-            index = slice_list[self.axis] - self.offset
+        if isinstance(slice_list[self.axis], int | np.integer):
+            index = slice_list[self.axis]
+            # Resolve negative indices
+            index = (index if index >= 0 else index + self.length) - self.offset
             slice_list[self.axis] = (
                 None if (index < 0 or index >= local_length) else index
             )
             fullslice = False
 
-        # If it's a slice, then resolve any offsets
-        # If any of start or stop is defined then mark that this is not a complete slice
-        # Also mark if there is any actual data on this rank
+        # If it's a slice, then find the part of it which is held on this rank. If any
+        # of start, stop or step is defined then mark that this is not a complete slice.
         elif isinstance(slice_list[self.axis], slice):
             s = slice_list[self.axis]
-            start = s.start
-            stop = s.stop
-            step = s.step
-
-            # Check if start is defined, and modify slice
-            if start is not None:
-                start = (
-                    start if start >= 0 else start + self.length
-                )  # Resolve negative indices
-                fullslice = False
-                start = start - self.offset
-            else:
-                start = 0
-
-            # Check if stop is defined and modify slice
-            if stop is not None:
-                stop = (
-                    stop if stop >= 0 else stop + self.length
-                )  # Resolve negative indices
-                fullslice = False
-                stop = stop - self.offset
-            else:
-                stop = local_length
+            fullslice = s.start is None and s.stop is None and s.step is None
+
+            # Resolve undefined, negative and out of bounds values
+            start, stop, step = s.indices(self.length)
 
-            # If step is defined we don't need to adjust this, but it's no longer a
-            # complete slice
-            if step is not None:
-                fullslice = False
+            lower = self.offset
+            upper = self.offset + local_length
+
+            # Find the first element of the global slice which is on this rank, and the
+            # point at which we leave either the slice or this rank
+            if step > 0:
+                first = max(start, lower + (start - lower) % step)
+                last = min(stop, upper)
+                has_data = first < last
+            else:
+                first = min(start, upper - 1 - (upper - 1 - start) % -step)
+                last = max(stop, lower - 1)
+                has_data = first > last
 
             # If there is no data on this node place None on the parallel axis
-            if start >= local_length or stop < 0:
+            if not has_data:
                 slice_list[self.axis] = None
             else:
-                # Normalise the indices and create slice
-                start = max(min(start, local_length), 0)
-                stop = max(min(stop, local_length), 0)
-                slice_list[self.axis] = slice(start, stop, step)
+                last -= self.offset
+                slice_list[self.axis] = slice(
+                    first - self.offset, last if last >= 0 else None, s.step
+                )
 
         return tuple(slice_list), fullslice
 
-- 
2.43.0


From 46c425c38388223702a484f6a01744f63f81a8f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:12:03 +0000
Subject: [PATCH 005/109] fix: accept None and negative axes in
 MPIArray.transpose

---
 caput/mpiarray.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/caput/mpiarray.py b/caput/mpiarray.py
index c53c3d7..eae7cbc 100644
--- a/caput/mpiarray.py
+++ b/caput/mpiarray.py
@@ -1373,9 +1373,12 @@ class MPIArray(np.ndarray):
 
         if len(axes) == 1 and isinstance(axes[0], tuple | list):
             axes: list | tuple = axes[0]
-        elif axes is None or axes == ():
+        elif axes in ((), (None,)):
             axes: list = list(range(self.ndim - 1, -1, -1))
 
+        # Resolve negative axes
+        axes: list = [ax if ax >= 0 else ax + self.ndim for ax in axes]
+
         tdata._global_shape = tuple(self.global_shape[ax] for ax in axes)
         tdata._local_shape = tuple(self.local_shape[ax] for ax in axes)
         tdata._local_offset = tuple(self.local_offset[ax] for ax in axes)
-- 
2.43.0


From 76d794749be5d4d9398d988ad116fa507b1f2169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:12:03 +0000
Subject: [PATCH 006/109] fix: keep track of the distributed axis in MPIArray.T
 and swapaxes

---
 caput/mpiarray.py | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/caput/mpiarray.py b/caput/mpiarray.py
index eae7cbc..79fcf82 100644
--- a/caput/mpiarray.py
+++ b/caput/mpiarray.py
@@ -1388,6 +1388,35 @@ class MPIArray(np.ndarray):
 
         return tdata
 
+    @property
+    def T(self) -> MPIArray:  # noqa: N802
+        """View of the array with the order of the axes reversed.
+
+        Returns
+        -------
+        transposed_array : MPIArray
+            Transposed :py:class:`MPIArray` view of the original data.
+        """
+        return self.transpose()
+
+    def swapaxes(self, axis1: int, axis2: int) -> MPIArray:
+        """Interchange two axes of the array.
+
+        Parameters
+        ----------
+        axis1, axis2 : int
+            The axes to interchange.
+
+        Returns
+        -------
+        swapped_array : MPIArray
+            :py:class:`MPIArray` view of the original data.
+        """
+        axes = list(range(self.ndim))
+        axes[axis1], axes[axis2] = axes[axis2], axes[axis1]
+
+        return self.transpose(axes)
+
     def reshape(self, *shape: Sequence[int | None], order: str = "C") -> MPIArray:  # noqa: D417
         r"""Reshape the array.
 
-- 
2.43.0


From 6107a97f131468dc30edff49d07b2bc18271dc04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:12:03 +0000
Subject: [PATCH 007/109] fix: reshape with a wildcard on ranks which hold no
 part of the distributed axis

---
 caput/mpiarray.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/caput/mpiarray.py b/caput/mpiarray.py
index 79fcf82..d8e0f46 100644
--- a/caput/mpiarray.py
+++ b/caput/mpiarray.py
@@ -1462,7 +1462,7 @@ class MPIArray(np.ndarray):
                 else:
                     new_size *= s
 
-            if wildcard_pos >= 0 and actual_size % new_size == 0:
+            if wildcard_pos >= 0 and new_size > 0 and actual_size % new_size == 0:
                 # If there was a wildcard then it then we need to check that it would be
                 # a sane value and calculate what it is
                 new_shape: list = list(new_shape)
@@ -1490,17 +1490,20 @@ class MPIArray(np.ndarray):
         # messing up the axis distribution. In both cases we will *include* the
         # distributed axis in the test as this takes care of cases where we are adding
         # length-1 axes where there are currently no axes.
+        # It is given a length of one, as its length on this rank could be zero.
         # First, we test any axes after the distributed axis...
-        post_shape = self.local_shape[self.axis :]
-        new_post_shape: list = local_shape[new_axis:]
+        post_shape = (1, *self.local_shape[(self.axis + 1) :])
+        new_post_shape: list = [1, *local_shape[(new_axis + 1) :]]
         new_post_shape: tuple = _check_shapes(post_shape, new_post_shape)
         # Then, we test any axes before the distributed axis...
-        pre_shape = self.local_shape[: (self.axis + 1)]
-        new_pre_shape: list = local_shape[: (new_axis + 1)]
+        pre_shape = (*self.local_shape[: self.axis], 1)
+        new_pre_shape: list = [*local_shape[:new_axis], 1]
         new_pre_shape: tuple = _check_shapes(pre_shape, new_pre_shape)
 
         # Construct the new fleshed out local array shape
-        local_shape = new_pre_shape[:new_axis] + new_post_shape
+        local_shape = (
+            new_pre_shape[:new_axis] + (local_shape[new_axis],) + new_post_shape[1:]
+        )
 
         # Now we actually try the resize...
         new_data = self.local_array.reshape(local_shape, order=order)
-- 
2.43.0


From f8e262958cb5e7c553c0351039866f56fb9519e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:12:36 +0000
Subject: [PATCH 008/109] fix: position of the distributed axis when indexing
 with arrays and integers

---
 caput/mpiarray.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/caput/mpiarray.py b/caput/mpiarray.py
index d8e0f46..c47c2c4 100644
--- a/caput/mpiarray.py
+++ b/caput/mpiarray.py
@@ -2489,6 +2489,20 @@ def sanitize_slice(
     final_positions = []
     output_ind = 0
 
+    # Index arrays are broadcast together (and with any integers), and give a single set
+    # of axes in the final output. These replace the indexed axes if they are all next to
+    # each other and go to the front otherwise.
+    arrays = [ii for ii, s in enumerate(sl) if isinstance(s, list | tuple | np.ndarray)]
+    array_ind = None
+    if arrays:
+        num_array_axes = max(np.ndim(sl[ii]) for ii in arrays)
+        advanced = [
+            ii for ii, s in enumerate(sl) if ii in arrays or isinstance(s, int)
+        ]
+        if advanced[-1] - advanced[0] >= len(advanced):
+            array_ind = 0
+            output_ind = num_array_axes
+
     # Extract the axis mappings
     for ii, s in enumerate(sl):
         # Any slice entry that's not a newaxis should map to an axis in the original
@@ -2496,9 +2510,16 @@ def sanitize_slice(
         if s is not np.newaxis:
             axis_map.append(ii)
 
+        # The first of a set of index arrays and integers determines their position
+        if arrays and array_ind is None and ii == advanced[0]:
+            array_ind = output_ind
+            output_ind += num_array_axes
+
         # Exact integer indices will remove an axis from the final output
         if isinstance(s, int):
             final_positions.append(None)
+        elif ii in arrays:
+            final_positions.append(array_ind)
         else:
             final_positions.append(output_ind)
             output_ind += 1
-- 
2.43.0


From bacc5547f07b082625f3f963f9f520188d2c5cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:16 +0000
Subject: [PATCH 009/109] fix: refuse accumulation over the distributed axis
 given by a negative number

---
 caput/mpiarray.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/caput/mpiarray.py b/caput/mpiarray.py
index c47c2c4..d5c25e7 100644
--- a/caput/mpiarray.py
+++ b/caput/mpiarray.py
@@ -2027,7 +2027,7 @@ class MPIArray(np.ndarray):
     ) -> tuple[int, 3]:
         """Validate and infer the final distributed axis for a ufunc accumulation."""
         # An accumulation should give an array the same shape as the input.
-        if axis == input_.axis:
+        if (axis if axis >= 0 else input_.ndim + axis) == input_.axis:
             raise AxisException(
                 f"Can not accumulate over the distributed axis (axis={input_.axis})"
             )
-- 
2.43.0


From dc4dd8b68edec31482c63ca9cb45f6425c579b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:16 +0000
Subject: [PATCH 010/109] fix: account for the dimensions of list operands in
 MPIArray ufunc calls

---
 caput/mpiarray.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/caput/mpiarray.py b/caput/mpiarray.py
index d5c25e7..22c0355 100644
--- a/caput/mpiarray.py
+++ b/caput/mpiarray.py
@@ -1956,6 +1956,11 @@ class MPIArray(np.ndarray):
         self, ufunc: np.ufunc, *inputs: tuple[npt.ArrayLike, ...], **kwargs: Any
     ) -> tuple[int, int, int]:
         """Validate and infer the final distributed axis and shape for a standard ufunc call."""
+        # Sequences are broadcast like the arrays they are equivalent to
+        inputs = [
+            np.asarray(inp) if isinstance(inp, list | tuple) else inp for inp in inputs
+        ]
+
         # For a 'call' the highest dimensional array should determine the dimensionality
         # of the output, so we find that
         max_dim_input = inputs[
-- 
2.43.0


From bbff09686c21334ae0a0be0f3d9788fd23bb0910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:48 +0000
Subject: [PATCH 011/109] fix: empty selections and empty arrays in distributed
 file IO

---
 caput/mpiarray.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/caput/mpiarray.py b/caput/mpiarray.py
index 22c0355..11cacf8 100644
--- a/caput/mpiarray.py
+++ b/caput/mpiarray.py
@@ -1753,7 +1753,7 @@ class MPIArray(np.ndarray):
         min_axis_size = int(np.ceil(largest_size / threshold_bytes))
 
         # Return early if we can
-        if skip or min_axis_size == 1:
+        if skip or min_axis_size <= 1:
             return 0, [slice(0, self.local_shape[0])]
 
         if self.ndim == 1:
@@ -2223,8 +2223,7 @@ def _partition_sel(
 def _len_slice(slice_: slice, n: int) -> int:
     """Calculate the output length of a slice applied to an axis of length n."""
     if isinstance(slice_, slice):
-        start, stop, step = slice_.indices(n)
-        return 1 + (stop - start - 1) // step
+        return len(range(*slice_.indices(n)))
 
     return len(slice_)
 
-- 
2.43.0


From e33670c416f66e27cf495b1345b944df1d18b288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:24 +0000
Subject: [PATCH 012/109] fix: raise KeyError when a path leads through a
 dataset

---
 caput/memdata/_memh5.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/caput/memdata/_memh5.py b/caput/memdata/_memh5.py
index a782107..b1fc1ce 100644
--- a/caput/memdata/_memh5.py
+++ b/caput/memdata/_memh5.py
@@ -167,6 +167,9 @@ class _StorageRoot(_Storage):
         # Crawl the path.
         out = self
         for part in path_parts:
+            # A dataset has no entries below it
+            if not isinstance(out, _Storage):
+                raise KeyError(key)
             out = out[part]
         return out
 
-- 
2.43.0


From be9d6e50bd9cc425a0c42a9a876e2932fe5ff8e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:24 +0000
Subject: [PATCH 013/109] fix: delete entries whose path has extra slashes

---
 caput/memdata/_memh5.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/caput/memdata/_memh5.py b/caput/memdata/_memh5.py
index b1fc1ce..293c78c 100644
--- a/caput/memdata/_memh5.py
+++ b/caput/memdata/_memh5.py
@@ -305,7 +305,7 @@ class _BaseGroup(_MemObjMixin, Mapping):
         if name not in self:
             raise KeyError(f"Key {name} not present.")
 
-        path = posixpath.join(self.name, name)
+        path = format_abs_path(posixpath.join(self.name, name))
         parent_path, name = posixpath.split(path)
         parent = self._storage_root[parent_path]
 
-- 
2.43.0


From db9ef399ffe5bc89e56963ff829966bf2f9d5836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:24 +0000
Subject: [PATCH 014/109] fix: keep the distribution settings in
 MemGroup.from_group

---
 caput/memdata/_memh5.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/caput/memdata/_memh5.py b/caput/memdata/_memh5.py
index 293c78c..dadd337 100644
--- a/caput/memdata/_memh5.py
+++ b/caput/memdata/_memh5.py
@@ -435,7 +435,7 @@ class MemGroup(_BaseGroup):
             If the input group is not a supported type.
         """
         if isinstance(group, MemGroup):
-            self = cls()
+            self = cls(distributed=group.distributed, comm=group.comm)
             deep_group_copy(group, self)
             return self
 
-- 
2.43.0


From 26a4d6a02c05019bdb0d61676d5ce33e8d943bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:24 +0000
Subject: [PATCH 015/109] fix: keep the selection when copying a dataset into a
 file

---
 caput/memdata/_memh5.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/caput/memdata/_memh5.py b/caput/memdata/_memh5.py
index dadd337..a7ee07e 100644
--- a/caput/memdata/_memh5.py
+++ b/caput/memdata/_memh5.py
@@ -2577,7 +2577,10 @@ def deep_group_copy(
         elif to_file:
             # If we shouldn't convert we at least need to ensure there aren't any
             # Unicode characters before writing
-            data = typeutils.check_unicode(entry)
+            if typeutils.has_unicode(data.dtype):
+                raise TypeError(
+                    f'Can not write dataset "{dset.name!s}" of unicode type into HDF5.'
+                )
 
         dset_args = {"dtype": data.dtype, "shape": data.shape, "data": data}
         # If we're copying memory to memory we can allow distributed datasets
-- 
2.43.0


From 0a31052e081ec0ebbd8d2f0ec01caaadb2d383db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:24 +0000
Subject: [PATCH 016/109] fix: honour the hints argument of MemGroup.to_file

---
 caput/memdata/_memh5.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/caput/memdata/_memh5.py b/caput/memdata/_memh5.py
index a7ee07e..03f0c23 100644
--- a/caput/memdata/_memh5.py
+++ b/caput/memdata/_memh5.py
@@ -677,6 +677,7 @@ class MemGroup(_BaseGroup):
                 self,
                 filename,
                 mode,
+                hints=hints,
                 convert_attribute_strings=convert_attribute_strings,
                 convert_dataset_strings=convert_dataset_strings,
                 file_format=file_format,
-- 
2.43.0


From e40ae122e2b0b650d7872f63a3dfa573a696282f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:24 +0000
Subject: [PATCH 017/109] fix: distribute a common dataset over the requested
 axis

---
 caput/memdata/_memh5.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/caput/memdata/_memh5.py b/caput/memdata/_memh5.py
index 03f0c23..c8153a9 100644
--- a/caput/memdata/_memh5.py
+++ b/caput/memdata/_memh5.py
@@ -946,7 +946,9 @@ class MemGroup(_BaseGroup):
         md = mpiarray.MPIArray(
             dset_shape, axis=distributed_axis, comm=self.comm, dtype=dset_type
         )
-        md.local_array[:] = dset[sd:ed].copy()
+        local_sel = [slice(None)] * len(dset_shape)
+        local_sel[distributed_axis] = slice(sd, ed)
+        md.local_array[:] = dset[tuple(local_sel)].copy()
         attr_dict = {}  # temporarily save attrs of this dataset
         copyattrs(dset.attrs, attr_dict)
         del dset
-- 
2.43.0


From da37d6aed1dd941e5970ec20b17220c05689173b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:24 +0000
Subject: [PATCH 018/109] fix: fall back to the given class when a saved
 subclass cannot be imported

---
 caput/memdata/_memh5.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/caput/memdata/_memh5.py b/caput/memdata/_memh5.py
index c8153a9..4b674f4 100644
--- a/caput/memdata/_memh5.py
+++ b/caput/memdata/_memh5.py
@@ -1721,8 +1721,9 @@ class MemDiskGroup(_BaseGroup):
         # Try to get a reference to the requested class (warn if we cannot find it)
         try:
             new_cls = importtools.import_class(clspath)
-        except (ImportError, KeyError):
+        except (ImportError, AttributeError, KeyError):
             warnings.warn(f"Could not import memh5 subclass {clspath}")
+            return cls
 
         # Check that it is a subclass of MemDiskGroup
         if not issubclass(new_cls, MemDiskGroup):
-- 
2.43.0


From 68a745fd41d40e548ae3a2321e377040d9997b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:24 +0000
Subject: [PATCH 019/109] fix: save on-disk containers in the requested format

---
 caput/memdata/_memh5.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/caput/memdata/_memh5.py b/caput/memdata/_memh5.py
index 4b674f4..9f70c68 100644
--- a/caput/memdata/_memh5.py
+++ b/caput/memdata/_memh5.py
@@ -2252,8 +2252,15 @@ class MemDiskGroup(_BaseGroup):
         if (zarr_available and isinstance(self._data, zarr.Group)) or isinstance(
             self._data, h5py.File
         ):
+            kwargs.setdefault("mode", "w")
             with file_format.open(filename, **kwargs) as f:
-                deep_group_copy(self._data, f)
+                deep_group_copy(
+                    self._data,
+                    f,
+                    convert_attribute_strings=convert_attribute_strings,
+                    convert_dataset_strings=convert_dataset_strings,
+                    file_format=file_format,
+                )
         else:
             self._data.to_file(
                 filename,
-- 
2.43.0


From cb30555a7f51231cee15ca41db9246f5c680cd07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:24 +0000
Subject: [PATCH 020/109] fix: serialise numpy scalars within dictionary
 attributes

---
 caput/memdata/_memh5.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/caput/memdata/_memh5.py b/caput/memdata/_memh5.py
index 9f70c68..3c3ace2 100644
--- a/caput/memdata/_memh5.py
+++ b/caput/memdata/_memh5.py
@@ -2406,10 +2406,10 @@ def copyattrs(a1, a2, convert_strings=False):
             def default(self, o):
                 if isinstance(o, datetime.datetime):
                     return o.isoformat()
-                if isinstance(o, np.number):
-                    return o.data
+                if isinstance(o, np.generic):
+                    return o.item()
                 if isinstance(o, np.ndarray):
-                    if len(o) == 1:
+                    if o.ndim > 0 and len(o) == 1:
                         return o.tolist()[0]
                     return o.tolist()
                 if isinstance(o, bytes):  # pragma: py3
-- 
2.43.0


From e9fce3f774452f920b767a54cd9150136fc12a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:24 +0000
Subject: [PATCH 021/109] fix: let hints mark a distributed dataset in a file
 as common

---
 caput/memdata/_memh5.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/caput/memdata/_memh5.py b/caput/memdata/_memh5.py
index 3c3ace2..d84c836 100644
--- a/caput/memdata/_memh5.py
+++ b/caput/memdata/_memh5.py
@@ -2913,9 +2913,8 @@ def _distributed_group_from_file(
             else:
                 dset_hints = hints_dict.get(item.name, {})
 
-                distributed = hints and (
-                    dset_hints.get("distributed", False)
-                    or item.attrs.get("__memh5_distributed_dset", False)
+                distributed = hints and dset_hints.get(
+                    "distributed", item.attrs.get("__memh5_distributed_dset", False)
                 )
                 # Check if we are in a distributed dataset
                 if distributed:
-- 
2.43.0


From d3652d5fa9447f456f980a281e75f93125bb8cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:37 +0000
Subject: [PATCH 022/109] fix: release the lock file when the temporary file
 was never created

---
 caput/memdata/_io.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/caput/memdata/_io.py b/caput/memdata/_io.py
index 09bddec..8d1a081 100644
--- a/caput/memdata/_io.py
+++ b/caput/memdata/_io.py
@@ -108,16 +108,18 @@ class lock_file:
 
     def __exit__(self, exc_type, exc_val, exc_tb):
         if self.rank0:
-            # Check if exception was raised and delete the temp file if needed
-            if exc_type is not None:
-                if not self.preserve:
-                    os.remove(self.tmpfile)
-            # Otherwise things were successful and we should move the file over
-            else:
-                os.rename(self.tmpfile, self.filename)
-
-            # Finally remove the lock file
-            os.remove(self.lockfile)
+            try:
+                # Check if exception was raised and delete the temp file if needed
+                # (it might not have been created at all)
+                if exc_type is not None:
+                    if not self.preserve and os.path.exists(self.tmpfile):
+                        os.remove(self.tmpfile)
+                # Otherwise things were successful and we should move the file over
+                else:
+                    os.rename(self.tmpfile, self.filename)
+            finally:
+                # Finally remove the lock file
+                os.remove(self.lockfile)
 
         return False
 
-- 
2.43.0


From bd46cc9d1cabac3bfccd629898a6857c687d3cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:08 +0000
Subject: [PATCH 023/109] fix: look for strings in nested compound types with a
 single field

---
 caput/util/typeutils.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/caput/util/typeutils.py b/caput/util/typeutils.py
index 4244302..f7b1b87 100644
--- a/caput/util/typeutils.py
+++ b/caput/util/typeutils.py
@@ -220,10 +220,12 @@ def has_kind(dt: npt.DTypeLike, kind: npt._DTypeKind) -> bool:
             type_ = item[1]
 
             # Recursively convert the type
-            if isinstance(type_, list) and _iter_conv(type_):
-                return True
-            if isinstance(type_, tuple) and type_[0][1] == kind:
-                return True
+            if isinstance(type_, list):
+                if _iter_conv(type_):
+                    return True
+                continue
+            if isinstance(type_, tuple):
+                type_ = type_[0]
             if type_[1] == kind:
                 return True
 
-- 
2.43.0


From f261e1e244fc9f6872eff3a1a5a4a8b1ca439964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:08 +0000
Subject: [PATCH 024/109] fix: keep sub-arrays and skip padding when converting
 string types

---
 caput/util/typeutils.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/caput/util/typeutils.py b/caput/util/typeutils.py
index f7b1b87..34a4256 100644
--- a/caput/util/typeutils.py
+++ b/caput/util/typeutils.py
@@ -139,10 +139,15 @@ def _convert_dtype(
             name = item[0]
             type_ = item[1]
 
+            # Skip the padding between aligned fields, it isn't a field itself
+            if name == "":
+                continue
+
             # Recursively convert the type
             newtype = _iter_conv(type_) if isinstance(type_, list) else _conv(type_)
 
-            items.append((name, newtype))
+            # Keep the shape of any sub-array
+            items.append((name, newtype, *item[2:]))
 
         return items
 
-- 
2.43.0


From 0a5abd2191a1993e15923113db8ad95dcf7790c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:08 +0000
Subject: [PATCH 025/109] fix: convert unicode strings of any byte order

---
 caput/util/typeutils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/caput/util/typeutils.py b/caput/util/typeutils.py
index 34a4256..25eae82 100644
--- a/caput/util/typeutils.py
+++ b/caput/util/typeutils.py
@@ -129,7 +129,8 @@ def _convert_dtype(
         # type and throw away the metadata
         if isinstance(t, tuple):
             t = t[0]
-        return t.replace(type_from, type_to)
+        # Compare the kind only, such that any byte order is converted
+        return type_to + t[2:] if t[1] == type_from[1] else t
 
     # For compound types we must recurse over the full compound type structure
     def _iter_conv(x):
-- 
2.43.0


From 5edca80e51ab054ae827204d53455d9c83913d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:08 +0000
Subject: [PATCH 026/109] fix: keep serialised dictionary attributes when
 copying between files

---
 caput/memdata/_memh5.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/caput/memdata/_memh5.py b/caput/memdata/_memh5.py
index d84c836..4904508 100644
--- a/caput/memdata/_memh5.py
+++ b/caput/memdata/_memh5.py
@@ -2429,7 +2429,12 @@ def copyattrs(a1, a2, convert_strings=False):
             # Save to JSON converting datetimes.
             encoder = Memh5JSONEncoder()
             value = json_prefix + encoder.encode(value)
-        elif isinstance(value, str) and value.startswith(json_prefix):
+        elif (
+            isinstance(value, str)
+            and value.startswith(json_prefix)
+            and not isinstance(a2, h5py.AttributeManager)
+            and not (zarr_available and isinstance(a2, zarr.attrs.Attributes))
+        ):
             # Read from JSON, keep serialised datetimes as strings
             value = json.loads(value[len(json_prefix) :])
         return value
-- 
2.43.0


From 0bfc51054714113843712fe5a1c1952098538f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:19 +0000
Subject: [PATCH 027/109] fix: keep the zarr lock files beside the file which
 is written

---
 caput/memdata/_memh5.py       |  2 +-
 caput/memdata/fileformats.py  | 19 +++++++++++++++++++
 caput/memdata/fileformats.pyi |  1 +
 caput/mpiarray.py             |  2 +-
 4 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/caput/memdata/_memh5.py b/caput/memdata/_memh5.py
index 4904508..8bc7c64 100644
--- a/caput/memdata/_memh5.py
+++ b/caput/memdata/_memh5.py
@@ -2841,7 +2841,7 @@ def _distributed_group_to_file(
     if file_format == fileformats.Zarr:
         with (
             fileformats.ZarrProcessSynchronizer(
-                f".{fname}.sync", group.comm
+                fileformats.lock_name(fname), group.comm
             ) as synchronizer,
             zarr.open_group(store=fname, mode="r+", synchronizer=synchronizer) as f,
         ):
diff --git a/caput/memdata/fileformats.py b/caput/memdata/fileformats.py
index 204a04d..35246fa 100644
--- a/caput/memdata/fileformats.py
+++ b/caput/memdata/fileformats.py
@@ -361,6 +361,25 @@ class ZarrProcessSynchronizer:
             remove_file_or_dir(self.name)
 
 
+def lock_name(name):
+    """Get the name of the (hidden) lock file directory beside a zarr file.
+
+    Parameters
+    ----------
+    name : str
+        Name of the zarr file.
+
+    Returns
+    -------
+    lock_name : str
+        Name of the lock file directory.
+    """
+    import os
+
+    base, fname = os.path.split(name.rstrip("/"))
+    return os.path.join(base, f".{fname}.sync")
+
+
 def remove_file_or_dir(name):
     """Remove the file or directory with the given name.
 
diff --git a/caput/memdata/fileformats.pyi b/caput/memdata/fileformats.pyi
index 55dd040..4a59aac 100644
--- a/caput/memdata/fileformats.pyi
+++ b/caput/memdata/fileformats.pyi
@@ -71,6 +71,7 @@ class ZarrProcessSynchronizer:
     ) -> None: ...
 
 #
+def lock_name(name: str) -> str: ...
 def remove_file_or_dir(name: str) -> None: ...
 def guess_file_format(
     name: PathLike,
diff --git a/caput/mpiarray.py b/caput/mpiarray.py
index 11cacf8..1718d1b 100644
--- a/caput/mpiarray.py
+++ b/caput/mpiarray.py
@@ -1248,7 +1248,7 @@ class MPIArray(np.ndarray):
         if isinstance(f, str):
             if self.comm.rank == 0 and create:
                 zarr.open(store=f, mode=mode)
-            lockfile = f".{f}.sync"
+            lockfile = fileformats.lock_name(f)
             self.comm.Barrier()
             group = zarr.open_group(
                 store=f,
-- 
2.43.0


From 9742ea95db5a89d0be7f5f8533941e7eb6bdecb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:51 +0000
Subject: [PATCH 028/109] fix: normalise the path of new datasets and groups

---
 caput/memdata/_memh5.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/caput/memdata/_memh5.py b/caput/memdata/_memh5.py
index 8bc7c64..058ab62 100644
--- a/caput/memdata/_memh5.py
+++ b/caput/memdata/_memh5.py
@@ -771,8 +771,9 @@ class MemGroup(_BaseGroup):
         dataset : MemDataset
             The created dataset.
         """
-        parent_name, name = posixpath.split(posixpath.join(self.name, name))
-        parent_name = format_abs_path(parent_name)
+        parent_name, name = posixpath.split(
+            format_abs_path(posixpath.join(self.name, name))
+        )
         parent_storage = self.require_group(parent_name)._get_storage()
 
         # If distributed, synchronise to ensure that we create group collectively
@@ -2043,7 +2044,7 @@ class MemDiskGroup(_BaseGroup):
         method of the underlying storage, whether it be an :py:class:`h5py.Group` or a
         :py:class:`.MemGroup`.
         """
-        path = posixpath.join(self.name, name)
+        path = format_abs_path(posixpath.join(self.name, name))
         if not self.dataset_name_allowed(path):
             msg = f"Dataset name {path} not allowed."
             raise ValueError(msg)
@@ -2120,7 +2121,7 @@ class MemDiskGroup(_BaseGroup):
         :py:exc:`ValueError`
             If the group name is not allowed.
         """
-        path = posixpath.join(self.name, name)
+        path = format_abs_path(posixpath.join(self.name, name))
 
         if not self.group_name_allowed(path):
             raise ValueError(f"Group name {path} not allowed.")
-- 
2.43.0


From a9c7631222ead37b87e7b646442524d1fdaad372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:56:15 +0000
Subject: [PATCH 029/109] fix: load zarr groups into memory

---
 caput/memdata/_memh5.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/caput/memdata/_memh5.py b/caput/memdata/_memh5.py
index 058ab62..60bc64b 100644
--- a/caput/memdata/_memh5.py
+++ b/caput/memdata/_memh5.py
@@ -1922,10 +1922,12 @@ class MemDiskGroup(_BaseGroup):
         lockfile = None
 
         if not ondisk:
-            if (zarr_available and isinstance(file_, zarr.Group)) or isinstance(
-                file_, h5py.Group
-            ):
-                file_ = file_.filename
+            if zarr_available and isinstance(file_, zarr.Group):
+                file_format = fileformats.Zarr
+                file_ = file_.store.path
+            elif isinstance(file_, h5py.Group):
+                file_format = fileformats.HDF5
+                file_ = file_.file.filename
 
             kwargs.pop("mode", None)
 
-- 
2.43.0


From 0797ccec70e6df87732b59d7841527250aa53345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:56:31 +0000
Subject: [PATCH 030/109] fix: accept a single slice as the selection of a
 distributed dataset

---
 caput/mpiarray.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/caput/mpiarray.py b/caput/mpiarray.py
index 1718d1b..35c7793 100644
--- a/caput/mpiarray.py
+++ b/caput/mpiarray.py
@@ -2266,6 +2266,8 @@ def _expand_sel(sel: SelectionLike | None, naxis: int) -> list[slice | int]:
     """Expand the selection to the full dimensions."""
     if sel is None:
         sel = [slice(None)] * naxis
+    if isinstance(sel, slice):
+        sel = [sel]
     if len(sel) < naxis:
         sel = list(sel) + [slice(None)] * (naxis - len(sel))
     return list(sel)
-- 
2.43.0


From 913ffcb1c644f61574b72c86736014e849e337b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:03:07 +0000
Subject: [PATCH 031/109] fix: resolve a distributed axis counted from the end

---
 caput/mpiarray.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/caput/mpiarray.py b/caput/mpiarray.py
index 35c7793..fd669fe 100644
--- a/caput/mpiarray.py
+++ b/caput/mpiarray.py
@@ -600,6 +600,9 @@ class MPIArray(np.ndarray):
         # Determine local section of distributed axis
         local_num, local_start, _ = mpitools.split_local(global_shape[axis], comm=comm)
 
+        # Resolve an axis counted from the end
+        axis = axis + len(global_shape) if axis < 0 else axis
+
         # Figure out the local shape and offset
         lshape = list(global_shape)
         lshape[axis] = local_num
@@ -715,6 +718,9 @@ class MPIArray(np.ndarray):
                 f"Distributed axis {axis} does not exist in global shape {array.shape}"
             ) from e
 
+        # Resolve an axis counted from the end
+        axis = axis + array.ndim if axis < 0 else axis
+
         totallen = mpitools.allreduce(axlen, comm=comm)
 
         # Figure out what the distributed layout should be
@@ -755,6 +761,9 @@ class MPIArray(np.ndarray):
         MemoryError
             If there is not enough memory to perform the redistribution.
         """
+        # Resolve an axis counted from the end
+        axis = axis + self.ndim if axis < 0 else axis
+
         # Check to see if this is the current distributed axis
         if self.axis == axis or self.comm is None:
             return self
-- 
2.43.0


From 483cbc0a0913e63c7c1296463e9491a58a0ccbdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:03 +0000
Subject: [PATCH 032/109] fix: allow array products in pipeline tasks

---
 caput/pipeline/_pipeline.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/caput/pipeline/_pipeline.py b/caput/pipeline/_pipeline.py
index 36d921f..5fe35cb 100644
--- a/caput/pipeline/_pipeline.py
+++ b/caput/pipeline/_pipeline.py
@@ -1142,7 +1142,8 @@ class Task(config.Reader):
                 # Let the user know if there's a chance that data has been
                 # modified in-place
                 for opt in out if isinstance(out, tuple | list) else (out,):
-                    if opt in args:
+                    # Compare by identity, products may not support equality
+                    if any(opt is arg for arg in args):
                         logger.debug(
                             f"Task {self!s} may have modified dataset {opt!r} in-place. "
                             "If you encounter unexpected results, check that this is "
-- 
2.43.0


From f03c69d4e955fcd7e4c12c25c45b999c9e75985c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:03 +0000
Subject: [PATCH 033/109] fix: use the configured key pattern

---
 caput/pipeline/_pipeline.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/caput/pipeline/_pipeline.py b/caput/pipeline/_pipeline.py
index 5fe35cb..0e5d93f 100644
--- a/caput/pipeline/_pipeline.py
+++ b/caput/pipeline/_pipeline.py
@@ -145,8 +145,10 @@ class Manager(config.Reader):
 
         self._psutil_profiling = psutil_profiling
 
-        # Precompile the key pattern to skip
-        self.key_match = re.compile(self.key_pattern)
+    @property
+    def key_match(self):
+        """Compiled version of the current key pattern."""
+        return re.compile(self.key_pattern)
 
     @classmethod
     def from_yaml_file(cls, file_name, lint=False, psutil_profiling=False):
-- 
2.43.0


From 6e906b25a8ad0b5af0d3610e847d6d46ba220ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:03 +0000
Subject: [PATCH 034/109] fix: refuse a wrong number of outputs for a single
 key

---
 caput/pipeline/_pipeline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/caput/pipeline/_pipeline.py b/caput/pipeline/_pipeline.py
index 0e5d93f..c378586 100644
--- a/caput/pipeline/_pipeline.py
+++ b/caput/pipeline/_pipeline.py
@@ -489,7 +489,7 @@ class Manager(config.Reader):
                 if not isinstance(out, tuple):
                     out = (out,)
 
-        elif len(task._out_keys) != len(out):
+        if len(task._out_keys) != len(out):
             raise exceptions.PipelineRuntimeError(
                 f"Found unexpected number of outputs in {task!s} "
                 f"(got {len(out)} expected {len(task._out_keys)})"
-- 
2.43.0


From c145b0762190c5b93ceca946e28acf7325fbabc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:57 +0000
Subject: [PATCH 035/109] fix: report a missing pipeline section as a
 configuration error

---
 caput/pipeline/_pipeline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/caput/pipeline/_pipeline.py b/caput/pipeline/_pipeline.py
index c378586..dac0608 100644
--- a/caput/pipeline/_pipeline.py
+++ b/caput/pipeline/_pipeline.py
@@ -206,7 +206,7 @@ class Manager(config.Reader):
                     f"`{type(yaml_params['pipeline']).__name__}` (expected a dict here).",
                     location=yaml_params,
                 )
-        except TypeError as e:
+        except (TypeError, KeyError) as e:
             raise config.CaputConfigError(
                 "Couldn't find key 'pipeline' in YAML configuration document.",
                 location=yaml_params,
-- 
2.43.0


From 27b89880c5387731ce886c9790c2099c2d0656dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:57 +0000
Subject: [PATCH 036/109] fix: report an unknown local task as a configuration
 error

---
 caput/pipeline/_pipeline.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/caput/pipeline/_pipeline.py b/caput/pipeline/_pipeline.py
index dac0608..af9bc10 100644
--- a/caput/pipeline/_pipeline.py
+++ b/caput/pipeline/_pipeline.py
@@ -589,6 +589,7 @@ class Manager(config.Reader):
             except (
                 config.CaputConfigError,
                 AttributeError,
+                KeyError,
                 ModuleNotFoundError,
             ) as exc:
                 raise config.CaputConfigError(
-- 
2.43.0


From d8ef22bab8d0e237660c74dc5b5d59af637377ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:57 +0000
Subject: [PATCH 037/109] fix: report a missing key of a task without type as a
 configuration error

---
 caput/pipeline/_pipeline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/caput/pipeline/_pipeline.py b/caput/pipeline/_pipeline.py
index af9bc10..039395f 100644
--- a/caput/pipeline/_pipeline.py
+++ b/caput/pipeline/_pipeline.py
@@ -550,7 +550,7 @@ class Manager(config.Reader):
                 for v in value:
                     if v not in unique_out_values:
                         raise config.CaputConfigError(
-                            f"Value '{key}' for task {task_spec['type']} has no corresponding "
+                            f"Value '{key}' for task {task_spec.get('type')} has no corresponding "
                             f"`out` from another task (Value {v} is not in {unique_out_values})."
                         )
 
-- 
2.43.0


From d3cae4352eb8926001c8e52e0e47ff5a63288673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:57 +0000
Subject: [PATCH 038/109] fix: allow tasks with a saved configuration when
 save_config is off

---
 caput/pipeline/_pipeline.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/caput/pipeline/_pipeline.py b/caput/pipeline/_pipeline.py
index 039395f..9404b2d 100644
--- a/caput/pipeline/_pipeline.py
+++ b/caput/pipeline/_pipeline.py
@@ -621,7 +621,9 @@ class Manager(config.Reader):
                         ) from e
 
         # add global params to params
-        task_params = deepcopy(self.all_tasks_params)
+        task_params = {
+            k: deepcopy(v) for k, v in self.all_tasks_params.items() if v is not None
+        }
         task_params.update(params)
 
         # Create and configure the task instance
-- 
2.43.0


From faa2dc1c3139aa18d777600d12df61cb6ded91b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:57 +0000
Subject: [PATCH 039/109] fix: report values which cannot be converted as
 configuration errors

---
 caput/config.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/caput/config.py b/caput/config.py
index a138da1..4a00310 100644
--- a/caput/config.py
+++ b/caput/config.py
@@ -156,7 +156,7 @@ class Property:
         if self.key in config:
             try:
                 val = self.proptype(config[self.key])
-            except TypeError as e:
+            except (TypeError, ValueError) as e:
                 raise CaputConfigError(
                     f"Can't read value of '{self.key}' as {self.proptype}: {e}",
                     location=config,
@@ -498,7 +498,7 @@ def logging_config(default: str | dict | None = None) -> Property[str | dict]:
         elif not isinstance(config, dict):
             raise ValueError(
                 f"Expected a string or YAML block for config value 'logging', got "
-                f"'{type(config.__name__)}'."
+                f"'{type(config).__name__}'."
             )
 
         # check entries, get module names and warn for duplicates when sorting into new
-- 
2.43.0


From 912819a7ee74c95420bbccc7bdfa8df9277c61ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:57 +0000
Subject: [PATCH 040/109] fix: keep the line number of a configuration error

---
 caput/pipeline/_pipeline.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/caput/pipeline/_pipeline.py b/caput/pipeline/_pipeline.py
index 9404b2d..0114d13 100644
--- a/caput/pipeline/_pipeline.py
+++ b/caput/pipeline/_pipeline.py
@@ -513,10 +513,13 @@ class Manager(config.Reader):
                 task = self._get_task_from_spec(task_spec)
                 self.add_task(task, task_spec)
             except config.CaputConfigError as exc:
-                raise config.CaputConfigError(
-                    f"Error setting up task {ii}\n",
-                    location=task_spec if exc.line is None else exc.line,
-                ) from exc
+                err = config.CaputConfigError(
+                    f"Error setting up task {ii}\n", location=task_spec
+                )
+                # Prefer the more precise location, if there is one
+                if exc.line is not None:
+                    err.line = exc.line
+                raise err from exc
 
     def _validate_task_inputs(self):
         """Make sure all in/requires values have corresponding out keys from another task."""
-- 
2.43.0


From 5a7ae88ebca380d407ed737912b404707df8729f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:03 +0000
Subject: [PATCH 041/109] fix: validate lists against a required length of zero

---
 caput/config.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/caput/config.py b/caput/config.py
index 4a00310..75261e2 100644
--- a/caput/config.py
+++ b/caput/config.py
@@ -442,19 +442,19 @@ def list_type(  # noqa: D417
                         f"'{item!s}' of type '{type(item)!s}' at position {ii}"
                     )
 
-        if length and len(val) != length:
+        if length is not None and len(val) != length:
             raise CaputConfigError(
                 f"List expected to be of length {length}, but was actually length {len(val)}"
             )
 
-        if maxlength and len(val) > maxlength:
+        if maxlength is not None and len(val) > maxlength:
             raise CaputConfigError(
                 f"Maximum length of list is {maxlength} is, but list was actually length {len(val)}"
             )
 
         return val
 
-    if default:
+    if default is not None:
         try:
             _prop(default)
         except CaputConfigError as e:
-- 
2.43.0


From fb72ab5c248be9ac101b86a93816c98ce3a46fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:03 +0000
Subject: [PATCH 042/109] fix: refuse NaN for a float property with a range

---
 caput/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/caput/config.py b/caput/config.py
index 75261e2..53eacef 100644
--- a/caput/config.py
+++ b/caput/config.py
@@ -345,7 +345,7 @@ def float_in_range(
     def _prop(val):
         val = float(val)
 
-        if val < start or val > end:
+        if not (start <= val <= end):
             raise CaputConfigError(f"Input {val:f} not in range [{start:f}, {end:f}]")
 
         return val
-- 
2.43.0


From 0fef1da4ba404b1badf16fffd88ab43515901f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:03 +0000
Subject: [PATCH 043/109] fix: do not read properties which a subclass
 overrides

---
 caput/config.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/caput/config.py b/caput/config.py
index 53eacef..2d161fa 100644
--- a/caput/config.py
+++ b/caput/config.py
@@ -260,7 +260,10 @@ class Reader:
         config_keys = list(config.keys())
         prop_keys = []
         for basecls in inspect.getmro(type(self))[::-1]:
-            for clsprop in basecls.__dict__.values():
+            for name, clsprop in basecls.__dict__.items():
+                # Skip properties which a subclass has overridden
+                if inspect.getattr_static(self, name, None) is not clsprop:
+                    continue
                 if isinstance(clsprop, Property):
                     clsprop._from_config(self, config)
                     prop_keys.append(clsprop.key)
-- 
2.43.0


From 8ec7f99a0071f8bab012de0b14bfc61de091ee4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:29 +0000
Subject: [PATCH 044/109] fix: report log levels which are not text as
 configuration errors

---
 caput/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/caput/config.py b/caput/config.py
index 2d161fa..0863435 100644
--- a/caput/config.py
+++ b/caput/config.py
@@ -509,7 +509,7 @@ def logging_config(default: str | dict | None = None) -> Property[str | dict]:
         checked_config = {}
         loglevels = ["DEBUG", "INFO", "WARNING", "ERROR", "NOTSET"]
         for key, level in config.items():
-            level = level.upper()
+            level = str(level).upper()
             if level not in loglevels:
                 raise ValueError(
                     f"Expected one of {loglevels} for log level of {key} (was {level})."
-- 
2.43.0


From 959d7631e4e0c93abcd5d2736ca85c7b0b9df51d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:55 +0000
Subject: [PATCH 045/109] fix: keep the line numbers of configuration blocks

---
 caput/config.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/caput/config.py b/caput/config.py
index 0863435..a95afb0 100644
--- a/caput/config.py
+++ b/caput/config.py
@@ -52,10 +52,11 @@ from __future__ import annotations
 import logging
 from typing import TYPE_CHECKING
 
+from yaml.dumper import SafeDumper
 from yaml.loader import SafeLoader
 
 if TYPE_CHECKING:
-    from collections.abc import Callable, Mapping
+    from collections.abc import Callable, Generator, Mapping
     from typing import Any
 
     import numpy.typing as npt
@@ -550,6 +551,21 @@ class SafeLineLoader(SafeLoader):
 
         return mapping
 
+    def construct_yaml_map(self, node: MappingNode) -> Generator[Mapping]:
+        """Construct a block which keeps its line number."""
+        mapping = _line_dict()
+        yield mapping
+        value = self.construct_mapping(node)
+        mapping.update(value)
+        mapping.__line__ = value.__line__
+
+
+SafeLineLoader.add_constructor(
+    "tag:yaml.org,2002:map", SafeLineLoader.construct_yaml_map
+)
+# Blocks are written as ordinary mappings
+SafeDumper.add_representer(_line_dict, SafeDumper.represent_dict)
+
 
 class CaputConfigError(RuntimeError):
     r"""There was an error in the configuration.
-- 
2.43.0


From 20ae2d47568cad69d1e4d3aa0ddd5bbfff7dbb21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:18:23 +0000
Subject: [PATCH 046/109] fix: do not truncate tiny values to zero whatever the
 error

---
 caput/util/truncate.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/caput/util/truncate.hpp b/caput/util/truncate.hpp
index b728e0d..b9c29bd 100644
--- a/caput/util/truncate.hpp
+++ b/caput/util/truncate.hpp
@@ -147,14 +147,16 @@ inline int64_t count_zeros_64(int64_t x) {
 /**
  * @brief Fast power of two float.
  *
- * Result is undefined for e < -126.
+ * Result is undefined for e < -126. Exponents which are too large for a float give the
+ * largest power of two.
  *
  * @param   e   Exponent
  *
  * @returns The result of 2^e
  */
-inline float fast_pow(int8_t e) {
+inline float fast_pow(int32_t e) {
     float* out_f;
+    e = (e > 127) ? 127 : e;
     // Construct float bitwise
     uint32_t out_i = ((uint32_t)(127 + e) << 23);
     // Cast into float
@@ -166,14 +168,16 @@ inline float fast_pow(int8_t e) {
 /**
  * @brief Fast power of two double.
  *
- * Result is undefined for e < -1022 and e > 1023.
+ * Result is undefined for e < -1022. Exponents which are too large for a double give the
+ * largest power of two.
  *
  * @param   e   Exponent
  *
  * @returns The result of 2^e
  */
-inline double fast_pow_double(int16_t e) {
+inline double fast_pow_double(int64_t e) {
     double* out_f;
+    e = (e > 1023) ? 1023 : e;
     // Construct float bitwise
     uint64_t out_i = ((uint64_t)(1023 + e) << 52);
     // Cast into float
-- 
2.43.0


From 0658e2253aba6ab2d4f623135328f96459fdce09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:18:23 +0000
Subject: [PATCH 047/109] fix: do not truncate the largest values to infinity

---
 caput/util/truncate.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/caput/util/truncate.hpp b/caput/util/truncate.hpp
index b9c29bd..efc9dfa 100644
--- a/caput/util/truncate.hpp
+++ b/caput/util/truncate.hpp
@@ -223,6 +223,10 @@ inline float _bit_truncate_float(float val, float err) {
     tr_man = (tr_man << (z_count - 8)) & MASK_MANTISSA_FLOAT;
     // round to zero case
     val_pow = ((z_count != 32) ? val_pow : 0);
+    // rounding up must not turn the largest values into inf
+    if (z_count < 8 && val_pow >= MASK_EXPONENT_W_O_SIGN_FLOAT) {
+        return val;
+    }
     // restore sign and exponent
     int32_t tr_val = tr_man | ((val_pow | (val_s << 8)) << 23);
     // cast back to float
@@ -276,6 +280,10 @@ inline double _bit_truncate_double(double val, double err) {
     tr_man = (tr_man << (z_count - 11)) & MASK_MANTISSA_DOUBLE;
     // round to zero case
     val_pow = ((z_count != 64) ? val_pow : 0);
+    // rounding up must not turn the largest values into inf
+    if (z_count < 11 && val_pow >= MASK_EXPONENT_W_O_SIGN_DOUBLE) {
+        return val;
+    }
     // restore sign and exponent
     int64_t tr_val = tr_man | ((val_pow | (val_s << 11)) << 52);
     // cast back to double
-- 
2.43.0


From e1b3f4fb7cbcdedfd0fd8ef80d8ce77e670c50ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:18:23 +0000
Subject: [PATCH 048/109] fix: keep negative values which have no weight when
 truncating

---
 caput/util/truncate.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/caput/util/truncate.pyx b/caput/util/truncate.pyx
index 970dca8..57180f2 100644
--- a/caput/util/truncate.pyx
+++ b/caput/util/truncate.pyx
@@ -104,7 +104,7 @@ def _bit_truncate_weights_float(float[:] val, float[:] inv_var, float fallback):
         if inv_var[i] != 0:
             val[i] = _bit_truncate_float(val[i], 1.0 / inv_var[i]**0.5)
         else:
-            val[i] = _bit_truncate_float(val[i], fallback * val[i])
+            val[i] = _bit_truncate_float(val[i], fabs(fallback * val[i]))
 
     return np.asarray(val)
 
@@ -126,7 +126,7 @@ def _bit_truncate_weights_double(double[:] val, double[:] inv_var, double fallba
         if inv_var[i] != 0:
             val[i] = _bit_truncate_double(val[i], 1.0 / inv_var[i]**0.5)
         else:
-            val[i] = _bit_truncate_double(val[i], fallback * val[i])
+            val[i] = _bit_truncate_double(val[i], fabs(fallback * val[i]))
 
     return np.asarray(val)
 
-- 
2.43.0


From 86621731703f8c261139cf006f21b4c32f0dc0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:18:23 +0000
Subject: [PATCH 049/109] fix: truncate complex values in double precision

The helpers become static: an inline function which the compiler does not
inline has no definition to link to.
---
 caput/util/truncate.hpp | 16 ++++++++--------
 caput/util/truncate.pyx |  8 ++++----
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/caput/util/truncate.hpp b/caput/util/truncate.hpp
index efc9dfa..caea99a 100644
--- a/caput/util/truncate.hpp
+++ b/caput/util/truncate.hpp
@@ -46,7 +46,7 @@ const int64_t ERR_MAX_DOUBLE = 4611686018427387903L;
  *
  *  @warning Undefined results for err < 0 and err > 2**30.
  */
-inline int32_t bit_truncate(int32_t val, int32_t err) {
+static inline int32_t bit_truncate(int32_t val, int32_t err) {
     // *gran* is the granularity. It is the power of 2 that is *larger than* the
     // maximum error *err*.
     int32_t gran = err;
@@ -83,7 +83,7 @@ inline int32_t bit_truncate(int32_t val, int32_t err) {
  *
  *  @warning Undefined results for err < 0 and err > 2**62.
  */
-inline int64_t bit_truncate_64(int64_t val, int64_t err) {
+static inline int64_t bit_truncate_64(int64_t val, int64_t err) {
     // *gran* is the granularity. It is the power of 2 that is *larger than* the
     // maximum error *err*.
     int64_t gran = err;
@@ -119,7 +119,7 @@ inline int64_t bit_truncate_64(int64_t val, int64_t err) {
  *  @brief Count the number of leading zeros in a binary number.
  *         Taken from https://stackoverflow.com/a/23857066
  */
-inline int32_t count_zeros(int32_t x) {
+static inline int32_t count_zeros(int32_t x) {
     x = x | (x >> 1);
     x = x | (x >> 2);
     x = x | (x >> 4);
@@ -133,7 +133,7 @@ inline int32_t count_zeros(int32_t x) {
  *  @brief Count the number of leading zeros in a binary number.
  *         Taken from https://stackoverflow.com/a/23857066
  */
-inline int64_t count_zeros_64(int64_t x) {
+static inline int64_t count_zeros_64(int64_t x) {
     x = x | (x >> 1);
     x = x | (x >> 2);
     x = x | (x >> 4);
@@ -154,7 +154,7 @@ inline int64_t count_zeros_64(int64_t x) {
  *
  * @returns The result of 2^e
  */
-inline float fast_pow(int32_t e) {
+static inline float fast_pow(int32_t e) {
     float* out_f;
     e = (e > 127) ? 127 : e;
     // Construct float bitwise
@@ -175,7 +175,7 @@ inline float fast_pow(int32_t e) {
  *
  * @returns The result of 2^e
  */
-inline double fast_pow_double(int64_t e) {
+static inline double fast_pow_double(int64_t e) {
     double* out_f;
     e = (e > 1023) ? 1023 : e;
     // Construct float bitwise
@@ -195,7 +195,7 @@ inline double fast_pow_double(int64_t e) {
  *  happens to remove all of the non-zero bits in the mantissa, a NaN can become inf.
  *
  */
-inline float _bit_truncate_float(float val, float err) {
+static inline float _bit_truncate_float(float val, float err) {
     // cast float memory into an int
     int32_t* cast_val_ptr = (int32_t*)&val;
     // extract the exponent and sign
@@ -245,7 +245,7 @@ inline float _bit_truncate_float(float val, float err) {
  *  happens to remove all of the non-zero bits in the mantissa, a NaN can become inf.
  *
  */
-inline double _bit_truncate_double(double val, double err) {
+static inline double _bit_truncate_double(double val, double err) {
     // Step 1: Extract the sign, exponent and mantissa:
     // ------------------------------------------------
     // cast float memory into an int
diff --git a/caput/util/truncate.pyx b/caput/util/truncate.pyx
index 57180f2..efbccff 100644
--- a/caput/util/truncate.pyx
+++ b/caput/util/truncate.pyx
@@ -172,7 +172,7 @@ def bit_truncate_max_complex(complex128[:, :] val, float prec, float prec_max_ro
     cdef Py_ssize_t n = val.shape[0]
     cdef Py_ssize_t m = val.shape[1]
     cdef Py_ssize_t i = 0, j = 0
-    cdef float abs_prec
+    cdef double abs_prec
     cdef double vr, vi
     cdef double max_abs
     cdef double abs2
@@ -194,11 +194,11 @@ def bit_truncate_max_complex(complex128[:, :] val, float prec, float prec_max_ro
 
         for j in range(m):
             # Get the precision to apply
-            abs_prec = max(<float>cabs(val[i, j]) * prec, prec_max_row * max_abs)
+            abs_prec = max(cabs(val[i, j]) * prec, prec_max_row * max_abs)
 
             vr = val[i, j].real
             vi = val[i, j].imag
-            val[i, j].real = _bit_truncate_float(<float>vr, abs_prec)
-            val[i, j].imag = _bit_truncate_float(<float>vi, abs_prec)
+            val[i, j].real = _bit_truncate_double(vr, abs_prec)
+            val[i, j].imag = _bit_truncate_double(vi, abs_prec)
 
     return np.asarray(val)
-- 
2.43.0


From 6f9fe0ad237cc2db63304a9f16502ddab0a0b7f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:39 +0000
Subject: [PATCH 050/109] fix: do not read beyond a single element when
 calculating a quantile

---
 caput/algorithms/median/weighted.pyx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/caput/algorithms/median/weighted.pyx b/caput/algorithms/median/weighted.pyx
index 5ffdfbd..cc46e0d 100644
--- a/caput/algorithms/median/weighted.pyx
+++ b/caput/algorithms/median/weighted.pyx
@@ -48,6 +48,10 @@ cdef data_t _quickselect_weight(data_t[::1] A, weight_t[::1] W, double qs, char
     cdef data_t min_d, max_d
     cdef data_t min_w, max_w
 
+    # There is nothing to partition, and nothing beyond the only element
+    if i == j:
+        return A[i]
+
     while True:
         ii = i
         jj = j
-- 
2.43.0


From c5a56870f86ebfbf30edbd37e18ed372fe6442b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:39 +0000
Subject: [PATCH 051/109] fix: never return an element without weight as the
 lower quantile

---
 caput/algorithms/median/weighted.pyx | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/caput/algorithms/median/weighted.pyx b/caput/algorithms/median/weighted.pyx
index cc46e0d..1e5b7ab 100644
--- a/caput/algorithms/median/weighted.pyx
+++ b/caput/algorithms/median/weighted.pyx
@@ -106,9 +106,13 @@ cdef data_t _quickselect_weight(data_t[::1] A, weight_t[::1] W, double qs, char
             i = _max_non_zero(A, W, 0, jj)
             j = _min_non_zero(A, W, jj + 1, len(A) - 1)
 
-            if (W[j] == 0 and W[i] > 0) or method == "l":
+            if W[j] == 0 and W[i] > 0:
                 return A[i]
-            elif (W[i] == 0 and W[j] > 0) or method == "h":
+            elif W[i] == 0 and W[j] > 0:
+                return A[j]
+            elif method == "l":
+                return A[i]
+            elif method == "h":
                 return A[j]
             else:  # method == "s":
                 return <data_t>((A[i] + A[j]) / 2)
-- 
2.43.0


From d3805294b0835ec4e6b2ae81989cd22eeab1ccc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:39 +0000
Subject: [PATCH 052/109] fix: calculate quantiles of strided and read-only
 arrays

---
 caput/algorithms/median/weighted.pyx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/caput/algorithms/median/weighted.pyx b/caput/algorithms/median/weighted.pyx
index 1e5b7ab..97951cc 100644
--- a/caput/algorithms/median/weighted.pyx
+++ b/caput/algorithms/median/weighted.pyx
@@ -222,9 +222,9 @@ def quantile(A, W, q, method = "split"):
         raise ValueError("Quantile must be a number between zero and one.")
 
     # Reshape the arrays to 2D. The last axis is the one along which the quantile will
-    # be calculated
-    Ar = A.reshape(-1, A.shape[-1])
-    Wr = W.reshape(-1, W.shape[-1])
+    # be calculated. The worker needs contiguous and writeable buffers
+    Ar = np.require(A.reshape(-1, A.shape[-1]), requirements=["C", "W"])
+    Wr = np.require(W.reshape(-1, W.shape[-1]), requirements=["C", "W"])
 
     # Allocate the temporaries and output arrays
     At = np.ndarray(Ar.shape[-1], dtype=A.dtype)
-- 
2.43.0


From 096f31dbddad3fb6b9cb532de67fe5048efa538c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:39 +0000
Subject: [PATCH 053/109] fix: do not crash when the rounded weights of the
 median window disagree

---
 caput/algorithms/median/MedianTree.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/caput/algorithms/median/MedianTree.hpp b/caput/algorithms/median/MedianTree.hpp
index e2d4bd1..361f554 100644
--- a/caput/algorithms/median/MedianTree.hpp
+++ b/caput/algorithms/median/MedianTree.hpp
@@ -541,10 +541,11 @@ T Tree<T>::weighted_median(char method) {
 
     // Find the highest order node that satisfies median conditions
     while (true) {
-        if (node->left_weight + previous_weights > midpoint) {
+        // the sums of the weights are rounded, so make sure not to leave the tree
+        if (node->left && node->left_weight + previous_weights > midpoint) {
             next_weights += node->right_weight + node->data->weight;
             node = node->left;
-        } else if (node->right_weight + next_weights > midpoint) {
+        } else if (node->right && node->right_weight + next_weights > midpoint) {
             previous_weights += node->left_weight + node->data->weight;
             node = node->right;
         } else
-- 
2.43.0


From c40e38fe76fb2777bdc06763f71891372aa0da91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:39 +0000
Subject: [PATCH 054/109] fix: take the neighbouring value as the lower or
 higher moving median

---
 caput/algorithms/median/MedianTree.hpp | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/caput/algorithms/median/MedianTree.hpp b/caput/algorithms/median/MedianTree.hpp
index 361f554..cc3ec17 100644
--- a/caput/algorithms/median/MedianTree.hpp
+++ b/caput/algorithms/median/MedianTree.hpp
@@ -594,20 +594,26 @@ T Tree<T>::weighted_median_split(node_ptr<T> node, double previous_weights,
 template<typename T>
 T Tree<T>::weighted_median_higher(node_ptr<T> node, double previous_weights,
                                   double next_weights, double midpoint) {
-    // Take the highest value that qualifies.
-    while (node->right_weight + next_weights <= midpoint
-           && node->left_weight + previous_weights + node->data->weight <= midpoint && node->right)
-        node = node->right;
+    // Take the highest value that qualifies: the next one does too if up to this node there is
+    // no more than half of the weight.
+    if (node->left_weight + previous_weights + node->data->weight <= midpoint) {
+        node_ptr<T> next = in_order_successor(node);
+        if (next)
+            node = next;
+    }
     return (double)node->data->value;
 }
 
 template<typename T>
 T Tree<T>::weighted_median_lower(node_ptr<T> node, double previous_weights,
                                  double next_weights, double midpoint) {
-    // Take the lowest value that qualifies.
-    while (node->left_weight + previous_weights <= midpoint
-           && node->right_weight + next_weights + node->data->weight <= midpoint && node->left)
-        node = node->left;
+    // Take the lowest value that qualifies: the previous one does too if from this node on there
+    // is no more than half of the weight.
+    if (node->right_weight + next_weights + node->data->weight <= midpoint) {
+        node_ptr<T> previous = in_order_predecessor(node);
+        if (previous)
+            node = previous;
+    }
     return (double)node->data->value;
 }
 
-- 
2.43.0


From ba30e0b468c417f6696f453c0a2ae235e3717ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:39 +0000
Subject: [PATCH 055/109] fix: refuse weights of another shape than the data of
 the moving median

---
 caput/algorithms/median/weighted.pyx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/caput/algorithms/median/weighted.pyx b/caput/algorithms/median/weighted.pyx
index 97951cc..f6b0182 100644
--- a/caput/algorithms/median/weighted.pyx
+++ b/caput/algorithms/median/weighted.pyx
@@ -320,10 +320,10 @@ def _check_arrays(
     if np.iscomplexobj(weights):
         raise ValueError(f"Weights must be real (got {weights.dtype})")
 
-    if data.ndim != weights.ndim:
+    if data.shape != weights.shape:
         raise ValueError(
-            f"Expected data and weights to have same dimensions "
-            f"(is {data.ndim} and {weights.ndim})."
+            f"Expected data and weights to have same shape "
+            f"(is {data.shape} and {weights.shape})."
         )
 
     return data, weights
-- 
2.43.0


From ca52d67321a45dcc5e0ba1f04c9ae85df8b46522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:26 +0000
Subject: [PATCH 056/109] fix: do not overflow when splitting the quantile
 between large integers

---
 caput/algorithms/median/weighted.pyx | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/caput/algorithms/median/weighted.pyx b/caput/algorithms/median/weighted.pyx
index f6b0182..1cfff35 100644
--- a/caput/algorithms/median/weighted.pyx
+++ b/caput/algorithms/median/weighted.pyx
@@ -115,7 +115,11 @@ cdef data_t _quickselect_weight(data_t[::1] A, weight_t[::1] W, double qs, char
             elif method == "h":
                 return A[j]
             else:  # method == "s":
-                return <data_t>((A[i] + A[j]) / 2)
+                if (data_t is int) or (data_t is long):
+                    # The sum of the two may be too large for the type
+                    return (A[i] >> 1) + (A[j] >> 1) + (A[i] & A[j] & 1)
+                else:
+                    return <data_t>((A[i] + A[j]) / 2)
 
         # Otherwise the target element is in the left partition...
         elif qs <= weights_left:
-- 
2.43.0


From d5d34457cd50bc8e00c6dab9a4f6b1a4f75907d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:16 +0000
Subject: [PATCH 057/109] fix: return zero for every value whose reciprocal is
 too large

---
 caput/algorithms/_invert_no_zero/_invert_no_zero.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/caput/algorithms/_invert_no_zero/_invert_no_zero.pyx b/caput/algorithms/_invert_no_zero/_invert_no_zero.pyx
index c23d958..3cce8c9 100644
--- a/caput/algorithms/_invert_no_zero/_invert_no_zero.pyx
+++ b/caput/algorithms/_invert_no_zero/_invert_no_zero.pyx
@@ -36,9 +36,9 @@ cpdef _invert_no_zero(real_or_complex [:] array, real_or_complex [:] out):
 
     if (real_or_complex is cython.doublecomplex) or (real_or_complex is cython.floatcomplex):
         for i in prange(n, nogil=True):
-            cond = (fabs(array[i].real) < thresh) and (fabs(array[i].imag) < thresh)
+            cond = (fabs(array[i].real) <= thresh) and (fabs(array[i].imag) <= thresh)
             out[i] = 0.0 if cond else 1.0 / array[i]
     else:
         for i in prange(n, nogil=True):
-            cond = fabs(array[i]) < thresh
+            cond = fabs(array[i]) <= thresh
             out[i] = 0.0 if cond else 1.0 / array[i]
-- 
2.43.0


From 106d6df35b7e877ee63274349fea5809c73d4d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:16 +0000
Subject: [PATCH 058/109] fix: invert lists, python numbers and booleans, and
 use out for integers

---
 caput/algorithms/_invert_no_zero/__init__.py | 27 +++++++++++++-------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/caput/algorithms/_invert_no_zero/__init__.py b/caput/algorithms/_invert_no_zero/__init__.py
index 19ccbd5..ba49c00 100644
--- a/caput/algorithms/_invert_no_zero/__init__.py
+++ b/caput/algorithms/_invert_no_zero/__init__.py
@@ -29,16 +29,25 @@ def invert_no_zero(x: npt.ArrayLike, out: npt.ArrayLike | None = None) -> npt.Ar
         if this cannot be preserved the output is C-contiguous. If `out` was not `None`,
         this is `out`.
     """
-    if not isinstance(x, np.generic | np.ndarray) or np.issubdtype(x.dtype, np.integer):
+    if not isinstance(x, np.generic | np.ndarray):
+        x = np.asarray(x)
+
+    if out is not None and x.shape != out.shape:
+        raise ValueError(
+            f"Input and output arrays don't have same shape: {x.shape} != {out.shape}."
+        )
+
+    if not np.issubdtype(x.dtype, np.inexact):
         with np.errstate(divide="ignore", invalid="ignore", over="ignore"):
-            return np.where(x == 0, 0.0, 1.0 / x)
-
-    if out is not None:
-        if x.shape != out.shape:
-            raise ValueError(
-                f"Input and output arrays don't have same shape: {x.shape} != {out.shape}."
-            )
-    else:
+            inv = np.where(x == 0, 0.0, 1.0 / x)
+
+        if out is None:
+            return inv
+
+        out[...] = inv
+        return out
+
+    if out is None:
         # This works even for MPIArrays, producing a correctly shaped MPIArray
         out = np.empty_like(x, order="A")
 
-- 
2.43.0


From f162ca7671b68430fb545394bb80cedf893ac485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:41 +0000
Subject: [PATCH 059/109] fix: invert into outputs of any memory layout, and
 read-only inputs

---
 caput/algorithms/_invert_no_zero/__init__.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/caput/algorithms/_invert_no_zero/__init__.py b/caput/algorithms/_invert_no_zero/__init__.py
index ba49c00..313211a 100644
--- a/caput/algorithms/_invert_no_zero/__init__.py
+++ b/caput/algorithms/_invert_no_zero/__init__.py
@@ -54,8 +54,17 @@ def invert_no_zero(x: npt.ArrayLike, out: npt.ArrayLike | None = None) -> npt.Ar
     # In order to be able to flatten the arrays to do element by element operations, we
     # need to ensure the inputs are numpy arrays, and so we take a view which will work
     # even if `x` (and thus `out`) are MPIArray's
-    _invert_no_zero(
-        x.view(np.ndarray).ravel(order="A"), out.view(np.ndarray).ravel(order="A")
-    )
+    x_view, out_view = x.view(np.ndarray), out.view(np.ndarray)
+
+    # Flatten both in the same order, whatever their layouts are
+    order = "F" if out_view.flags.fnc else "C"
+    x_flat = np.require(x_view.ravel(order=order), requirements="W")
+    out_flat = out_view.ravel(order=order)
+
+    _invert_no_zero(x_flat, out_flat)
+
+    # The flattened output is a copy if `out` is not contiguous
+    if not out_view.flags.forc:
+        out_view[...] = out_flat.reshape(out_view.shape, order=order)
 
     return out
-- 
2.43.0


From 6c2dc0a88cd3898c7569a8cb35accd2013d0a743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:03:02 +0000
Subject: [PATCH 060/109] fix: limit the range of a concatenation to the data

---
 caput/containers/tod.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/caput/containers/tod.py b/caput/containers/tod.py
index dd2df28..0ea3c4e 100644
--- a/caput/containers/tod.py
+++ b/caput/containers/tod.py
@@ -722,14 +722,17 @@ def _start_stop_inds(
     if start is None:
         start = 0
     elif start < 0:
-        start = ntime + start
+        start = max(ntime + start, 0)
+    elif start > ntime:
+        start = ntime
     if stop is None:
         stop = ntime
     elif stop < 0:
         stop = ntime + stop
     elif stop > ntime:
         stop = ntime
-    return start, stop
+    # Nothing is selected if the range ends before it starts
+    return start, max(start, stop)
 
 
 def _get_in_out_slice(
-- 
2.43.0


From a4bda4717a7879f8b77873bf213c9ffea1f84453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:03:02 +0000
Subject: [PATCH 061/109] fix: do not modify the ranges passed to a
 concatenation

---
 caput/containers/tod.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/caput/containers/tod.py b/caput/containers/tod.py
index 0ea3c4e..9e13705 100644
--- a/caput/containers/tod.py
+++ b/caput/containers/tod.py
@@ -378,10 +378,15 @@ def concatenate(
     concatenation_axes = first_data.time_axes
 
     # Ensure *start* and *stop* are mappings.
+    # Copy them, as the indices in them are replaced below.
     if not hasattr(start, "__getitem__"):
         start = dict.fromkeys(concatenation_axes, start)
+    else:
+        start = dict(start)
     if not hasattr(stop, "__getitem__"):
         stop = dict.fromkeys(concatenation_axes, stop)
+    else:
+        stop = dict(stop)
 
     # Get the length of all axes for which we are concatenating.
     concat_index_lengths = dict.fromkeys(concatenation_axes, 0)
-- 
2.43.0


From 93ccbe8ee6bed7b6d4b18aa5afdf7072797a650a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:03:02 +0000
Subject: [PATCH 062/109] fix: concatenate any sequence of data

---
 caput/containers/tod.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/caput/containers/tod.py b/caput/containers/tod.py
index 9e13705..784ced2 100644
--- a/caput/containers/tod.py
+++ b/caput/containers/tod.py
@@ -655,7 +655,7 @@ def _copy_non_time_data(
     if to_dataset_names is None:
         to_dataset_names = []
 
-    if isinstance(data, list):
+    if isinstance(data, list | tuple):
         # XXX Do something more sophisticated here when/if we aren't getting
         # all our non-time dependant information from the first entry.
         data = data[0]
-- 
2.43.0


From 27e9daf4112b587cb8b6a5406dee5fecd6232331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:03:02 +0000
Subject: [PATCH 063/109] fix: copy the history when concatenating

---
 caput/containers/tod.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/caput/containers/tod.py b/caput/containers/tod.py
index 784ced2..95e653a 100644
--- a/caput/containers/tod.py
+++ b/caput/containers/tod.py
@@ -440,6 +440,13 @@ def concatenate(
     for axis, reverse_map in first_data.reverse_map.items():
         out.create_reverse_map(axis, reverse_map)
 
+    # Copy over the history.
+    memdata.copyattrs(
+        first_data._data["history"].attrs,
+        out._data["history"].attrs,
+        convert_strings=convert_attribute_strings,
+    )
+
     all_dataset_names = _copy_non_time_data(
         data_list,
         out,
-- 
2.43.0


From 7d66674deb2ec8778f7fc8ddd8bce44e8df00565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:03:02 +0000
Subject: [PATCH 064/109] fix: select nothing when no sample is in the time
 range

---
 caput/containers/tod.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/caput/containers/tod.py b/caput/containers/tod.py
index 95e653a..a44d0bc 100644
--- a/caput/containers/tod.py
+++ b/caput/containers/tod.py
@@ -274,12 +274,14 @@ class TODReader:
         """
         if start_time is not None:
             start_time = self.data_class.convert_time(start_time)
-            start = np.where(self.time >= start_time)[0][0]
+            after = np.where(self.time >= start_time)[0]
+            start = after[0] if len(after) else len(self.time)
         else:
             start = self.time_sel[0]
         if stop_time is not None:
             stop_time = self.data_class.convert_time(stop_time)
-            stop = np.where(self.time < stop_time)[0][-1] + 1
+            before = np.where(self.time < stop_time)[0]
+            stop = before[-1] + 1 if len(before) else 0
         else:
             stop = self.time_sel[1]
 
-- 
2.43.0


From a2f35d28e7ed41f35204e99dbbc3282bfd3f7811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:03:20 +0000
Subject: [PATCH 065/109] fix: always create the datasets of an empty range

---
 caput/containers/tod.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/caput/containers/tod.py b/caput/containers/tod.py
index a44d0bc..9b9fe5d 100644
--- a/caput/containers/tod.py
+++ b/caput/containers/tod.py
@@ -513,15 +513,19 @@ def concatenate(
                 current_concat_index_start[axis] + current_concat_index_n[axis]
                 <= start[axis]
             )
-            if axis_finished or axis_not_started:
-                continue
             axis_rate = 1  # Place holder for eventual implementation.
-            in_slice, out_slice = _get_in_out_slice(
-                start[axis] * axis_rate,
-                stop[axis] * axis_rate,
-                current_concat_index_start[axis] * axis_rate,
-                current_concat_index_n[axis] * axis_rate,
-            )
+            if start[axis] == stop[axis]:
+                # Nothing is selected, but there still has to be a dataset.
+                in_slice, out_slice = np.s_[0:0], np.s_[0:0]
+            elif axis_finished or axis_not_started:
+                continue
+            else:
+                in_slice, out_slice = _get_in_out_slice(
+                    start[axis] * axis_rate,
+                    stop[axis] * axis_rate,
+                    current_concat_index_start[axis] * axis_rate,
+                    current_concat_index_n[axis] * axis_rate,
+                )
 
             # Filter the dataset.
             if filter_time_slice:
-- 
2.43.0


From 25a4a0a350ef605cacd5a798f42f29ad32eb0d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:07:56 +0000
Subject: [PATCH 066/109] fix: store the time axis when concatenating into a
 file

---
 caput/containers/tod.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/caput/containers/tod.py b/caput/containers/tod.py
index 9b9fe5d..473cfaa 100644
--- a/caput/containers/tod.py
+++ b/caput/containers/tod.py
@@ -482,7 +482,8 @@ def concatenate(
                 current_concat_index_start[axis],
                 current_concat_index_n[axis],
             )
-            out.index_map[axis][out_slice] = (
+            # Write to the underlying dataset, the index map of a file is a copy.
+            out._data["index_map"][axis][out_slice] = (
                 typeutils.ensure_unicode(data.index_map[axis][in_slice])
                 if convert_attribute_strings
                 else data.index_map[axis][in_slice]
-- 
2.43.0


From 3d091a61714464fe717f38a643ffcdfe33035962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:48 +0000
Subject: [PATCH 067/109] fix: create datasets from any array-like data

---
 caput/memdata/_memh5.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/caput/memdata/_memh5.py b/caput/memdata/_memh5.py
index 60bc64b..77bbfab 100644
--- a/caput/memdata/_memh5.py
+++ b/caput/memdata/_memh5.py
@@ -797,6 +797,9 @@ class MemGroup(_BaseGroup):
 
         # If data is set, copy out params from it.
         if data is not None:
+            # Sequences and scalars need converting first
+            if not hasattr(data, "dtype"):
+                data = np.asarray(data, dtype=dtype)
             if shape is None:
                 shape = data.shape
             if dtype is None:
-- 
2.43.0


From adb9a1f5f235613ff748f11027a9ca798e7ddf80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:48 +0000
Subject: [PATCH 068/109] fix: copy the attributes of containers without a
 specification

---
 caput/containers/_core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/caput/containers/_core.py b/caput/containers/_core.py
index 07b8ed9..159647c 100644
--- a/caput/containers/_core.py
+++ b/caput/containers/_core.py
@@ -450,10 +450,10 @@ class ContainerPrototype(Container):
 
             # Copy attributes over from any common datasets
             for name in self.dataset_spec.keys():
-                if name in self.datasets and name in attrs_from.datasets:
+                if name in self.datasets and name in attrs_from:
                     attrs_no_axis = {
                         k: v
-                        for k, v in attrs_from.datasets[name].attrs.items()
+                        for k, v in attrs_from[name].attrs.items()
                         if k != "axis"
                     }
                     memdata.copyattrs(attrs_no_axis, self.datasets[name].attrs)
-- 
2.43.0


From 67f1fffb9e52f60b1bcc0ad38f0fa23971e18ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:48 +0000
Subject: [PATCH 069/109] fix: copy datasets between containers which are
 distributed differently

---
 caput/containers/_core.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/caput/containers/_core.py b/caput/containers/_core.py
index 159647c..7b549e5 100644
--- a/caput/containers/_core.py
+++ b/caput/containers/_core.py
@@ -25,6 +25,23 @@ if TYPE_CHECKING:
 __all__ = ["Container", "ContainerPrototype", "TableSpec"]
 
 
+def _copy_data(source: memdata.MemDataset, dest: memdata.MemDataset) -> None:
+    """Copy the data of a dataset into another one which may be distributed differently."""
+    data = source[:]
+
+    if source.distributed:
+        if not dest.distributed:
+            data = data.allgather()
+        elif source.distributed_axis != dest.distributed_axis:
+            data = data.redistribute(dest.distributed_axis)
+    elif dest.distributed:
+        data = data[
+            tuple(slice(s, s + n) for s, n in zip(dest.local_offset, dest.local_shape))
+        ]
+
+    dest[:] = data
+
+
 class Container(memdata.MemDiskGroup):
     """Basic high level data container.
 
@@ -441,7 +458,7 @@ class ContainerPrototype(Container):
                 if name not in self:
                     self.add_dataset(name)
 
-                self[name][:] = source_dset[:]
+                _copy_data(source_dset, self[name])
 
         # Copy over attributes
         if attrs_from is not None:
-- 
2.43.0


From 060acf52aee8c6d20e3d5be69656056b03bdc7ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:48 +0000
Subject: [PATCH 070/109] fix: resolve table specifications for the class, not
 when an instance is made

---
 caput/containers/_core.py | 51 +++++++++++++++++++++------------------
 1 file changed, 27 insertions(+), 24 deletions(-)

diff --git a/caput/containers/_core.py b/caput/containers/_core.py
index 7b549e5..dfe60f3 100644
--- a/caput/containers/_core.py
+++ b/caput/containers/_core.py
@@ -771,41 +771,41 @@ class TableSpec(ContainerPrototype):
 
     _table_spec: ClassVar[dict[str, dict]] = {}
 
-    def __init__(self, *args: tuple, **kwargs: dict):
-        # Get the dataset specifiction for this class (not any base classes), or
-        # an empty dictionary if it does not exist. Do the same for the axes entry..
-        dspec = self.__class__.__dict__.get("_dataset_spec", {})
-        axes = self.__class__.__dict__.get("_axes", ())
+    @classmethod
+    def _class_dataset_spec(cls) -> dict[str, dict]:
+        """Get the dataset specification, including the entries for all the tables."""
+        dspec = super()._class_dataset_spec()
 
         # Iterate over all table_spec entries and construct dataset specifications for
         # them.
-        for name, spec in self.table_spec.items():
+        for name, spec in cls._class_table_spec().items():
             # Get the specifieid axis or if not present create a unique one for
             # this table entry
             axis = spec.get("axis", name + "_index")
 
-            dtype = self._create_dtype(spec["columns"])
-
-            _dataset = {
+            dspec[name] = {
                 "axes": [axis],
-                "dtype": dtype,
+                "dtype": cls._create_dtype(spec["columns"]),
                 "initialise": spec.get("initialise", True),
                 "distributed": spec.get("distributed", False),
                 "distributed_axis": axis,
             }
 
-            dspec[name] = _dataset
+        return {k: dspec[k] for k in sorted(dspec)}
 
-            if axis not in axes:
-                axes += (axis,)
+    @classmethod
+    def _class_axes(cls) -> tuple[str, ...]:
+        """Get the set of axes, including the ones of all the tables."""
+        axes = set(super()._class_axes())
 
-        self._dataset_spec = dspec
-        self._axes = axes
+        for name, spec in cls._class_table_spec().items():
+            axes.add(spec.get("axis", name + "_index"))
 
-        super().__init__(*args, **kwargs)
+        return tuple(sorted(axes))
 
+    @staticmethod
     def _create_dtype(
-        self, columns: dict[str, npt.DTypeLike]
+        columns: dict[str, npt.DTypeLike],
     ) -> list[tuple[str, np.dtype]]:
         """Take a dictionary of columns and turn into the appropriate compound data type."""
         dt = []
@@ -816,17 +816,20 @@ class TableSpec(ContainerPrototype):
 
         return dt
 
-    @property
-    def table_spec(self) -> dict[str, dict]:
-        """Return a copy of the fully resolved table specifiction as a dictionary."""
-        import inspect
-
+    @classmethod
+    def _class_table_spec(cls) -> dict[str, dict]:
+        """Get the inherited set of table spec entries."""
         tdict = {}
 
-        for cls in inspect.getmro(self.__class__)[::-1]:
+        for c in inspect.getmro(cls)[::-1]:
             try:
-                tdict.update(cls._table_spec)
+                tdict.update(c._table_spec)
             except AttributeError:
                 pass
 
         return tdict
+
+    @property
+    def table_spec(self) -> dict[str, dict]:
+        """Return a copy of the fully resolved table specifiction as a dictionary."""
+        return self._class_table_spec()
-- 
2.43.0


From 055d7e86ca0de3acff616686a3c2885a7ac472f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:56 +0000
Subject: [PATCH 071/109] fix: accept arrays, masks and empty lists as
 filtering selections, and keep the caller's

---
 caput/containers/_util.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/caput/containers/_util.py b/caput/containers/_util.py
index 18560c8..0deb188 100644
--- a/caput/containers/_util.py
+++ b/caput/containers/_util.py
@@ -91,16 +91,24 @@ def copy_datasets_filter(
             f"but selections for {list(selection.keys())}."
         )
 
-    # Try to clean up selections
-    for ax in list(selection):
-        sel = selection[ax]
+    # Try to clean up selections, leaving the ones we were given unmodified
+    selection = dict(selection)
+    for ax, sel in list(selection.items()):
+        if type(sel) in {list, tuple, np.ndarray}:
+            ind = np.asarray(sel)
+            # Convert masks to indices
+            if ind.dtype == bool:
+                ind = np.flatnonzero(ind)
+            ind = ind.tolist()
+            # Convert any indexed selections to slices where possible
+            start = ind[0] if ind else 0
+            if start >= 0 and ind == list(range(start, start + len(ind))):
+                selection[ax] = slice(start, start + len(ind))
+            else:
+                selection[ax] = ind
         # Remove any unnecessary slices
-        if sel == slice(None):
+        elif sel == slice(None):
             del selection[ax]
-        # Convert any indexed selections to slices where possible
-        elif type(sel) in {list, tuple, np.ndarray}:
-            if list(sel) == list(range(sel[0], sel[-1])):
-                selection[ax] = slice(sel[0], sel[-1])
 
     stack = [source]
 
-- 
2.43.0


From 63af80a69baac11fb226a02a19977f0c73e86bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:56 +0000
Subject: [PATCH 072/109] fix: filter common datasets into distributed ones

---
 caput/containers/_util.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/caput/containers/_util.py b/caput/containers/_util.py
index 0deb188..52d551a 100644
--- a/caput/containers/_util.py
+++ b/caput/containers/_util.py
@@ -175,11 +175,20 @@ def copy_datasets_filter(
                 continue
             arr = _apply_sel(arr, sel, ax_ind)
 
+        # Only write the local part of common data
+        if not item.distributed and dest_dset.distributed:
+            arr = arr[
+                tuple(
+                    slice(s, s + n)
+                    for s, n in zip(dest_dset.local_offset, dest_dset.local_shape)
+                )
+            ]
+
         dest_dset[:] = arr[:]
 
         # also copy attritutes
         _memh5.copyattrs(item.attrs, dest_dset.attrs)
 
-        if isinstance(dest_dset, _memh5.MemDatasetDistributed):
+        if isinstance(item, _memh5.MemDatasetDistributed):
             # Redistribute back to the original axis
             dest_dset.redistribute(original_ax_id)
-- 
2.43.0


From 106f565645ab361661c4b5b08dc668b469c72df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:56 +0000
Subject: [PATCH 073/109] fix: let index selections take precedence over map
 selections

---
 caput/pipeline/tasklib/io.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/caput/pipeline/tasklib/io.py b/caput/pipeline/tasklib/io.py
index 16a6995..4d3f0f5 100644
--- a/caput/pipeline/tasklib/io.py
+++ b/caput/pipeline/tasklib/io.py
@@ -270,9 +270,13 @@ class SelectionsMixin:
         if not self.allow_index_map:
             del sel_parsers["map"]
 
-        # To enforce the precedence of range vs index selections, we rely on the fact
-        # that a sort will place the axis_range keys after axis_index keys
-        for k in sorted(self.selections or []):
+        # To enforce the precedence of the selection types, process the ones which
+        # override the others last
+        precedence = {"map": 0, "index": 1, "range": 2}
+
+        for k in sorted(
+            self.selections or [], key=lambda k: precedence.get(k.split("_")[-1], 0)
+        ):
             # Parse the key to get the axis name and type, accounting for the fact the
             # axis name may contain an underscore
             *axis, type_ = k.split("_")
-- 
2.43.0


From affcb04e6bc1735dd4e1b5ef356aae3069b83111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:45:08 +0000
Subject: [PATCH 074/109] fix: accept the names of file formats in the
 configuration

---
 caput/pipeline/extensions/_configtypes.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/caput/pipeline/extensions/_configtypes.py b/caput/pipeline/extensions/_configtypes.py
index c82a5bf..7ea66c2 100644
--- a/caput/pipeline/extensions/_configtypes.py
+++ b/caput/pipeline/extensions/_configtypes.py
@@ -45,7 +45,7 @@ def file_format(default=None):
         if val is None:
             return None
 
-        if issubclass(val, fileformats.FileFormat):
+        if isinstance(val, type) and issubclass(val, fileformats.FileFormat):
             return val
 
         if not isinstance(val, str):
@@ -62,9 +62,14 @@ def file_format(default=None):
 
         raise CaputConfigError(f"Input {val!r} needs to be one of {options})")
 
-    if default is not None and (
-        (not isinstance(default, str)) or (default.lower() not in options)
-    ):
+    if isinstance(default, str):
+        valid = default.lower() in options
+    else:
+        valid = default is None or (
+            isinstance(default, type) and issubclass(default, fileformats.FileFormat)
+        )
+
+    if not valid:
         raise CaputConfigError(f"Default value {default!r} must be in {options}")
 
     return Property(proptype=_prop, default=default)
-- 
2.43.0


From c5046d805e2f1bd3128ae7897d54ba125385a5a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:45:08 +0000
Subject: [PATCH 075/109] fix: use the count as the tag when the input has no
 tag

---
 caput/pipeline/tasklib/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/caput/pipeline/tasklib/base.py b/caput/pipeline/tasklib/base.py
index 9af355f..ac83734 100644
--- a/caput/pipeline/tasklib/base.py
+++ b/caput/pipeline/tasklib/base.py
@@ -350,7 +350,7 @@ class ContainerTask(MPILoggedTask, extensions.ContainerIOMixin):
 
         # Extract a list of the tags for all input arguments
         input_tags = [
-            (str(icont.attrs.get("tag")) if isinstance(icont, MemDiskGroup) else "")
+            (str(icont.attrs.get("tag", "")) if isinstance(icont, MemDiskGroup) else "")
             for icont in input
         ]
 
@@ -558,7 +558,7 @@ class ContainerTask(MPILoggedTask, extensions.ContainerIOMixin):
         idict = dict(output.attrs)
         if "tag" in output.attrs:
             tag = output.attrs["tag"]
-        elif "input_tags" in output.attrs and len(output.attrs["input_tags"]):
+        elif len(output.attrs.get("input_tags", [])) and output.attrs["input_tags"][0]:
             tag = output.attrs["input_tags"][0]
         else:
             tag = self._count
-- 
2.43.0


From cb4a47d0b7c7cafe5f5f3adbe1ee7740822c719d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:45:08 +0000
Subject: [PATCH 076/109] fix: report outputs of container tasks which are not
 containers

---
 caput/pipeline/tasklib/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/caput/pipeline/tasklib/base.py b/caput/pipeline/tasklib/base.py
index ac83734..6ad629e 100644
--- a/caput/pipeline/tasklib/base.py
+++ b/caput/pipeline/tasklib/base.py
@@ -373,7 +373,8 @@ class ContainerTask(MPILoggedTask, extensions.ContainerIOMixin):
 
         # Insert the input tags into the output containers
         for opt in output:
-            opt.attrs["input_tags"] = input_tags
+            if isinstance(opt, MemDiskGroup):
+                opt.attrs["input_tags"] = list(input_tags)
 
         # Process each output individually
         output = tuple(self._process_output(opt, ii) for ii, opt in enumerate(output))
-- 
2.43.0


From a875be81e9d0b8ba296c018e70f3ef650379528b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:45:08 +0000
Subject: [PATCH 077/109] fix: accept names of log levels in lower case

---
 caput/pipeline/tasklib/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/caput/pipeline/tasklib/base.py b/caput/pipeline/tasklib/base.py
index 6ad629e..6ec2ec1 100644
--- a/caput/pipeline/tasklib/base.py
+++ b/caput/pipeline/tasklib/base.py
@@ -58,7 +58,7 @@ def _log_level(x):
     if isinstance(x, int):
         return x
 
-    if isinstance(x, str) and x in level_dict:
+    if isinstance(x, str) and x.upper() in level_dict:
         return level_dict[x.upper()]
 
     raise ValueError(f"Logging level {x!r} not understood")
-- 
2.43.0


From d392512d728b833caf603b72f56cd5012a979785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:45:08 +0000
Subject: [PATCH 078/109] fix: let the MakeCopy and Delete tasks receive their
 inputs

---
 caput/pipeline/tasklib/flow.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/caput/pipeline/tasklib/flow.py b/caput/pipeline/tasklib/flow.py
index c0ea04d..3b15865 100644
--- a/caput/pipeline/tasklib/flow.py
+++ b/caput/pipeline/tasklib/flow.py
@@ -100,7 +100,7 @@ class GatherInputs(MPILoggedTask):
 class Delete(MPILoggedTask):
     """Delete pipeline products to free memory."""
 
-    def process(self, x):
+    def next(self, x):
         """Delete the input and collect garbage.
 
         Parameters
@@ -118,7 +118,7 @@ class Delete(MPILoggedTask):
 class MakeCopy(MPILoggedTask):
     """Make a copy of the passed object."""
 
-    def process(self, data):
+    def next(self, data):
         """Return a deep copy of the given object.
 
         Parameters
-- 
2.43.0


From 7da65ce960e96cf95a0df9c3185c25ad0744a9f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:45:08 +0000
Subject: [PATCH 079/109] fix: expand lists and groups of files like any other
 list of files

---
 caput/pipeline/tasklib/io.py | 32 +++++++++-----------------------
 1 file changed, 9 insertions(+), 23 deletions(-)

diff --git a/caput/pipeline/tasklib/io.py b/caput/pipeline/tasklib/io.py
index 4d3f0f5..3651463 100644
--- a/caput/pipeline/tasklib/io.py
+++ b/caput/pipeline/tasklib/io.py
@@ -65,21 +65,15 @@ def list_of_filelists(files):
     flattened_list : list[PathLike]
         The input file list. Any glob patterns will be flattened to file path string lists.
     """
-    import glob
+    if isinstance(files, str):
+        files = [files]
 
     f2 = []
 
     for filelist in files:
-        if isinstance(filelist, str):
-            if "*" not in filelist and not os.path.isfile(filelist):
-                raise config.CaputConfigError(f"File not found: {filelist!s}")
-            filelist = glob.glob(filelist)
-        elif isinstance(filelist, list):
-            for i in range(len(filelist)):
-                filelist[i] = list_or_glob(filelist[i])
-        else:
+        if not isinstance(filelist, str | list):
             raise config.CaputConfigError("Must be list or glob pattern.")
-        f2 = f2 + filelist
+        f2 = f2 + list_or_glob(filelist)
 
     return f2
 
@@ -154,12 +148,12 @@ def list_of_filegroups(groups):
     :py:exc:`~caput.config.CaputConfigError`
         If `groups` has the wrong format.
     """
-    import glob
-
     # Convert to list if the group was not included in a list
     if not isinstance(groups, list):
         groups = [groups]
 
+    parsed_groups = []
+
     # Iterate over groups, set the tag if needed, and process the file list
     # through glob
     for gi, group in enumerate(groups):
@@ -172,22 +166,14 @@ def list_of_filegroups(groups):
                 f"Expected type dict in file groups (got {type(group)})."
             )
 
-        if "tag" not in group:
-            group["tag"] = f"group_{gi:d}"
-
-        flist = []
-
-        for fname in files:
-            if "*" not in fname and not os.path.isfile(fname):
-                raise config.CaputConfigError(f"File not found: {fname!s}")
-            flist += glob.glob(fname)
+        flist = list_or_glob(list(files))
 
         if not len(flist):
             raise config.CaputConfigError(f"No files in group exist ({files!s}).")
 
-        group["files"] = flist
+        parsed_groups.append({"tag": f"group_{gi:d}", **group, "files": flist})
 
-    return groups
+    return parsed_groups
 
 
 class FindFiles(MPILoggedTask):
-- 
2.43.0


From 0ec4039a2e96aec9fce091d3d81d5b6665690671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:45:08 +0000
Subject: [PATCH 080/109] fix: finish when there are no zip jobs to wait for

---
 caput/pipeline/tasklib/io.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/caput/pipeline/tasklib/io.py b/caput/pipeline/tasklib/io.py
index 3651463..4aa6622 100644
--- a/caput/pipeline/tasklib/io.py
+++ b/caput/pipeline/tasklib/io.py
@@ -1019,7 +1019,9 @@ class SaveZarrZip(ZipZarrContainers):
 class WaitZarrZip(MPILoggedTask):
     """Collect Zarr-zipping jobs and wait for them to complete."""
 
-    _handles = None
+    def __init__(self):
+        super().__init__()
+        self._handles = []
 
     def next(self, handle):
         """Receive the handles to wait on.
@@ -1029,9 +1031,6 @@ class WaitZarrZip(MPILoggedTask):
         handle : ZarrZipHandle
             The handle to wait on.
         """
-        if self._handles is None:
-            self._handles = []
-
         self._handles.append(handle)
 
     def finish(self):
-- 
2.43.0


From 7d3627283d12b096b37dcbaf57b38cebad707b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:45:08 +0000
Subject: [PATCH 081/109] fix: make the Save task usable

---
 caput/pipeline/tasklib/io.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/caput/pipeline/tasklib/io.py b/caput/pipeline/tasklib/io.py
index 4aa6622..99c1932 100644
--- a/caput/pipeline/tasklib/io.py
+++ b/caput/pipeline/tasklib/io.py
@@ -585,10 +585,10 @@ class LoadFiles(LoadFilesFromParams):
         self.files = files
 
 
-class Save(ContainerTask):
+class Save(MPILoggedTask):
     """Save out the input, and pass it on.
 
-    Assumes that the input has a :py:meth:`to_hdf5` method. Appends a *tag* if there is
+    Appends a *tag* if there is
     a `tag` entry in the attributes, otherwise just appends a count.
 
     Attributes
@@ -604,11 +604,9 @@ class Save(ContainerTask):
     def next(self, data):
         """Write out the data file.
 
-        Assumes it has a :py:class:`~caput.memdata.MemGroup` interface.
-
         Parameters
         ----------
-        data : MemGroup
+        data : MemGroup | MemDiskGroup
             Data to write out.
         """
         if "tag" not in data.attrs:
@@ -619,7 +617,10 @@ class Save(ContainerTask):
 
         fname = f"{self.root}_{tag!s}.h5"
 
-        data.to_hdf5(fname)
+        if isinstance(data, MemDiskGroup):
+            data.save(fname, file_format=fileformats.HDF5)
+        else:
+            data.to_file(fname, file_format=fileformats.HDF5)
 
         return data
 
-- 
2.43.0


From 52b5df5f5b1bcff558901523b0e498b302eae665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:45:08 +0000
Subject: [PATCH 082/109] fix: write groups from tasks which read and write
 files

---
 caput/pipeline/extensions/_extensions.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/caput/pipeline/extensions/_extensions.py b/caput/pipeline/extensions/_extensions.py
index 047b938..e9a5e01 100644
--- a/caput/pipeline/extensions/_extensions.py
+++ b/caput/pipeline/extensions/_extensions.py
@@ -132,8 +132,8 @@ class _OneAndOne(Task):
                 "%s writing data to file %s.", self.__class__.__name__, output_filename
             )
             output_dirname = os.path.dirname(output_filename)
-            if not os.path.isdir(output_dirname):
-                os.makedirs(output_dirname)
+            if output_dirname != "":
+                os.makedirs(output_dirname, exist_ok=True)
             self.write_output(
                 output_filename,
                 output,
@@ -348,6 +348,8 @@ class GroupIOMixin:
         """
         import h5py
 
+        from ...memdata import MemGroup, deep_group_copy
+
         file_format = fileformats.check_file_format(filename, file_format, output)
 
         try:
@@ -358,7 +360,7 @@ class GroupIOMixin:
 
         # Ensure parent directory is present.
         dirname = os.path.dirname(filename)
-        if not os.path.isdir(dirname):
+        if dirname != "" and not os.path.isdir(dirname):
             try:
                 os.makedirs(dirname)
             except OSError as e:
@@ -380,16 +382,17 @@ class GroupIOMixin:
                 output.file.filename, filename
             ):
                 # `output` already lives in this file.
-                output.flush()
+                output.file.flush()
 
             else:
                 # Copy to memory then to disk
                 # XXX This can be made much more efficient using a direct copy.
-                out_copy = MemGroup.from_hdf5(output)
+                out_copy = MemGroup()
+                deep_group_copy(output, out_copy)
 
                 # Lock file as we write
                 with lock_file(filename, comm=out_copy.comm) as fn:
-                    out_copy.to_hdf5(fn, mode="w")
+                    out_copy.to_file(fn, mode="w", file_format=file_format)
 
         elif isinstance(output, zarr.Group):
             if os.path.isdir(filename) and os.path.samefile(
@@ -406,9 +409,9 @@ class GroupIOMixin:
                         zarr.DirectoryStore(filename),
                         source_path=output.path,
                     )
-                logger.debug(
-                    f"Copied {n_copied} items ({n_bytes_copied} bytes), skipped {n_skipped} items."
-                )
+                    logger.debug(
+                        f"Copied {n_copied} items ({n_bytes_copied} bytes), skipped {n_skipped} items."
+                    )
 
 
 class ContainerIOMixin:
-- 
2.43.0


From 50831ed86752894863742aea0557355313fc2e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:45:08 +0000
Subject: [PATCH 083/109] fix: match truncation weights to the data by the
 names of their axes

---
 caput/pipeline/tasklib/io.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/caput/pipeline/tasklib/io.py b/caput/pipeline/tasklib/io.py
index 99c1932..bf4d766 100644
--- a/caput/pipeline/tasklib/io.py
+++ b/caput/pipeline/tasklib/io.py
@@ -740,9 +740,11 @@ class Truncate(ContainerTask):
             # Add missing broadcast axes to the weights dataset
             waxes = weight.attrs.get("axis", [])
             daxes = data.attrs.get("axis", [])
-            # Add length-one axes
+            # Put the axes in the order of the data, and add length-one axes
+            order = [list(waxes).index(ax) for ax in daxes if ax in waxes]
             slobj = tuple(slice(None) if ax in waxes else np.newaxis for ax in daxes)
-            weight = weight[:][slobj]
+            weight = weight[:].view(np.ndarray)
+            weight = weight.transpose(order)[slobj] if order else weight[slobj]
 
         # Broadcast `weight` against the shape of the truncation array
         weight = np.broadcast_to(weight, data[:].shape).copy().reshape(-1)
-- 
2.43.0


From 27eb878781498c2645e045f6fa8965d2dfc48e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:06 +0000
Subject: [PATCH 084/109] fix: cast empty inputs of read/write tasks too

---
 caput/pipeline/extensions/_extensions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/caput/pipeline/extensions/_extensions.py b/caput/pipeline/extensions/_extensions.py
index e9a5e01..8e93f8b 100644
--- a/caput/pipeline/extensions/_extensions.py
+++ b/caput/pipeline/extensions/_extensions.py
@@ -216,7 +216,7 @@ class SingleBase(_OneAndOne):
         except AttributeError:
             self.done = True
 
-        if input:
+        if input is not None:
             input = self.cast_input(input)
         return self.read_process_write(input, self.input_filename, self.output_filename)
 
@@ -288,7 +288,7 @@ class IterBase(_OneAndOne):
             input_filename = middle + self.input_ext
             output_filename = middle + self.output_ext
 
-        if input:
+        if input is not None:
             input = self.cast_input(input)
         output = self.read_process_write(input, input_filename, output_filename)
         self.iteration += 1
-- 
2.43.0


From ed63b42895d8a114215dc59760899d854e5cc323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:23:29 +0000
Subject: [PATCH 085/109] fix: fill the output array given to the random number
 generator

---
 caput/algorithms/random.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/caput/algorithms/random.py b/caput/algorithms/random.py
index d73c831..23872a3 100644
--- a/caput/algorithms/random.py
+++ b/caput/algorithms/random.py
@@ -156,12 +156,22 @@ class MultithreadedRNG(np.random.Generator):
                 size = None
 
             # Try and get an out argument
-            if has_out and "out" in kwargs:
-                out = kwargs.pop("out")
-                size = out.shape
+            if has_out and len(args) > nparam + 2:
+                out = args[nparam + 2]
+            elif has_out:
+                out = kwargs.pop("out", None)
             else:
                 out = None
 
+            # Arrays which can't be filled directly, and sizes not matching them, are
+            # refused by the underlying method
+            if out is not None:
+                if not (out.flags.c_contiguous or out.flags.f_contiguous) or (
+                    size is not None and tuple(np.atleast_1d(size)) != out.shape
+                ):
+                    return method(self, *orig_args, **orig_kwargs)
+                size = out.shape
+
             # Try to figure out the dtype so we can pre-allocate the array for filling
             if has_dtype and len(args) > nparam + 1:
                 dtype = args[nparam + 1]
@@ -224,7 +234,7 @@ class MultithreadedRNG(np.random.Generator):
                 self._executor.submit(
                     _fill,
                     self._random_generators[i],
-                    out.ravel()[(i * step) : ((i + 1) * step)],
+                    out.ravel(order="K")[(i * step) : ((i + 1) * step)],
                 )
                 for i in range(self._threads)
             ]
-- 
2.43.0


From b12f95794c15d416bfc6f9a265659d5cc88b8fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:23:29 +0000
Subject: [PATCH 086/109] fix: the same type of poisson samples whatever their
 number

---
 caput/algorithms/random.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/caput/algorithms/random.py b/caput/algorithms/random.py
index 23872a3..e29bcad 100644
--- a/caput/algorithms/random.py
+++ b/caput/algorithms/random.py
@@ -80,7 +80,7 @@ class MultithreadedRNG(np.random.Generator):
         "uniform": (2, np.float64, False, False),
         "normal": (2, np.float64, False, False),
         "standard_normal": (0, np.float64, True, True),
-        "poisson": (1, np.float64, False, False),
+        "poisson": (1, np.int64, False, False),
         "power": (1, np.float64, False, False),
     }
 
-- 
2.43.0


From 847aac3996bb4b9307e4e792759e71beaabe24e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:23:29 +0000
Subject: [PATCH 087/109] fix: do not drop positional arguments of the random
 number methods

---
 caput/algorithms/random.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/caput/algorithms/random.py b/caput/algorithms/random.py
index e29bcad..721a2f0 100644
--- a/caput/algorithms/random.py
+++ b/caput/algorithms/random.py
@@ -180,6 +180,10 @@ class MultithreadedRNG(np.random.Generator):
             else:
                 dtype = defdtype
 
+            # Positional arguments we don't know about (e.g. `endpoint` of `integers`)
+            if len(args) > nparam + 1 + has_dtype + has_out:
+                return method(self, *orig_args, **orig_kwargs)
+
             # Trim any excess positional arguments
             args = args[:nparam]
 
-- 
2.43.0


From 89161b1d661091ee16cefe733bc136772fbf4bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:14 +0000
Subject: [PATCH 088/109] fix: zip containers whose names have spaces or other
 special characters

---
 caput/pipeline/tasklib/io.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/caput/pipeline/tasklib/io.py b/caput/pipeline/tasklib/io.py
index bf4d766..4f04b77 100644
--- a/caput/pipeline/tasklib/io.py
+++ b/caput/pipeline/tasklib/io.py
@@ -29,6 +29,7 @@ These are specified in the YAML file as a dictionary like below.
 from __future__ import annotations
 
 import os
+import shlex
 import shutil
 import subprocess
 from functools import partial
@@ -1002,12 +1003,14 @@ class SaveZarrZip(ZipZarrContainers):
             # Run 7z to zip up the file
             dest_file = outfile + ".zip"
             src_dir = outfile + "/."
-            command = f"{self._path_7z} a -tzip -mx=0 {dest_file} {src_dir}"
+            command = shlex.join(
+                [self._path_7z, "a", "-tzip", "-mx=0", dest_file, src_dir]
+            )
 
             # If we are to remove the file get the background job to do it immediately
             # after zipping succeeds
             if self.remove:
-                command += f" && rm -r {outfile}"
+                command += f" && rm -r {shlex.quote(outfile)}"
 
             bg_process = subprocess.Popen(
                 command, shell=True, stdout=subprocess.PIPE, stderr=subprocess.PIPE
-- 
2.43.0


From 86f3ddf05150c96dacf69e8b3e34d97b59ce83d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:14 +0000
Subject: [PATCH 089/109] fix: zip untagged containers under different names

---
 caput/pipeline/tasklib/io.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/caput/pipeline/tasklib/io.py b/caput/pipeline/tasklib/io.py
index 4f04b77..2fd82e3 100644
--- a/caput/pipeline/tasklib/io.py
+++ b/caput/pipeline/tasklib/io.py
@@ -1019,6 +1019,9 @@ class SaveZarrZip(ZipZarrContainers):
         # Increment the global operations counter
         self.__class__._operation_counter += 1
 
+        # Increment the counter used to label untagged containers
+        self._count = self._count + 1
+
         return ZarrZipHandle(dest_file, bg_process)
 
 
-- 
2.43.0


From 3551f11903bc99f5a12a1af36e30afab76766532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:14 +0000
Subject: [PATCH 090/109] fix: do not block on the output of zip jobs

---
 caput/pipeline/tasklib/io.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/caput/pipeline/tasklib/io.py b/caput/pipeline/tasklib/io.py
index 2fd82e3..0641cf1 100644
--- a/caput/pipeline/tasklib/io.py
+++ b/caput/pipeline/tasklib/io.py
@@ -1048,12 +1048,13 @@ class WaitZarrZip(MPILoggedTask):
             self.log.debug(f"Waiting on job processing {h.filename}")
 
             if h.handle is not None:
-                returncode = h.handle.wait()
+                # Read the output while waiting, such that the job can't block on it
+                stdout, stderr = h.handle.communicate()
 
-                if returncode != 0 or not os.path.exists(h.filename):
+                if h.handle.returncode != 0 or not os.path.exists(h.filename):
                     self.log.debug("Error occurred while zipping. Debug logs follow...")
-                    self.log.debug(f"stdout={h.handle.stdout}")
-                    self.log.debug(f"stderr={h.handle.stderr}")
+                    self.log.debug(f"stdout={stdout}")
+                    self.log.debug(f"stderr={stderr}")
                     raise RuntimeError(f"Error occurred while zipping {h.filename}.")
 
             self.comm.Barrier()
-- 
2.43.0


From 51bbd1b8114a82f0d6c4298a5d8723b2c03fbba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:00 +0000
Subject: [PATCH 091/109] fix: run pipelines from templates on the command line

`caput-pipeline template-run` passes no options on to `run_pipeline`, which
required them, so that it always failed.
---
 caput/pipeline/runner/_core.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/caput/pipeline/runner/_core.py b/caput/pipeline/runner/_core.py
index 88541d6..47730be 100644
--- a/caput/pipeline/runner/_core.py
+++ b/caput/pipeline/runner/_core.py
@@ -43,10 +43,10 @@ def lint_config(configfile: os.PathLike | tuple[os.PathLike, ...]) -> None:
 
 def run_pipeline(
     configfile: os.PathLike,
-    profile: bool,
-    profiler: Literal["cprofile", "pyinstrument"],
-    mpi_abort: bool,
-    psutil: bool,
+    profile: bool = False,
+    profiler: Literal["cprofile", "pyinstrument"] = "cprofile",
+    mpi_abort: bool = True,
+    psutil: bool = False,
 ) -> None:
     """Run a pipeline immediately from the given `configfile`.
 
-- 
2.43.0


From b22966c34d7583446ce420e060b8e0c9f7c953af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:00 +0000
Subject: [PATCH 092/109] fix: find the site-packages of a virtual environment
 for python 3.10 and later

---
 caput/pipeline/runner/_core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/caput/pipeline/runner/_core.py b/caput/pipeline/runner/_core.py
index 47730be..29e8be4 100644
--- a/caput/pipeline/runner/_core.py
+++ b/caput/pipeline/runner/_core.py
@@ -182,7 +182,7 @@ def _load_venv(configfile: os.PathLike) -> None:
         logger.warning(f"Path defined in 'cluster'/'venv' doesn't exist ({base})")
         sys.exit(1)
 
-    site_packages = base / "lib" / f"python{sys.version[:3]}" / "site-packages"
+    site_packages = base / "lib" / f"python{sys.version_info.major}.{sys.version_info.minor}" / "site-packages"
     prev_sys_path = list(sys.path)
 
     site.addsitedir(site_packages)
-- 
2.43.0


From e89d020a2ffb2a82f1b510a22d0e672ad7ed16d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:00 +0000
Subject: [PATCH 093/109] fix: report the name of an unknown queue system

It was an UnboundLocalError.
---
 caput/pipeline/runner/_scheduler/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/caput/pipeline/runner/_scheduler/__init__.py b/caput/pipeline/runner/_scheduler/__init__.py
index 083f55e..f9a1604 100644
--- a/caput/pipeline/runner/_scheduler/__init__.py
+++ b/caput/pipeline/runner/_scheduler/__init__.py
@@ -305,7 +305,7 @@ def _resolve_system_config(conf: dict) -> dict:
             )
         else:
             raise ValueError(
-                f"Specified system `{system}`: is not known. "
+                f"Specified system `{sysname}` is not known. "
                 f"Known systems are: {list(REGISTERED_SYSTEMS.keys())} "
                 f"and known clusters are: {list(REGISTERED_CLUSTERS.keys())}"
             )
-- 
2.43.0


From 2c47ec536f7de652e8c843021a400b4fec62b002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:00 +0000
Subject: [PATCH 094/109] fix: use an existing profiler for queued jobs by
 default

---
 caput/pipeline/runner/_cli.py                | 2 +-
 caput/pipeline/runner/_scheduler/__init__.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/caput/pipeline/runner/_cli.py b/caput/pipeline/runner/_cli.py
index ecaeabe..30701a7 100644
--- a/caput/pipeline/runner/_cli.py
+++ b/caput/pipeline/runner/_cli.py
@@ -193,7 +193,7 @@ def queue(
     submit=False,
     lint=True,
     profile=False,
-    profiler="cProfiler",
+    profiler="cProfile",
     psutil=False,
     overwrite="never",
     email=None,
diff --git a/caput/pipeline/runner/_scheduler/__init__.py b/caput/pipeline/runner/_scheduler/__init__.py
index f9a1604..f2c0fd3 100644
--- a/caput/pipeline/runner/_scheduler/__init__.py
+++ b/caput/pipeline/runner/_scheduler/__init__.py
@@ -112,7 +112,7 @@ def queue(
     submit: bool = False,
     lint: bool = True,
     profile: bool = False,
-    profiler: str | None = "cProfiler",
+    profiler: str | None = "cProfile",
     psutil: bool = False,
     overwrite: Literal["never", "failed"] = "never",
     email: str | None = None,
-- 
2.43.0


From fe057f14377033620f980d2f68c4c553ec454313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:00 +0000
Subject: [PATCH 095/109] fix: create job scripts for PBS

The script used a key which does not exist, so that no job could be queued.
It also ignored the profiling options and the default arguments of mpirun,
and left a FINISHED status of an earlier job while running.
---
 caput/pipeline/runner/_scheduler/__init__.py           | 4 ++--
 caput/pipeline/runner/_scheduler/_default_systems.toml | 8 +++++---
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/caput/pipeline/runner/_scheduler/__init__.py b/caput/pipeline/runner/_scheduler/__init__.py
index f2c0fd3..724c0f8 100644
--- a/caput/pipeline/runner/_scheduler/__init__.py
+++ b/caput/pipeline/runner/_scheduler/__init__.py
@@ -434,9 +434,9 @@ def _resolve_job_script(conf: dict, directories: dict) -> str:
         conf["invoke"] = REGISTERED_SYSTEMS[system].get("invoke", "mpirun")
 
     if "invoke_args" not in conf:
-        # Nothing here, but still need an empty string to
+        # If there is nothing here, still need an empty string to
         # satisfy the script template
-        conf["invoke_args"] = ""
+        conf["invoke_args"] = REGISTERED_SYSTEMS[system].get("invoke_args", "")
 
     # Path does not support type specifiers, so convert all `Path`
     # objects to strings
diff --git a/caput/pipeline/runner/_scheduler/_default_systems.toml b/caput/pipeline/runner/_scheduler/_default_systems.toml
index 7c98664..613dc30 100644
--- a/caput/pipeline/runner/_scheduler/_default_systems.toml
+++ b/caput/pipeline/runner/_scheduler/_default_systems.toml
@@ -58,7 +58,7 @@ options = "--mail-user={email} --mail-type={mailtype}"
 command = "qsub"
 invoke = "mpirun"
 invoke_args = "-np {mpiproc:d} -npernode {pernode:d} -bind-to none"
-required = ["name", "nodes", "time", "directory", "ppn", "queue"]
+required = ["name", "nodes", "time", "directory", "ppn", "queue", "ompnum", "pernode"]
 script = """#!/bin/bash
 #PBS -l nodes={nodes:d}:ppn={ppn:d}
 #PBS -q {queue:s}
@@ -78,14 +78,16 @@ function setCrashed {{
 
 trap setCrashed ERR
 
-{module:s}
+echo RUNNING > {statuspath:s}
+
+{modules:s}
 
 source {venv:s}
 
 cd {workdir:s}
 export OMP_NUM_THREADS={ompnum:d}
 
-{invoke:s} {invoke_args:s} caput-pipeline run {configpath:s} &> {logpath:s}
+{invoke:s} {invoke_args:s} caput-pipeline run {profile:s} {profiler:s} {psutil:s} {configpath:s} &> {logpath:s}
 
 # Set the status
 echo FINISHED > {statuspath:s}
-- 
2.43.0


From 53e4be954aaf0b2052935f6a1c7eac2e1b94dc54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:00 +0000
Subject: [PATCH 096/109] fix: run jobs in directories whose names have spaces

---
 .../runner/_scheduler/_default_systems.toml   | 28 +++++++++----------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/caput/pipeline/runner/_scheduler/_default_systems.toml b/caput/pipeline/runner/_scheduler/_default_systems.toml
index 613dc30..dab4d7c 100644
--- a/caput/pipeline/runner/_scheduler/_default_systems.toml
+++ b/caput/pipeline/runner/_scheduler/_default_systems.toml
@@ -17,18 +17,18 @@ set -e
 
 # set status to crashed upon non-zero status of command
 function setCrashed {{
-    echo CRASHED > {statuspath:s}
+    echo CRASHED > \"{statuspath:s}\"
 }}
 
 trap setCrashed ERR
 
-echo RUNNING > {statuspath:s}
+echo RUNNING > \"{statuspath:s}\"
 
 {modules:s}
 
-source {venv:s}
+source \"{venv:s}\"
 
-cd {workdir:s}
+cd \"{workdir:s}\"
 export OMP_NUM_THREADS=$SLURM_CPUS_PER_TASK
 
 # Try to keep threads together - this is usually more optimal
@@ -36,15 +36,15 @@ export OMP_NUM_THREADS=$SLURM_CPUS_PER_TASK
 export OMP_PROC_BIND=close
 export OMP_PLACES=cores
 
-{invoke:s} {invoke_args:s} caput-pipeline run {profile:s} {profiler:s} {psutil:s} {configpath:s} &> {logpath:s}
+{invoke:s} {invoke_args:s} caput-pipeline run {profile:s} {profiler:s} {psutil:s} \"{configpath:s}\" &> \"{logpath:s}\"
 
 # Set the status
-echo FINISHED > {statuspath:s}
+echo FINISHED > \"{statuspath:s}\"
 
 # If the job was successful, then move the output to its final location
 if [ {usetemp:d} -eq 1 ]
 then
-    mkdir -p $(dirname \"{finaldir:s}\")
+    mkdir -p \"$(dirname \"{finaldir:s}\")\"
     mv \"{workdir:s}\" \"{finaldir:s}\"
 fi
 """
@@ -73,29 +73,29 @@ set -e
 
 # set status to crashed upon non-zero status of command
 function setCrashed {{
-    echo CRASHED > {statuspath:s}
+    echo CRASHED > \"{statuspath:s}\"
 }}
 
 trap setCrashed ERR
 
-echo RUNNING > {statuspath:s}
+echo RUNNING > \"{statuspath:s}\"
 
 {modules:s}
 
-source {venv:s}
+source \"{venv:s}\"
 
-cd {workdir:s}
+cd \"{workdir:s}\"
 export OMP_NUM_THREADS={ompnum:d}
 
-{invoke:s} {invoke_args:s} caput-pipeline run {profile:s} {profiler:s} {psutil:s} {configpath:s} &> {logpath:s}
+{invoke:s} {invoke_args:s} caput-pipeline run {profile:s} {profiler:s} {psutil:s} \"{configpath:s}\" &> \"{logpath:s}\"
 
 # Set the status
-echo FINISHED > {statuspath:s}
+echo FINISHED > \"{statuspath:s}\"
 
 # If the job was successful, then move the output to its final location
 if [ {usetemp:d} -eq 1 ]
 then
-    mkdir -p $(dirname \"{finaldir:s}\")
+    mkdir -p \"$(dirname \"{finaldir:s}\")\"
     mv \"{workdir:s}\" \"{finaldir:s}\"
 fi
 """
-- 
2.43.0


From d02dd3623030b64ee6b2578f99d6918bc597ac88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:25 +0000
Subject: [PATCH 097/109] fix: leave no job behind when queueing it fails

The job directory was created before the options were checked, so that the
job was skipped as an existing one when queued again with valid options.
---
 caput/pipeline/runner/_scheduler/__init__.py | 29 ++++++++++----------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/caput/pipeline/runner/_scheduler/__init__.py b/caput/pipeline/runner/_scheduler/__init__.py
index 724c0f8..c0380d4 100644
--- a/caput/pipeline/runner/_scheduler/__init__.py
+++ b/caput/pipeline/runner/_scheduler/__init__.py
@@ -225,13 +225,6 @@ def queue(
         # The job already exists and we are not overwriting
         return
 
-    # Copy the config file to the job directory
-    sfile = _fix_path(configfile)
-    dfile = _fix_path(directories["jobdir"] / "config.yaml")
-
-    if sfile != dfile:
-        shutil.copyfile(sfile, dfile)
-
     # Forward profiler configuration
     resolved_config["profile"] = "--profile" if profile else ""
     resolved_config["profiler"] = f"--profiler={profiler}" if profile else ""
@@ -240,10 +233,6 @@ def queue(
     # Resolve the cluster job script based on the configuration
     jobscript = _resolve_job_script(resolved_config, directories)
 
-    # Write the job script to the job directory
-    with open(directories["jobdir"] / "jobscript.sh", "w") as f:
-        f.write(jobscript)
-
     # Resolve mail options, if available for the queue system
     extra_options = []
 
@@ -266,6 +255,20 @@ def queue(
                 mail_config["options"].format(email=email, mailtype=mailtype).split()
             )
 
+    # Everything is valid, so create the job directory
+    directories["jobdir"].mkdir(parents=True, exist_ok=True)
+
+    # Copy the config file to the job directory
+    sfile = _fix_path(configfile)
+    dfile = _fix_path(directories["jobdir"] / "config.yaml")
+
+    if sfile != dfile:
+        shutil.copyfile(sfile, dfile)
+
+    # Write the job script to the job directory
+    with open(directories["jobdir"] / "jobscript.sh", "w") as f:
+        f.write(jobscript)
+
     if submit:
         # NOTE: explicitly set the environment to what Python thinks it should
         # be. This is because mpi4py will incorrectly modify the environment
@@ -325,7 +328,7 @@ def _resolve_system_config(conf: dict) -> dict:
 
 
 def _create_job_directories(conf: dict, overwrite: str) -> dict[str, Path] | None:
-    """Create job directories based on a configuration dictionary."""
+    """Get the job directories based on a configuration dictionary."""
     directories = {}
 
     # If no temporary directory set, just use the final directory
@@ -361,8 +364,6 @@ def _create_job_directories(conf: dict, overwrite: str) -> dict[str, Path] | Non
                         f"Successful job already exists at {workdir}. Skipping."
                     )
                     return None
-    else:
-        jobdir.mkdir(parents=True)
 
     directories["jobdir"] = jobdir
     directories["workdir"] = workdir
-- 
2.43.0


From b83d89d61951e74f4cd198705fa25dc0f1ed7fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:25 +0000
Subject: [PATCH 098/109] fix: do not repeat jobs which finished in their final
 directory

---
 caput/pipeline/runner/_scheduler/__init__.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/caput/pipeline/runner/_scheduler/__init__.py b/caput/pipeline/runner/_scheduler/__init__.py
index c0380d4..b1af9e9 100644
--- a/caput/pipeline/runner/_scheduler/__init__.py
+++ b/caput/pipeline/runner/_scheduler/__init__.py
@@ -349,11 +349,14 @@ def _create_job_directories(conf: dict, overwrite: str) -> dict[str, Path] | Non
 
     # Create temporary directory if required
     jobdir = workdir / "job/"
-    statusfile = jobdir / "STATUS"
 
-    if jobdir.exists():
+    # A job which finished has been moved to the final directory
+    existing = jobdir if jobdir.exists() else finaldir / "job/"
+    statusfile = existing / "STATUS"
+
+    if existing.exists():
         if overwrite == "never":
-            logger.info(f"Job already exists at {workdir}. Skipping.")
+            logger.info(f"Job already exists at {existing.parent}. Skipping.")
             return None
 
         if overwrite == "failed" and statusfile.exists():
@@ -361,7 +364,7 @@ def _create_job_directories(conf: dict, overwrite: str) -> dict[str, Path] | Non
                 contents = fh.read()
                 if "FINISHED" in contents:
                     logger.info(
-                        f"Successful job already exists at {workdir}. Skipping."
+                        f"Successful job already exists at {existing.parent}. Skipping."
                     )
                     return None
 
-- 
2.43.0


From 7cad73bc73fc752d6a340a16dfa8c801809134eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:25 +0000
Subject: [PATCH 099/109] fix: move the output of a job into an existing final
 directory

It was moved to a subdirectory of it.
---
 .../runner/_scheduler/_default_systems.toml   | 20 +++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/caput/pipeline/runner/_scheduler/_default_systems.toml b/caput/pipeline/runner/_scheduler/_default_systems.toml
index dab4d7c..db18908 100644
--- a/caput/pipeline/runner/_scheduler/_default_systems.toml
+++ b/caput/pipeline/runner/_scheduler/_default_systems.toml
@@ -44,8 +44,14 @@ echo FINISHED > \"{statuspath:s}\"
 # If the job was successful, then move the output to its final location
 if [ {usetemp:d} -eq 1 ]
 then
-    mkdir -p \"$(dirname \"{finaldir:s}\")\"
-    mv \"{workdir:s}\" \"{finaldir:s}\"
+    if [ -d \"{finaldir:s}\" ]
+    then
+        cp -a \"{workdir:s}/.\" \"{finaldir:s}\"
+        rm -r \"{workdir:s}\"
+    else
+        mkdir -p \"$(dirname \"{finaldir:s}\")\"
+        mv \"{workdir:s}\" \"{finaldir:s}\"
+    fi
 fi
 """
 
@@ -95,8 +101,14 @@ echo FINISHED > \"{statuspath:s}\"
 # If the job was successful, then move the output to its final location
 if [ {usetemp:d} -eq 1 ]
 then
-    mkdir -p \"$(dirname \"{finaldir:s}\")\"
-    mv \"{workdir:s}\" \"{finaldir:s}\"
+    if [ -d \"{finaldir:s}\" ]
+    then
+        cp -a \"{workdir:s}/.\" \"{finaldir:s}\"
+        rm -r \"{workdir:s}\"
+    else
+        mkdir -p \"$(dirname \"{finaldir:s}\")\"
+        mv \"{workdir:s}\" \"{finaldir:s}\"
+    fi
 fi
 """
 
-- 
2.43.0


From 4018d1fe423296e3706fd1a544286e535e3e1bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:25 +0000
Subject: [PATCH 100/109] fix: report when submitting a job fails

---
 caput/pipeline/runner/_scheduler/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/caput/pipeline/runner/_scheduler/__init__.py b/caput/pipeline/runner/_scheduler/__init__.py
index b1af9e9..0067656 100644
--- a/caput/pipeline/runner/_scheduler/__init__.py
+++ b/caput/pipeline/runner/_scheduler/__init__.py
@@ -277,6 +277,7 @@ def queue(
             [system_config["command"], *extra_options, "jobscript.sh"],
             cwd=directories["jobdir"],
             env=os.environ,
+            check=True,
         )
 
 
-- 
2.43.0


From d8b0e8823d7a9d70337b0832014dac8934c66e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:07 +0000
Subject: [PATCH 101/109] fix: write rows at their place in the file

All processes wrote at the start of the file, over its header, and the offsets
and sizes were those of single byte elements.
---
 caput/util/mpitools.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/caput/util/mpitools.py b/caput/util/mpitools.py
index fb1934a..a3b5826 100644
--- a/caput/util/mpitools.py
+++ b/caput/util/mpitools.py
@@ -926,16 +926,16 @@ def lock_and_write_buffer(obj: object, fname: str, offset: int, size: int) -> No
 
     buf = memoryview(obj)
 
-    if len(buf) > size:
+    if buf.nbytes > size:
         raise Exception("Size doesn't match array length.")
 
     fd = os.open(fname, os.O_RDWR | os.O_CREAT)
 
     fcntl.lockf(fd, fcntl.LOCK_EX, size, offset, os.SEEK_SET)
 
-    nb = os.write(fd, buf)
+    nb = os.pwrite(fd, buf, offset)
 
-    if nb != len(buf):
+    if nb != buf.nbytes:
         raise Exception("Something funny happened with the reading.")
 
     fcntl.lockf(fd, fcntl.LOCK_UN)
@@ -957,6 +957,12 @@ def parallel_rows_write_hdf5(
 
     lr, sr, _ = split_local(shape[0], comm=comm)
 
-    nc = np.prod(shape[1:])
+    nc = int(np.prod(shape[1:])) * local_data.dtype.itemsize
 
-    lock_and_write_buffer(local_data, fname, offset + sr * nc, lr * nc)
+    # There is nothing to lock or write for an empty region
+    if lr * nc == 0:
+        return
+
+    lock_and_write_buffer(
+        np.ascontiguousarray(local_data), fname, offset + sr * nc, lr * nc
+    )
-- 
2.43.0


From d6badd2a4b821fc5a1ec842a687fd2a0f265ae21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:32 +0000
Subject: [PATCH 102/109] fix: allocate datasets with names of type str

---
 caput/util/mpitools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/caput/util/mpitools.py b/caput/util/mpitools.py
index a3b5826..895a5a3 100644
--- a/caput/util/mpitools.py
+++ b/caput/util/mpitools.py
@@ -892,7 +892,7 @@ def allocate_hdf5_dataset(
         plist.set_fill_time(h5py.h5d.FILL_TIME_NEVER)
 
         # Create the dataset
-        dset = h5py.h5d.create(f.id, dsetname, tp, sp, plist)
+        dset = h5py.h5d.create(f.id, dsetname.encode(), tp, sp, plist)
 
         # Get the offset of the dataset into the file.
         state = dset.get_offset(), dset.get_storage_size()
-- 
2.43.0


From 9a7f1f2ebbfb333eeae931a34d303182ba111125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:20 +0000
Subject: [PATCH 103/109] fix: treat arrays without dimensions as scalars in
 scalarized functions

They have no length, so that the functions failed.
---
 caput/util/arraytools.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/caput/util/arraytools.py b/caput/util/arraytools.py
index e048953..7afed81 100644
--- a/caput/util/arraytools.py
+++ b/caput/util/arraytools.py
@@ -266,7 +266,9 @@ def scalarize(dtype: npt.DTypeLike = np.float64) -> Callable:
                     x = x.ts.tt_jd(np.array([x.tt]))
 
             elif isinstance(x, np.ndarray):
-                scalar = False
+                # An array without dimensions is a scalar too
+                scalar = x.ndim == 0
+                x = np.atleast_1d(x)
 
             elif isinstance(x, list | tuple):
                 x = np.array(x)
-- 
2.43.0


From e2cc34561ecb242b9ecc22ab375103a620b8e09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:20 +0000
Subject: [PATCH 104/109] fix: keep the inner one of two decorators

The reference to the decorated function was replaced by that of the inner
decorator.
---
 caput/util/arraytools.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/caput/util/arraytools.py b/caput/util/arraytools.py
index 7afed81..ac50d01 100644
--- a/caput/util/arraytools.py
+++ b/caput/util/arraytools.py
@@ -159,9 +159,7 @@ class _decorator:
     # for a description of this pattern
 
     def __init__(self, func):
-        # Save a reference to the function and set various properties so the
-        # docstrings etc. get passed through
-        self.func = func
+        # Set various properties so the docstrings etc. get passed through
         self.__doc__ = func.__doc__
         self.__name__ = func.__name__
         self.__module__ = func.__module__
@@ -171,6 +169,10 @@ class _decorator:
         self.__kwdefaults__ = getattr(func, "__kwdefaults__", None)
         self.__dict__.update(func.__dict__)
 
+        # Save a reference to the function. This needs to come last, as a function which
+        # is already decorated has such a reference too
+        self.func = func
+
         sig = inspect.signature(func)
         dec_params = [
             p
-- 
2.43.0


From 27add0b71194dd782d803a8e2c3dd3612001c4bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:20 +0000
Subject: [PATCH 105/109] fix: an array does not equal a scalar

---
 caput/util/objecttools.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/caput/util/objecttools.py b/caput/util/objecttools.py
index 33b9483..9482665 100644
--- a/caput/util/objecttools.py
+++ b/caput/util/objecttools.py
@@ -96,6 +96,10 @@ def _assert_equal(obj1: Any, obj2: Any) -> None:
         obj1 = obj1.view(np.ndarray)
         obj2 = obj2.view(np.ndarray)
 
+    # Scalars would be compared with every element of an array
+    if isinstance(obj1, np.ndarray) or isinstance(obj2, np.ndarray):
+        assert np.shape(obj1) == np.shape(obj2)
+
     # Check all other built-in types and numpy types are equal
     np.testing.assert_equal(obj1, obj2)
 
-- 
2.43.0


From a89f203b7766d84dd3f0045913841d62a9da6d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:20 +0000
Subject: [PATCH 106/109] fix: convert datetimes to UTC before formatting them
 as such

---
 caput/astro/time.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/caput/astro/time.py b/caput/astro/time.py
index 1764c69..5a2ad30 100644
--- a/caput/astro/time.py
+++ b/caput/astro/time.py
@@ -228,6 +228,8 @@ def datetime_to_timestr(dt):
     --------
     :py:func:`timestr_to_datetime`
     """
+    dt = naive_datetime_to_utc(dt).astimezone(timezone.utc)
+
     return dt.strftime("%Y%m%dT%H%M%SZ")
 
 
-- 
2.43.0


From 6d23f24779c2e378569a32d5037944f1d8bcd05c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:20 +0000
Subject: [PATCH 107/109] fix: give no times of the day for no times

---
 caput/astro/time.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/caput/astro/time.py b/caput/astro/time.py
index 5a2ad30..2427552 100644
--- a/caput/astro/time.py
+++ b/caput/astro/time.py
@@ -360,7 +360,7 @@ def naive_datetime_to_utc(dt):
     return dt
 
 
-@arraytools.vectorize()
+@arraytools.vectorize(otypes=[np.float64])
 def time_of_day(time):
     """Return the time since the start of the UTC day in seconds.
 
-- 
2.43.0


From 996a3c00b0ce050ad11f1ba5dbec9aac1587099e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:44 +0000
Subject: [PATCH 108/109] fix: compare read-only dictionaries of arrays

Mapping.__eq__ can't compare arrays with more than one element, so that comparing
the index maps of containers failed.
---
 caput/memdata/_memh5.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/caput/memdata/_memh5.py b/caput/memdata/_memh5.py
index 77bbfab..20f0b47 100644
--- a/caput/memdata/_memh5.py
+++ b/caput/memdata/_memh5.py
@@ -96,9 +96,7 @@ class ro_dict(Mapping):
     def __eq__(self, other):
         if not isinstance(other, ro_dict):
             return False
-        return Mapping.__eq__(self, other) and objecttools.allequal(
-            self._dict, other._dict
-        )
+        return objecttools.allequal(self._dict, other._dict)
 
 
 class _Storage(dict):
-- 
2.43.0


From 7449e85acdd9f07de3f21d1ffc3079136c6ef41d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:51 +0000
Subject: [PATCH 109/109] fix: search for events at steps no longer than asked
 for, and give each once

---
 caput/astro/observer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/caput/astro/observer.py b/caput/astro/observer.py
index 091ea6b..6a7c06c 100644
--- a/caput/astro/observer.py
+++ b/caput/astro/observer.py
@@ -924,7 +924,7 @@ def _solve_all(
         If the gradient at the root is positive.
     """
     # Form a grid of points to find intervals to search over
-    x_init = np.linspace(x0, x1, int(np.ceil((x1 - x0) / dx)), endpoint=True)
+    x_init = np.linspace(x0, x1, int(np.ceil((x1 - x0) / dx)) + 1, endpoint=True)
     f_init = f(x_init)
 
     roots = []
@@ -938,6 +938,10 @@ def _solve_all(
         if fa * fb > 0.0:
             continue
 
+        # An exact root between two intervals is found in the second one
+        if fb == 0.0 and xb != x_init[-1]:
+            continue
+
         is_increasing = fa < fb
 
         # Skip positive gradient roots
-- 
2.43.0

