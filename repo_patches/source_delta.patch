From 654603e58eb15e2141da38e6d898176c00795fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:40 +0000
Subject: [PATCH 01/35] fix: min/max combine every chunk along the aggregated
 axis

The min and max stream handlers overwrote their result with each new chunk,
so only the last chunk along the aggregated axis contributed.
---
 biggus/_init.py | 69 ++++++++++++++++++-------------------------------
 1 file changed, 25 insertions(+), 44 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index cd78b54..c0709db 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -2327,68 +2327,49 @@ class _CountMaskedStreamsHandler(_AggregationStreamsHandler):
         self.running_count += np.ma.count(data, axis=self.axis)
 
 
-class _MinStreamsHandler(_AggregationStreamsHandler):
-    def bootstrap(self, processed_chunk_shape):
-        self.result = np.zeros(processed_chunk_shape, dtype=self.array.dtype)
+class _ExtremumStreamsHandler(_AggregationStreamsHandler):
+    """Common behaviour of the running minimum/maximum of the chunks."""
 
-    def finalise(self):
-        array = self.result
-        # Promote array-scalar to 0-dimensional array.
-        if array.ndim == 0:
-            array = np.array(array)
-        chunk = Chunk(self.current_keys, array)
-        return chunk
+    #: The ndarray/MaskedArray reduction to apply, e.g. `np.min`.
+    reduction = None
 
-    def process_data(self, data):
-        self.result = np.min(data, axis=self.axis)
+    #: The function which joins the running result to the next chunk.
+    concatenate = None
 
-
-class _MinMaskedStreamsHandler(_AggregationStreamsHandler):
     def bootstrap(self, processed_chunk_shape):
-        self.result = np.zeros(processed_chunk_shape, dtype=self.array.dtype)
+        # The extreme values seen so far. The aggregated axis is retained
+        # (with length one) so the next chunk can be joined on to it.
+        self.result = None
 
     def finalise(self):
-        array = self.result
-        # Promote array-scalar to 0-dimensional array.
-        if array.ndim == 0:
-            array = np.ma.array(array)
+        array = self.result.reshape(self.output_shape(self.result.shape))
         chunk = Chunk(self.current_keys, array)
         return chunk
 
     def process_data(self, data):
-        self.result = np.min(data, axis=self.axis)
+        if self.result is not None:
+            data = self.concatenate([self.result, data], axis=self.axis)
+        self.result = self.reduction(data, axis=self.axis, keepdims=True)
 
 
-class _MaxStreamsHandler(_AggregationStreamsHandler):
-    def bootstrap(self, processed_chunk_shape):
-        self.result = np.zeros(processed_chunk_shape, dtype=self.array.dtype)
+class _MinStreamsHandler(_ExtremumStreamsHandler):
+    reduction = staticmethod(np.min)
+    concatenate = staticmethod(np.concatenate)
 
-    def finalise(self):
-        array = self.result
-        # Promote array-scalar to 0-dimensional array.
-        if array.ndim == 0:
-            array = np.array(array)
-        chunk = Chunk(self.current_keys, array)
-        return chunk
 
-    def process_data(self, data):
-        self.result = np.max(data, axis=self.axis)
+class _MinMaskedStreamsHandler(_ExtremumStreamsHandler):
+    reduction = staticmethod(np.ma.min)
+    concatenate = staticmethod(np.ma.concatenate)
 
 
-class _MaxMaskedStreamsHandler(_AggregationStreamsHandler):
-    def bootstrap(self, processed_chunk_shape):
-        self.result = np.zeros(processed_chunk_shape, dtype=self.array.dtype)
+class _MaxStreamsHandler(_ExtremumStreamsHandler):
+    reduction = staticmethod(np.max)
+    concatenate = staticmethod(np.concatenate)
 
-    def finalise(self):
-        array = self.result
-        # Promote array-scalar to 0-dimensional array.
-        if array.ndim == 0:
-            array = np.ma.array(array)
-        chunk = Chunk(self.current_keys, array)
-        return chunk
 
-    def process_data(self, data):
-        self.result = np.max(data, axis=self.axis)
+class _MaxMaskedStreamsHandler(_ExtremumStreamsHandler):
+    reduction = staticmethod(np.ma.max)
+    concatenate = staticmethod(np.ma.concatenate)
 
 
 class _SumStreamsHandler(_AggregationStreamsHandler):
-- 
2.43.0


From 5818b3e7e88c52dfcf6b421a682afb9707b17d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:11 +0000
Subject: [PATCH 02/35] fix: mean accumulates in a wide enough data type

The running total used the source's data type, so small integers overflowed
and booleans could not be averaged at all.
---
 biggus/_init.py | 36 +++++++++++++++++++++++++++++-------
 1 file changed, 29 insertions(+), 7 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index c0709db..7c214e0 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -2224,6 +2224,28 @@ class _StreamsHandler(six.with_metaclass(ABCMeta, object)):
         pass
 
 
+def _float_dtype(dtype):
+    """
+    The dtype of the mean and standard deviation of values of the given
+    dtype.
+
+    """
+    return (np.array([0], dtype=dtype) / 1.).dtype
+
+
+def _accumulator_dtype(dtype):
+    """
+    The dtype in which to accumulate values of the given dtype towards
+    their mean or standard deviation. As with NumPy, half-precision values
+    are accumulated in single precision.
+
+    """
+    result = _float_dtype(dtype)
+    if result == np.float16:
+        result = np.dtype(np.float32)
+    return result
+
+
 class _AggregationStreamsHandler(_StreamsHandler):
     def __init__(self, array, axis):
         self.array = array
@@ -2420,18 +2442,18 @@ class _MeanStreamsHandler(_AggregationStreamsHandler):
 
     def bootstrap(self, processed_chunk_shape):
         self.running_total = np.zeros(processed_chunk_shape,
-                                      dtype=self.array.dtype)
+                                      _accumulator_dtype(self.array.dtype))
 
     def finalise(self):
         array = self.running_total / self.array.shape[self.axis]
         # Promote array-scalar to 0-dimensional array.
-        if array.ndim == 0:
-            array = np.array(array)
+        array = np.asarray(array, dtype=_float_dtype(self.array.dtype))
         chunk = Chunk(self.current_keys, array)
         return chunk
 
     def process_data(self, data):
-        self.running_total += np.sum(data, axis=self.axis)
+        self.running_total += np.sum(data, axis=self.axis,
+                                     dtype=self.running_total.dtype)
 
 
 class _MeanMaskedStreamsHandler(_AggregationStreamsHandler):
@@ -2826,7 +2848,7 @@ def mean(a, axis=None, mdtol=1):
     if axes is None or len(axes) != 1:
         msg = "This operation is currently limited to a single axis"
         raise AxisSupportError(msg)
-    dtype = (np.array([0], dtype=a.dtype) / 1.).dtype
+    dtype = _float_dtype(a.dtype)
     kwargs = dict(mdtol=mdtol)
     return _Aggregation(a, axes[0],
                         _MeanStreamsHandler, _MeanMaskedStreamsHandler,
@@ -2859,7 +2881,7 @@ def std(a, axis=None, ddof=0):
     if axes is None or len(axes) != 1:
         msg = "This operation is currently limited to a single axis"
         raise AxisSupportError(msg)
-    dtype = (np.array([0], dtype=a.dtype) / 1.).dtype
+    dtype = _float_dtype(a.dtype)
     return _Aggregation(a, axes[0],
                         _StdStreamsHandler, _StdMaskedStreamsHandler,
                         dtype, dict(ddof=ddof))
@@ -2891,7 +2913,7 @@ def var(a, axis=None, ddof=0):
     if axes is None or len(axes) != 1:
         msg = "This operation is currently limited to a single axis"
         raise AxisSupportError(msg)
-    dtype = (np.array([0], dtype=a.dtype) / 1.).dtype
+    dtype = _float_dtype(a.dtype)
     return _Aggregation(a, axes[0],
                         _VarStreamsHandler, _VarMaskedStreamsHandler,
                         dtype, dict(ddof=ddof))
-- 
2.43.0


From 1d0543aedfe123b00fde31a56c1d0b6aaa023c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:44 +0000
Subject: [PATCH 03/35] fix: masked mean counts and totals in suitable data
 types

The counters used the source's data type, so they overflowed for small
integers, and a completely masked one-dimensional source could not be
averaged.
---
 biggus/_init.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index 7c214e0..4807074 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -2463,9 +2463,10 @@ class _MeanMaskedStreamsHandler(_AggregationStreamsHandler):
 
     def bootstrap(self, processed_chunk_shape):
         shape = processed_chunk_shape
-        self.running_count = np.zeros(shape, dtype=self.array.dtype)
-        self.running_masked_count = np.zeros(shape, dtype=self.array.dtype)
-        self.running_total = np.zeros(shape, dtype=self.array.dtype)
+        self.running_count = np.zeros(shape, dtype=np.intp)
+        self.running_masked_count = np.zeros(shape, dtype=np.intp)
+        self.running_total = np.zeros(shape,
+                                      _accumulator_dtype(self.array.dtype))
 
     def finalise(self):
         # Avoid any runtime-warning for divide by zero.
@@ -2473,8 +2474,8 @@ class _MeanMaskedStreamsHandler(_AggregationStreamsHandler):
         denominator = np.ma.array(self.running_count, mask=mask, dtype=float)
         array = np.ma.array(self.running_total, mask=mask) / denominator
         # Promote array-scalar to 0-dimensional array.
-        if array.ndim == 0:
-            array = np.ma.array(array)
+        array = np.ma.array(array, dtype=_float_dtype(self.array.dtype),
+                            copy=True)
         # Apply masked/missing data threshold (mdtol).
         if self._mdtol < 1:
             mask_update = np.true_divide(self.running_masked_count,
@@ -2488,7 +2489,8 @@ class _MeanMaskedStreamsHandler(_AggregationStreamsHandler):
     def process_data(self, data):
         self.running_count += np.ma.count(data, axis=self.axis)
         self.running_masked_count += np.ma.count_masked(data, axis=self.axis)
-        self.running_total += np.sum(data, axis=self.axis)
+        self.running_total += np.sum(data.filled(0), axis=self.axis,
+                                     dtype=self.running_total.dtype)
 
 
 class _StdStreamsHandler(_AggregationStreamsHandler):
-- 
2.43.0


From dc0c65d4936324c2b14e5a0d981174fcfca7e7d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:09 +0000
Subject: [PATCH 04/35] fix: sum of booleans counts the true values

Summing booleans raised a casting error during evaluation.
---
 biggus/_init.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index 4807074..fb0a608 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -2246,6 +2246,17 @@ def _accumulator_dtype(dtype):
     return result
 
 
+def _sum_dtype(dtype):
+    """
+    The dtype of the sum of values of the given dtype. As with NumPy, the
+    sum of booleans is the number of true values.
+
+    """
+    if dtype == np.dtype(bool):
+        dtype = np.dtype(int)
+    return dtype
+
+
 class _AggregationStreamsHandler(_StreamsHandler):
     def __init__(self, array, axis):
         self.array = array
@@ -2397,7 +2408,7 @@ class _MaxMaskedStreamsHandler(_ExtremumStreamsHandler):
 class _SumStreamsHandler(_AggregationStreamsHandler):
     def bootstrap(self, processed_chunk_shape):
         self.running_total = np.zeros(processed_chunk_shape,
-                                      dtype=self.array.dtype)
+                                      dtype=_sum_dtype(self.array.dtype))
 
     def finalise(self):
         array = self.running_total
@@ -2414,7 +2425,7 @@ class _SumStreamsHandler(_AggregationStreamsHandler):
 class _SumMaskedStreamsHandler(_AggregationStreamsHandler):
     def bootstrap(self, processed_chunk_shape):
         self.running_total = np.ma.zeros(processed_chunk_shape,
-                                         dtype=self.array.dtype)
+                                         dtype=_sum_dtype(self.array.dtype))
         # Start out all masked, and unmask if something is not masked.
         self.mask = np.ones_like(self.running_total, dtype=bool)
 
@@ -2816,7 +2827,7 @@ def sum(a, axis=None):
     assert axes is not None and len(axes) == 1
     return _Aggregation(a, axes[0],
                         _SumStreamsHandler, _SumMaskedStreamsHandler,
-                        a.dtype, {})
+                        _sum_dtype(a.dtype), {})
 
 
 @export
-- 
2.43.0


From ce2906a527d0331898460266ff23d9247de5df0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:14 +0000
Subject: [PATCH 05/35] fix: std/var for single-slice chunks, complex data and
 ddof

A first chunk of length one along the aggregated axis was taken for 'nothing
seen yet', so the running mean restarted and the result came out as zero.
Complex deviations were squared rather than multiplied by their conjugate,
and a ddof of the number of values or more gave unmasked nonsense.
---
 biggus/_init.py | 33 ++++++++++++++++-----------------
 1 file changed, 16 insertions(+), 17 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index fb0a608..c29e41d 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -2517,23 +2517,23 @@ class _StdStreamsHandler(_AggregationStreamsHandler):
         super(_StdStreamsHandler, self).__init__(array, axis)
 
     def bootstrap(self, processed_chunk_shape):
-        self.k = 1
-        self._dtype = (np.zeros(1, dtype=self.array.dtype) / 1.).dtype
-        self.q = np.zeros(processed_chunk_shape, dtype=self._dtype)
+        self.k = 0
+        self._dtype = _accumulator_dtype(self.array.dtype)
+        self.q = np.zeros(processed_chunk_shape, dtype=self._dtype).real
 
     def finalise(self):
-        self.q /= (self.k - self.ddof)
+        self.q /= builtins.max(self.k - self.ddof, 0)
         array = np.sqrt(self.q)
         # Promote array-scalar to 0-dimensional array.
-        if array.ndim == 0:
-            array = np.array(array)
+        array = np.asarray(array, dtype=_float_dtype(self.array.dtype))
         chunk = Chunk(self.current_keys, array)
         return chunk
 
     def process_data(self, data):
         data = np.rollaxis(data, self.axis).astype(self._dtype)
 
-        if self.k == 1:
+        if self.k == 0 and len(data) > 0:
+            self.k = 1
             self.a = data[0]
             data = data[1:]
 
@@ -2546,9 +2546,9 @@ class _StdStreamsHandler(_AggregationStreamsHandler):
             self.a += temp
 
             # Compute q(k).
-            temp *= temp
+            temp *= np.conj(temp)
             temp *= self.k * (self.k - 1)
-            self.q += temp
+            self.q += temp.real
 
 
 class _StdMaskedStreamsHandler(_AggregationStreamsHandler):
@@ -2566,22 +2566,21 @@ class _StdMaskedStreamsHandler(_AggregationStreamsHandler):
         del self.target_shape[self.axis]
 
     def bootstrap(self, processed_chunk_shape):
-        dtype = (np.zeros(1, dtype=self.array.dtype) / 1.).dtype
+        dtype = _accumulator_dtype(self.array.dtype)
         self.a = np.zeros(processed_chunk_shape, dtype=dtype).flatten()
-        self.q = np.zeros(processed_chunk_shape, dtype=dtype).flatten()
+        self.q = np.zeros(processed_chunk_shape, dtype=dtype).real.flatten()
         self.running_count = np.zeros(processed_chunk_shape,
-                                      dtype=dtype).flatten()
+                                      dtype=self.q.dtype).flatten()
         self.current_shape = processed_chunk_shape
 
     def finalise(self):
-        mask = self.running_count == 0
+        mask = self.running_count <= self.ddof
         denominator = ma.array(self.running_count, mask=mask) - self.ddof
         q = ma.array(self.q, mask=mask) / denominator
         array = ma.sqrt(q)
         array.shape = self.current_shape
         # Promote array-scalar to 0-dimensional array.
-        if array.ndim == 0:
-            array = np.ma.array(array)
+        array = np.ma.array(array, dtype=_float_dtype(self.array.dtype))
         chunk = Chunk(self.current_keys, array)
         return chunk
 
@@ -2605,10 +2604,10 @@ class _StdMaskedStreamsHandler(_AggregationStreamsHandler):
             self.a[do_stuff] += temp
 
             # Compute q(k).
-            temp *= temp
+            temp *= np.conj(temp)
             temp *= (self.running_count[do_stuff] *
                      (self.running_count[do_stuff] - 1))
-            self.q[do_stuff] += temp
+            self.q[do_stuff] += temp.real
 
 
 class _VarStreamsHandler(_StdStreamsHandler):
-- 
2.43.0


From 8a2dd61955cadc9667f60492758a6b37b221c6c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:44 +0000
Subject: [PATCH 06/35] fix: LinearMosaic indexing along the tiling axis

Negative indices, boolean vectors, empty selections and negative-step slices
across several tiles selected the wrong data or raised, out-of-range indices
were accepted, and slices were handed to the tiles as index arrays (which
not all kinds of tile support).
---
 biggus/_init.py | 56 +++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 50 insertions(+), 6 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index c29e41d..f2365a1 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -50,6 +50,39 @@ def _is_scalar(key):
     return isinstance(key, (int, np.integer))
 
 
+def _normalise_index(index, size, axis):
+    """
+    Return the non-negative equivalent of the given integer index.
+
+    Raises IndexError if the index is out of bounds.
+
+    """
+    if not -size <= index < size:
+        msg = 'index {0} is out of bounds for axis {1} with size {2}'
+        raise IndexError(msg.format(index, axis, size))
+    return index + size if index < 0 else index
+
+
+def _normalise_indices(key, size, axis):
+    """
+    Return the tuple of non-negative indices which corresponds to the given
+    iterable of indices, or boolean array.
+
+    Raises IndexError if any of the indices are out of bounds, or the size
+    of the boolean array doesn't match the dimension.
+
+    """
+    if isinstance(key, np.ndarray) and key.dtype == np.dtype('bool'):
+        if key.shape != (size,):
+            msg = 'boolean index array of shape {0} does not match axis ' \
+                  '{1} with size {2}'.format(key.shape, axis, size)
+            raise IndexError(msg)
+        indices = np.nonzero(key)[0]
+    else:
+        indices = [_normalise_index(index, size, axis) for index in key]
+    return tuple(map(int, indices))
+
+
 @export
 class AxisSupportError(Exception):
     """Raised when the operation is not supported over a given axis/axes."""
@@ -1999,12 +2032,14 @@ class LinearMosaic(Array):
             offsets = np.cumsum([0] + axis_lengths[:-1])
             splits = offsets - 1
             axis_key = keys[axis]
+            size = self.shape[axis]
             if _is_scalar(axis_key):
+                axis_key = _normalise_index(axis_key, size, axis)
                 # Find the single relevant tile
                 tile_index = np.searchsorted(splits, axis_key) - 1
                 tile = self._tiles[tile_index]
                 tile_indices = list(keys)
-                tile_indices[axis] -= offsets[tile_index]
+                tile_indices[axis] = axis_key - offsets[tile_index]
                 result = tile[tuple(tile_indices)]
             elif isinstance(axis_key, (slice, collections.Iterable)) and \
                     not isinstance(axis_key, six.string_types):
@@ -2012,10 +2047,10 @@ class LinearMosaic(Array):
                 # NB. If the stride is large enough, this might not be a
                 # contiguous subset of self._tiles.
                 if isinstance(axis_key, slice):
-                    size = self.shape[axis]
                     all_axis_indices = range(*axis_key.indices(size))
                 else:
-                    all_axis_indices = tuple(axis_key)
+                    all_axis_indices = _normalise_indices(axis_key, size,
+                                                          axis)
                 tile_indices = np.searchsorted(splits, all_axis_indices) - 1
                 pairs = zip(all_axis_indices, tile_indices)
                 i = itertools.groupby(pairs, lambda axis_tile: axis_tile[1])
@@ -2034,13 +2069,22 @@ class LinearMosaic(Array):
                         step = 1
                         stop = start + 1
                         tile_slice[axis] = slice(start, stop, step)
+                    elif isinstance(axis_key, slice):
+                        # Part of a slice is still a slice, which (unlike
+                        # an array) is supported by all kinds of tile.
+                        start = axis_indices[0]
+                        step = axis_indices[1] - start
+                        stop = axis_indices[-1] + step
+                        tile_slice[axis] = slice(
+                            start, stop if stop >= 0 else None, step)
                     else:
                         tile_slice[axis] = axis_indices
 
                     tiles.append(tile[tuple(tile_slice)])
-                if isinstance(axis_key, slice) and \
-                        axis_key.step is not None and axis_key.step < 0:
-                    tiles.reverse()
+                if not tiles:
+                    # Nothing has been selected.
+                    tile_slice[axis] = slice(0, 0)
+                    tiles.append(self._tiles[0][tuple(tile_slice)])
                 # Adjust the axis of the new mosaic to account for any
                 # scalar keys prior to our current mosaic axis.
                 new_axis = axis
-- 
2.43.0


From f8a9d22b7ce817022ddc87828715d031ef79da73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:27 +0000
Subject: [PATCH 07/35] fix: adapters keep each index key independent of the
 others

An index tuple separated from a scalar by a slice gave transposed data, and
a boolean vector together with another vector was zipped with it as in
NumPy's fancy indexing. Boolean vectors are now turned into index tuples,
and must match the length of their dimension.
---
 biggus/_init.py | 41 ++++++++---------------------------------
 1 file changed, 8 insertions(+), 33 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index f2365a1..b0129c8 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -1355,7 +1355,7 @@ class _ArrayAdapter(Array):
         result_keys = []
         for axis, (key, size) in enumerate(zip(keys, concrete.shape)):
             result_key = self._cleanup_new_key(key, size, axis)
-            result_keys.append(key)
+            result_keys.append(result_key)
         self._keys = tuple(result_keys)
 
     @property
@@ -1392,22 +1392,11 @@ class _ArrayAdapter(Array):
                 raise IndexError(msg)
         elif isinstance(key, slice):
             pass
-        elif isinstance(key, np.ndarray) and key.dtype == np.dtype('bool'):
-            if key.size > size:
-                msg = 'too many boolean indices. Boolean index array ' \
-                      'of size {0} is greater than axis {1} with ' \
-                      'size {2}'.format(key.size, axis, size)
-                raise IndexError(msg)
         elif isinstance(key, collections.Iterable) and \
                 not isinstance(key, six.string_types):
             # Make sure we capture the values in case we've
             # been given a one-shot iterable, like a generator.
-            key = tuple(key)
-            for sub_key in key:
-                if sub_key >= size or sub_key < -size:
-                    msg = 'index {0} is out of bounds for axis {1}' \
-                          ' with size {2}'.format(sub_key, axis, size)
-                    raise IndexError(msg)
+            key = _normalise_indices(key, size, axis)
         else:
             raise TypeError('invalid key {!r}'.format(key))
         return key
@@ -1429,25 +1418,11 @@ class _ArrayAdapter(Array):
             result_key = indices[new_key]
         elif isinstance(new_key, slice):
             result_key = indices.__getitem__(new_key)
-        elif isinstance(new_key, np.ndarray) and \
-                new_key.dtype == np.dtype('bool'):
-            # Numpy boolean indexing.
-            if new_key.size > size:
-                msg = 'too many boolean indices. Boolean index array ' \
-                      'of size {0} is greater than axis {1} with ' \
-                      'size {2}'.format(new_key.size, axis, size)
-                raise IndexError(msg)
-            result_key = tuple(np.array(indices)[new_key])
         elif isinstance(new_key, collections.Iterable) and \
                 not isinstance(new_key, six.string_types):
             # Make sure we capture the values in case we've
             # been given a one-shot iterable, like a generator.
-            new_key = tuple(new_key)
-            for sub_key in new_key:
-                if sub_key >= size or sub_key < -size:
-                    msg = 'index {0} is out of bounds for axis {1}' \
-                          ' with size {2}'.format(sub_key, axis, size)
-                    raise IndexError(msg)
+            new_key = _normalise_indices(new_key, size, axis)
             result_key = tuple(indices[key] for key in new_key)
         else:
             raise TypeError('invalid key {!r}'.format(new_key))
@@ -1537,14 +1512,14 @@ class NumpyArrayAdapter(_ArrayAdapter):
 
     """
     def _apply_keys(self):
-        # If we have more than one tuple as a key, then NumPy does
-        # "fancy" indexing, instead of "column-based" indexing, so we
-        # need to use multiple indexing operations to get the right
-        # result.
+        # If we have more than one tuple as a key, or a tuple together with
+        # a scalar, then NumPy does "fancy" indexing, instead of
+        # "column-based" indexing, so we need to use multiple indexing
+        # operations to get the right result.
         keys = self._keys
         tuple_keys = [(i, key) for i, key in enumerate(keys)
                       if isinstance(key, tuple)]
-        if len(tuple_keys) > 1:
+        if len(tuple_keys) > 1 or (tuple_keys and any(map(_is_scalar, keys))):
             # Since we're potentially dealing with very large datasets
             # we want to cut down the array as much as possible in the
             # first iteration.
-- 
2.43.0


From 9f970067afc031fc6f61b94c44356f54b1cdeb71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:17 +0000
Subject: [PATCH 08/35] fix: a single masked element keeps its data type and
 fill value

NumPy represents it by a constant which has neither, so it was realised as
the float 0.0 (plain) or as a masked float (masked).
---
 biggus/_init.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index b0129c8..817e7cf 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -1478,23 +1478,35 @@ class _ArrayAdapter(Array):
     def _apply_keys(self):
         pass
 
-    def ndarray(self):
+    def _concrete_values(self):
         array = self._apply_keys()
+        if array is ma.masked:
+            # Selecting a single, masked element of a masked array gives a
+            # constant which has lost the data type and fill value.
+            array = ma.MaskedArray(np.zeros((), dtype=self.dtype), mask=True,
+                                   fill_value=self.fill_value)
+        return array
+
+    def ndarray(self):
+        array = self._concrete_values()
         # We want the shape of the result to match the shape of the
         # Array, so where we've ended up with an array-scalar,
         # "inflate" it back to a 0-dimensional array.
-        if array.ndim == 0:
-            array = np.array(array)
         if ma.isMaskedArray(array):
             array = array.filled()
+        if array.ndim == 0:
+            array = np.array(array, dtype=self.dtype)
         return array
 
     def masked_array(self):
-        array = self._apply_keys()
+        array = self._concrete_values()
         # We want the shape of the result to match the shape of the
         # Array, so where we've ended up with an array-scalar,
         # "inflate" it back to a 0-dimensional array.
-        if array.ndim == 0 or not ma.isMaskedArray(array):
+        if array.ndim == 0:
+            array = ma.MaskedArray(array, dtype=self.dtype,
+                                   fill_value=self.fill_value)
+        elif not ma.isMaskedArray(array):
             array = ma.MaskedArray(array, fill_value=self.fill_value)
         return array
 
-- 
2.43.0


From fe60c221704ce13c9c31b75f2d3ae8ed6b5e077b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:40 +0000
Subject: [PATCH 09/35] fix: constant arrays refuse out-of-range indices

The shape resulting from a set of keys was computed without checking the
keys against the shape, so an out-of-range index into a constant array (or
the leading dimensions of a broadcast array) silently gave data.
---
 biggus/_init.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index 817e7cf..9cbbfbf 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -3259,15 +3259,13 @@ def _sliced_shape(shape, keys):
     for key in keys:
         shape_dim += 1
         if _is_scalar(key):
-            continue
+            _normalise_index(key, shape[shape_dim], shape_dim)
         elif isinstance(key, slice):
             size = len(range(*key.indices(shape[shape_dim])))
             sliced_shape.append(size)
-        elif isinstance(key, np.ndarray) and key.dtype == np.dtype('bool'):
-            # Numpy boolean indexing.
-            sliced_shape.append(builtins.sum(key))
         elif isinstance(key, (tuple, np.ndarray)):
-            sliced_shape.append(len(key))
+            indices = _normalise_indices(key, shape[shape_dim], shape_dim)
+            sliced_shape.append(len(indices))
         elif key is np.newaxis:
             shape_dim -= 1
             sliced_shape.append(1)
-- 
2.43.0


From 561cd880453c33c36e591bd66abcf3ad95dac829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:54 +0000
Subject: [PATCH 10/35] fix: elementwise results have the declared data type
 and array type

An operation with a Python number was declared with NumPy's promotion for
numbers, but evaluated with the number as a 64-bit array; and the result for
0-dimensional operands was an array-scalar rather than an array.
---
 biggus/_init.py | 53 +++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 43 insertions(+), 10 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index 9cbbfbf..3a96080 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -2963,9 +2963,10 @@ def var(a, axis=None, ddof=0):
 
 
 class _ElementwiseStreamsHandler(_StreamsHandler):
-    def __init__(self, sources, operator):
+    def __init__(self, sources, operator, as_result):
         self.sources = sources
         self.operator = operator
+        self.as_result = as_result
 
     def finalise(self):
         pass
@@ -2975,7 +2976,7 @@ class _ElementwiseStreamsHandler(_StreamsHandler):
 
     def process_chunks(self, chunks):
         array = self.operator(*[chunk.data for chunk in chunks])
-        chunk = Chunk(chunks[0].keys, array)
+        chunk = Chunk(chunks[0].keys, self.as_result(array))
         return chunk
 
 
@@ -2989,6 +2990,9 @@ class _Elementwise(ComputedArray):
 
     """
     def __init__(self, array1, array2, numpy_op, ma_op=None):
+        initial_array1 = array1
+        if array2 is not None:
+            array1 = self._number_as_array(array1, array2)
         array1 = ensure_array(array1)
 
         expected_n_arrays = None
@@ -3018,7 +3022,7 @@ class _Elementwise(ComputedArray):
             initial_array2 = array2
 
             # Dual input elementwise
-            array2 = ensure_array(array2)
+            array2 = self._number_as_array(array2, array1)
 
             # Broadcast both arrays to the full broadcast shape.
             # TypeError will be raised if not broadcastable.
@@ -3028,17 +3032,18 @@ class _Elementwise(ComputedArray):
             # this is to trap the case where a Python int of float is provided,
             # rather than a numpy int or float.  The type promotion is handled
             # differently, for consistency with numpy (1.8 & 1.9) behaviour.
+            first_array = np.ones(1, dtype=array1.dtype)
+            second_array = np.ones(1, dtype=array2.dtype)
             if type(initial_array2) is int or type(initial_array2) is float:
                 second_array = initial_array2
-            else:
-                second_array = np.ones(1, dtype=array2.dtype)
+            elif type(initial_array1) is int or type(initial_array1) is float:
+                first_array = initial_array1
 
             # Type-promotion - The resultant dtype depends on both the array
             # dtypes and the operation. Avoid using np.find_common_dtype(),
             # here, as integer division yields a float, whereas standard type
             # coercion rules with find_common_dtype yields an integer.
-            dtype = numpy_op(np.ones(1, dtype=array1.dtype),
-                             second_array).dtype
+            dtype = numpy_op(first_array, second_array).dtype
 
         self._dtype = dtype
         self._array1 = array1
@@ -3046,6 +3051,32 @@ class _Elementwise(ComputedArray):
         self._numpy_op = numpy_op
         self._ma_op = ma_op
 
+    @staticmethod
+    def _number_as_array(operand, other):
+        """
+        Convert the given operand of a dual input operation to an Array.
+
+        A Python number gets the data type with which NumPy would have it
+        take part in an operation with the other operand.
+
+        """
+        dtype = getattr(other, 'dtype', None)
+        if dtype is not None and (type(operand) is int or
+                                  type(operand) is float):
+            dtype = np.result_type(np.empty(1, dtype=dtype), operand)
+            if type(operand) is float or dtype.kind in 'iu':
+                operand = ConstantArray((), operand, dtype)
+        return ensure_array(operand)
+
+    def _as_ndarray(self, values):
+        # Cast to the declared data type, and promote any array-scalar to a
+        # 0-dimensional array.
+        return np.asarray(values, dtype=self.dtype)
+
+    def _as_masked_array(self, values):
+        # NB. We mustn't share the contents of the masked constant.
+        return ma.array(values, dtype=self.dtype, copy=values is ma.masked)
+
     @property
     def dtype(self):
         return self._dtype
@@ -3074,7 +3105,7 @@ class _Elementwise(ComputedArray):
     def ndarray(self):
         np_operands = ndarrays(self.sources)
         result = self._numpy_op(*np_operands)
-        return result
+        return self._as_ndarray(result)
 
     def masked_array(self):
         if self._ma_op is None:
@@ -3082,7 +3113,7 @@ class _Elementwise(ComputedArray):
                             ''.format(self._numpy_op.__name__))
         ma_operands = masked_arrays(self.sources)
         result = self._ma_op(*ma_operands)
-        return result
+        return self._as_masked_array(result)
 
     def streams_handler(self, masked):
         if masked:
@@ -3090,9 +3121,11 @@ class _Elementwise(ComputedArray):
                 raise TypeError('No {} operation defined for masked arrays.'
                                 ''.format(self._numpy_op.__name__))
             operator = self._ma_op
+            as_result = self._as_masked_array
         else:
             operator = self._numpy_op
-        return _ElementwiseStreamsHandler(self.sources, operator)
+            as_result = self._as_ndarray
+        return _ElementwiseStreamsHandler(self.sources, operator, as_result)
 
 
 def _unary_fn_wrapper(name, function_to_wrap, masked_equivalent=None,
-- 
2.43.0


From 410215fbee283678cb461e4656637c04f2d3c928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:34 +0000
Subject: [PATCH 11/35] fix: casting an array twice applies both casts

Casting an already cast array dropped the first cast, so for example casting
1.5 to an integer and back to a float still gave 1.5.
---
 biggus/_init.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index 3a96080..00a4a66 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -1172,9 +1172,6 @@ class AsDataTypeArray(ArrayContainer):
     def dtype(self):
         return self._dtype
 
-    def astype(self, dtype):
-        return type(self)(self.array, dtype)
-
     def __getitem__(self, keys):
         # Apply the indexing to the contained array, then instantly
         # re-apply the astype.
-- 
2.43.0


From 087409416b23eb01e750efa855272ad3acf67cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:12 +0000
Subject: [PATCH 12/35] fix: ArrayStack supports empty selections and
 independent keys

An empty selection from the stacked dimensions raised, and several index
tuples for them were zipped together instead of applied independently.
---
 biggus/_init.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index 00a4a66..2e35051 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -1819,9 +1819,22 @@ class ArrayStack(Array):
         item_keys = keys[stack_ndim:]
 
         stack_shape = _sliced_shape(self._stack.shape, stack_keys)
-        if stack_shape:
-            stack = self._stack[stack_keys]
-            # If the result was 0D, convert it back to an array.
+        if 0 in stack_shape:
+            # Nothing has been selected from the stack.
+            item = self._stack.flat[0][item_keys]
+            result = ConstantArray(stack_shape + item.shape,
+                                   np.zeros(1, dtype=self.dtype)[0],
+                                   self.dtype)
+        elif stack_shape:
+            # Apply the keys one at a time, to keep them independent of each
+            # other, starting from the last dimension so that the positions
+            # of the remaining dimensions are unaffected by scalar keys.
+            stack = self._stack
+            for axis, key in reversed(list(enumerate(stack_keys))):
+                if not _is_scalar(key) and not isinstance(key, slice):
+                    key = np.array(_normalise_indices(
+                        key, self._stack.shape[axis], axis))
+                stack = stack[(slice(None),) * axis + (key,)]
             stack = np.array(stack)
             for index in np.ndindex(stack_shape):
                 item = stack[index]
-- 
2.43.0


From 57430037cd7fa85b7ce1a8bf7cc1b364dc161bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:36 +0000
Subject: [PATCH 13/35] fix: repeated new axes after a removed dimension

Indexing a new axis with anything but a scalar recorded the position of the
key, rather than that of the resulting dimension, as the axis to broadcast.
---
 biggus/_init.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index 2e35051..d531d2d 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -836,8 +836,13 @@ class NewAxesArray(ArrayContainer):
         contained_array_keys = []
         existing_array_axis = 0
         broadcast_dict = {}
+        # The axis of the result which corresponds to the current key.
+        result_axis = -1
 
         for key_index, key in enumerate(keys):
+            if not _is_scalar(key):
+                result_axis += 1
+
             if key is np.newaxis:
                 new_axes[existing_array_axis] += 1
                 continue
@@ -854,14 +859,14 @@ class NewAxesArray(ArrayContainer):
                 elif isinstance(key, slice):
                     new_size = len(range(*key.indices(1)))
                     if new_size != 1:
-                        broadcast_dict[key_index] = new_size
+                        broadcast_dict[result_axis] = new_size
                 elif isinstance(key, tuple):
                     for index in key:
                         if not -1 <= index < 1:
                             raise IndexError('index {} is out of bounds for '
                                              'axis {} with size 1'
                                              ''.format(key, key_index))
-                    broadcast_dict[key_index] = len(key)
+                    broadcast_dict[result_axis] = len(key)
                 else:
                     raise NotImplementedError('NewAxesArray indexing not yet '
                                               'supported for {} keys.'
-- 
2.43.0


From deb6e123cad3c869ef419d2942a4de5cc3171749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:50 +0000
Subject: [PATCH 14/35] fix: BroadcastArray vector keys and empty leading
 dimensions

An index vector for an ordinary dimension raised an ambiguous truth value
error, and an empty leading dimension (which NumPy's broadcasting allows)
was refused.
---
 biggus/_init.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index d531d2d..d3014e7 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -936,8 +936,8 @@ class BroadcastArray(ArrayContainer):
         # Compute the broadcast shape.
         shape = self._shape_from_broadcast_dict(self.array.shape, broadcast)
         for length in leading_shape:
-            if length < 1:
-                raise ValueError('Leading shape must all be >=1.')
+            if length < 0:
+                raise ValueError('Leading shape must all be >=1 (or empty).')
         self._leading_shape = tuple(leading_shape)
         self._broadcast_shape = tuple(shape)
         self._shape = self._leading_shape + self._broadcast_shape
@@ -995,7 +995,8 @@ class BroadcastArray(ArrayContainer):
                                               'implemented.'
                                               ''.format(type(key)))
         # Try to avoid a copy of self.array if we can.
-        if all(key == slice(None) for key in array_keys):
+        if all(isinstance(key, slice) and key == slice(None)
+               for key in array_keys):
             sub_array = self.array
         else:
             sub_array = self.array[tuple(array_keys)]
-- 
2.43.0


From 0282deac74fc4edad98ad5966d36d5943751ce58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:16 +0000
Subject: [PATCH 15/35] fix: broadcast an already broadcast array along the
 right axes

When an operand of an elementwise operation already had a leading shape, the
axes to broadcast were numbered without it.
---
 biggus/_init.py | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index d3014e7..f410d4a 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -1000,7 +1000,28 @@ class BroadcastArray(ArrayContainer):
             sub_array = self.array
         else:
             sub_array = self.array[tuple(array_keys)]
-        return type(self)(sub_array, new_broadcast_dict, leading_shape)
+        return self._broadcast(sub_array, new_broadcast_dict, leading_shape)
+
+    @classmethod
+    def _broadcast(cls, array, broadcast, leading_shape=()):
+        """
+        Broadcast an array, numbering the axes to broadcast as they are in
+        the given array. (In contrast to the constructor, for which the axes
+        exclude the leading shape of an array which is already broadcast.)
+
+        """
+        if isinstance(array, BroadcastArray):
+            leading_ndim = len(array._leading_shape)
+            array_leading_shape = list(array._leading_shape)
+            array_broadcast = array._broadcast_dict.copy()
+            for axis, length in broadcast.items():
+                if axis < leading_ndim:
+                    array_leading_shape[axis] = length
+                else:
+                    array_broadcast[axis - leading_ndim] = length
+            leading_shape = tuple(leading_shape) + tuple(array_leading_shape)
+            array, broadcast = array.array, array_broadcast
+        return cls(array, broadcast, leading_shape)
 
     @classmethod
     def broadcast_arrays(cls, array1, array2):
@@ -1019,10 +1040,10 @@ class BroadcastArray(ArrayContainer):
         shape, bcast_kwargs1, bcast_kwargs2 = (
             cls._compute_broadcast_kwargs(array1.shape, array2.shape))
         if any(bcast_kwargs1.values()):
-            array1 = cls(array1, **bcast_kwargs1)
+            array1 = cls._broadcast(array1, **bcast_kwargs1)
 
         if any(bcast_kwargs2.values()):
-            array2 = cls(array2, **bcast_kwargs2)
+            array2 = cls._broadcast(array2, **bcast_kwargs2)
 
         return array1, array2
 
-- 
2.43.0


From 97141e614ec8f078b67b286d933e56067b930ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:55 +0000
Subject: [PATCH 16/35] fix: transpose accepts negative axes and refuses
 invalid ones

Negative axes raised a KeyError on use, and axes which are not a permutation
of the array's dimensions were accepted.
---
 biggus/_init.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/biggus/_init.py b/biggus/_init.py
index f410d4a..eebc7f7 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -1669,6 +1669,13 @@ class TransposedArray(ArrayContainer):
             axes = np.arange(array.ndim)[::-1]
         elif len(axes) != array.ndim:
             raise ValueError('Incorrect number of dimensions.')
+        else:
+            positive_axes = [axis + array.ndim if axis < 0 else axis
+                             for axis in axes]
+            if sorted(positive_axes) != list(range(array.ndim)):
+                raise ValueError('The axes do not match the array.')
+            if any(axis < 0 for axis in axes):
+                axes = positive_axes
         self.axes = axes
         self._forward_axes_map = {src: dest for dest, src in enumerate(axes)}
         self._inverse_axes_map = {dest: src for dest, src in enumerate(axes)}
-- 
2.43.0


From 6c2415686898d42335da292c4ddac2a69ad0d273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:27 +0000
Subject: [PATCH 17/35] fix: a failing node no longer blocks the nodes which
 supply it

A node which stopped early left its input queues to fill up, so a producer
it shared with another expression blocked and the whole evaluation hung.
---
 biggus/_init.py | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index eebc7f7..dfbab6a 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -289,11 +289,20 @@ class ConsumerNode(Node):
         the registered output queues.
 
         """
+        # The queues which haven't yet given us their final signal.
+        active_queues = list(self.input_queues)
+
+        def next_chunk(input):
+            chunk = input.get()
+            input.task_done()
+            if chunk is QUEUE_FINISHED or chunk is QUEUE_ABORT:
+                active_queues.remove(input)
+            return chunk
+
         try:
             while True:
-                input_chunks = [input.get() for input in self.input_queues]
-                for input in self.input_queues:
-                    input.task_done()
+                input_chunks = [next_chunk(input) for input in
+                                self.input_queues]
                 if any(chunk is QUEUE_ABORT for chunk in input_chunks):
                     self.abort()
                     return
@@ -309,6 +318,12 @@ class ConsumerNode(Node):
         else:
             for queue in self.output_queues:
                 queue.put(QUEUE_FINISHED)
+        finally:
+            # If we've stopped early, discard the rest of the input so the
+            # nodes which supply it (perhaps to other nodes as well) aren't
+            # left waiting for space in our queues.
+            while active_queues:
+                next_chunk(active_queues[0])
 
 
 class StreamsHandlerNode(ConsumerNode):
-- 
2.43.0


From 04e4157b4108c59d1296deae55e47c51db65c03e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:43 +0000
Subject: [PATCH 18/35] fix: start evaluation threads only once all nodes exist

When an expression could not be evaluated (e.g. an operation without masked
support) the result threads of the expressions before it were left waiting
forever.
---
 biggus/_init.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index dfbab6a..025b235 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -449,16 +449,16 @@ class AllThreadedEngine(Engine):
             """
             # Construct nodes starting from the producers.
             result_nodes = []
-            result_threads = []
             for array in self.arrays:
                 iteration_order = list(range(array.ndim))
                 node = self._make_node(array, iteration_order, masked)
                 result_node = NdarrayNode(array, masked)
                 result_node.add_input_nodes([node])
-                result_threads.append(result_node.thread())
                 result_nodes.append(result_node)
 
-            # Start up all the producer/computation threads.
+            # Start up all the threads, now that all of the nodes have been
+            # successfully constructed.
+            result_threads = [node.thread() for node in result_nodes]
             for node in six.itervalues(self._node_cache):
                 node.thread()
 
-- 
2.43.0


From d59a3555b16217b5047b3782ac7dc6961311deed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:06 +0000
Subject: [PATCH 19/35] fix: share a node only between consumers of the same
 chunk order

Aggregations of the same array along different axes, evaluated together,
shared a node which emitted its chunks in the order suitable for only one of
them, so the other one gave wrong results.
---
 biggus/_init.py | 33 ++++++++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index 025b235..2bf4323 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -410,12 +410,35 @@ class AllThreadedEngine(Engine):
             self.arrays = arrays
             self.indices = indices
             self._node_cache = {}
+            self._cuts_cache = {}
 
         def __repr__(self):
             return 'Group({}, {})'.format(self.arrays, self.indices)
 
+        def _cuts(self, array, masked):
+            """
+            The slices, for each dimension of the given array, which
+            describe the Chunks its node will emit.
+
+            """
+            cuts = self._cuts_cache.get(id(array), None)
+            if cuts is None:
+                if hasattr(array, 'streams_handler'):
+                    handler = array.streams_handler(masked)
+                    cuts = handler.output_keys(self._cuts(array.sources[0],
+                                                          masked))
+                else:
+                    cuts = _all_slices_inner(array.shape, always_slices=True)
+                self._cuts_cache[id(array)] = cuts
+            return cuts
+
         def _make_node(self, array, iteration_order, masked):
-            cache_key = id(array)
+            # A node can only be shared by those consumers which need its
+            # Chunks in the same order. That's determined by the order of
+            # the dimensions for which there is more than one slice.
+            cuts = self._cuts(array, masked)
+            cache_key = (id(array), tuple(axis for axis in iteration_order
+                                          if len(cuts[axis]) > 1))
             node = self._node_cache.get(cache_key, None)
             if node is None:
                 if hasattr(array, 'streams_handler'):
@@ -2309,6 +2332,14 @@ class _StreamsHandler(six.with_metaclass(ABCMeta, object)):
     def input_iteration_order(self, iteration_order):
         pass
 
+    def output_keys(self, source_keys):
+        """
+        Given input chunk keys, compute what keys will be needed to put
+        the result into the result array.
+
+        """
+        return source_keys
+
     @abstractmethod
     def process_chunks(self, chunks):
         pass
-- 
2.43.0


From 5aa3663bf2a3ee2d71d6f4eb2f056427024431ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:23 +0000
Subject: [PATCH 20/35] fix: process in lock-step only inputs which are cut
 alike

An aggregation is streamed in the pieces of the array being aggregated. When
combined with an array of the same shape but cut differently, unrelated
pieces were paired up and the remainder dropped.
---
 biggus/_init.py | 62 ++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 49 insertions(+), 13 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index 2bf4323..87a6433 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -425,14 +425,50 @@ class AllThreadedEngine(Engine):
             if cuts is None:
                 if hasattr(array, 'streams_handler'):
                     handler = array.streams_handler(masked)
-                    cuts = handler.output_keys(self._cuts(array.sources[0],
-                                                          masked))
+                    if self._can_stream_sources(array, masked):
+                        cuts = self._cuts(array.sources[0], masked)
+                    else:
+                        cuts = self._producer_cuts(array.sources[0])
+                    cuts = handler.output_keys(cuts)
                 else:
-                    cuts = _all_slices_inner(array.shape, always_slices=True)
+                    cuts = self._producer_cuts(array)
                 self._cuts_cache[id(array)] = cuts
             return cuts
 
+        @staticmethod
+        def _producer_cuts(array):
+            return _all_slices_inner(array.shape, always_slices=True)
+
+        def _can_stream_sources(self, array, masked):
+            """
+            Whether the Chunks of all the array's sources correspond to each
+            other, and so can be processed in lock-step.
+
+            An aggregation has the Chunks of the (larger) array which is
+            being aggregated, so they can be different from those of another
+            array of the same shape.
+
+            """
+            all_cuts = [[[cut.indices(size) for cut in dim_cuts]
+                         for dim_cuts, size in zip(self._cuts(source, masked),
+                                                   source.shape)]
+                        for source in array.sources]
+            return all(cuts == all_cuts[0] for cuts in all_cuts[1:])
+
+        def _make_producer_node(self, array, iteration_order, masked):
+            cuts = self._producer_cuts(array)
+            cache_key = (id(array), tuple(axis for axis in iteration_order
+                                          if len(cuts[axis]) > 1), 'producer')
+            node = self._node_cache.get(cache_key, None)
+            if node is None:
+                node = ProducerNode(array, iteration_order, masked)
+                self._node_cache[cache_key] = node
+            return node
+
         def _make_node(self, array, iteration_order, masked):
+            if not hasattr(array, 'streams_handler'):
+                return self._make_producer_node(array, iteration_order,
+                                                masked)
             # A node can only be shared by those consumers which need its
             # Chunks in the same order. That's determined by the order of
             # the dimensions for which there is more than one slice.
@@ -441,17 +477,17 @@ class AllThreadedEngine(Engine):
                                           if len(cuts[axis]) > 1))
             node = self._node_cache.get(cache_key, None)
             if node is None:
-                if hasattr(array, 'streams_handler'):
-                    node = StreamsHandlerNode(array,
-                                              array.streams_handler(masked))
-                    iteration_order = node.input_iteration_order(
-                        iteration_order)
-                    input_nodes = [self._make_node(input_array,
-                                                   iteration_order, masked)
-                                   for input_array in array.sources]
-                    node.add_input_nodes(input_nodes)
+                node = StreamsHandlerNode(array,
+                                          array.streams_handler(masked))
+                iteration_order = node.input_iteration_order(iteration_order)
+                if self._can_stream_sources(array, masked):
+                    make_node = self._make_node
                 else:
-                    node = ProducerNode(array, iteration_order, masked)
+                    # Evaluate each source piece by piece instead.
+                    make_node = self._make_producer_node
+                input_nodes = [make_node(input_array, iteration_order, masked)
+                               for input_array in array.sources]
+                node.add_input_nodes(input_nodes)
                 self._node_cache[cache_key] = node
             return node
 
-- 
2.43.0


From e230108b67f826e99c415ad0ee9c78ab709588de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:02 +0000
Subject: [PATCH 21/35] fix: masked sum accepts pieces without a mask

---
 biggus/_init.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index 87a6433..4c8697e 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -2596,7 +2596,7 @@ class _SumMaskedStreamsHandler(_AggregationStreamsHandler):
         return chunk
 
     def process_data(self, data):
-        self.mask &= np.all(data.mask, axis=self.axis)
+        self.mask &= np.all(ma.getmaskarray(data), axis=self.axis)
         self.running_total += np.sum(data.filled(0), axis=self.axis)
 
 
-- 
2.43.0


From 12b8acdc07698db0b297101cc6f2151c69d31ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:37 +0000
Subject: [PATCH 22/35] fix: dask engine combines differently cut inputs
 correctly

Pieces which had to be joined were indexed as if each covered the whole group,
the keys of the pieces of one array were not always written the same way, and
nodes were named by a non-unique id.
---
 biggus/experimental/dask_engine.py | 52 ++++++++++++++++++++++--------
 1 file changed, 38 insertions(+), 14 deletions(-)

diff --git a/biggus/experimental/dask_engine.py b/biggus/experimental/dask_engine.py
index dcc0f1b..20d1a37 100644
--- a/biggus/experimental/dask_engine.py
+++ b/biggus/experimental/dask_engine.py
@@ -151,9 +151,10 @@ class DaskGroup(biggus._init.AllThreadedEngine.Group):
                 if process_result is None:
                     raise RuntimeError('No result to process.')
                 # Itself returns a chunk.
-                return process_result
-            else:
-                return result
+                result = process_result
+            # All chunks of an array must have their keys written in the same
+            # way, whichever source it is that provided the handler's keys.
+            return biggus._init.Chunk(produced_keys, result.data)
         produce_chunks.__name__ = nicename
         return produce_chunks
 
@@ -216,8 +217,10 @@ class DaskGroup(biggus._init.AllThreadedEngine.Group):
             t_keys = tuple(slice(*slice_tuple) for slice_tuple in slice_group)
 
             all_chunks = []
-            for source_keys, source_chunks_by_key in zip(sources_keys_group,
-                                                         sources_chunks):
+            for (input_array, source_keys,
+                 source_chunks_by_key) in zip(array.sources,
+                                              sources_keys_group,
+                                              sources_chunks):
                 dependencies = tuple(
                         the_id
                         for keys in source_keys
@@ -237,10 +240,10 @@ class DaskGroup(biggus._init.AllThreadedEngine.Group):
                 # TODO: Fix slice equality to deal with 0 and None etc.
                 if not all(t_keys == normalize_keys(keys, array.shape)
                            for keys in source_keys):
-                    combined = self.collect(array[t_keys], masked, chunk=True)
+                    combined = self.combine(input_array, t_keys, masked)
                     new_task = (combined, ) + dependencies
                     new_id = ('chunk shape: {}\n\n{}'
-                              ''.format(array[t_keys].shape, uuid.uuid()))
+                              ''.format(array[t_keys].shape, uuid.uuid4()))
                     dsk_graph[new_id] = new_task
                     dependencies = (new_id, )
 
@@ -351,7 +354,33 @@ class DaskGroup(biggus._init.AllThreadedEngine.Group):
         return nodes
 
     @staticmethod
-    def collect(array, masked, chunk=False, name=None):
+    def combine(array, keys, masked):
+        """
+        Return a function which combines the Chunks that make up
+        ``array[keys]`` into a single Chunk.
+
+        """
+        # Give each key an explicit start and stop.
+        keys = tuple(slice(*key.indices(size)[:2])
+                     for key, size in zip(keys, array.shape))
+
+        def gather(*chunks):
+            result_node = biggus._init.NdarrayNode(array[keys], masked)
+            for chunk in chunks:
+                # Express the chunk's position relative to the part of the
+                # array which is being combined.
+                part_keys = []
+                for key, chunk_key, size in zip(keys, chunk.keys, array.shape):
+                    start, stop, _ = chunk_key.indices(size)
+                    part_keys.append(slice(start - key.start,
+                                           stop - key.start))
+                part = biggus._init.Chunk(tuple(part_keys), chunk.data)
+                result_node.process_chunks([part])
+            return biggus._init.Chunk(keys, result_node.result)
+        return gather
+
+    @staticmethod
+    def collect(array, masked, name=None):
         def gather(*all_chunks):
             # We make the NdarrayNode inside the calling function as it is this
             # that ultimately we want. TODO: Turn this into a biggus.Array
@@ -362,12 +391,7 @@ class DaskGroup(biggus._init.AllThreadedEngine.Group):
                 if isinstance(chunks, biggus._init.Chunk):
                     chunks = [chunks]
                 result_node.process_chunks(chunks)
-            result_array = result_node.result
-            if chunk:
-                return biggus._init.Chunk(tuple(slice(None)
-                                                for _ in result_array.shape),
-                                          result_array)
-            return result_array
+            return result_node.result
         if name:
             gather.__name__ = name
         return gather
-- 
2.43.0


From 579a39e89c37ce92550474725fbba42dad3d8330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:02 +0000
Subject: [PATCH 23/35] fix: masked counts can be processed further

---
 biggus/_init.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index 4c8697e..99f0c00 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -2510,7 +2510,7 @@ class _CountMaskedStreamsHandler(_AggregationStreamsHandler):
         self.running_count = np.zeros(processed_chunk_shape, dtype='i')
 
     def finalise(self):
-        chunk = Chunk(self.current_keys, self.running_count)
+        chunk = Chunk(self.current_keys, np.ma.array(self.running_count))
         return chunk
 
     def process_data(self, data):
-- 
2.43.0


From 5a83a5e9d7bd76f01c89a715bb94c742587a3695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:30 +0000
Subject: [PATCH 24/35] fix: evaluate 0-dimensional NewAxesArray as an array

---
 biggus/_init.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index 99f0c00..e293f6e 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -966,11 +966,13 @@ class NewAxesArray(ArrayContainer):
 
     def ndarray(self):
         array = super(NewAxesArray, self).ndarray()
-        return array.__getitem__(self._newaxis_keys())
+        # The ellipsis stops NumPy turning 0-dimensional arrays into scalars.
+        return array.__getitem__(self._newaxis_keys() + (Ellipsis,))
 
     def masked_array(self):
         array = super(NewAxesArray, self).masked_array()
-        return array.__getitem__(self._newaxis_keys())
+        # The ellipsis stops NumPy turning 0-dimensional arrays into scalars.
+        return array.__getitem__(self._newaxis_keys() + (Ellipsis,))
 
 
 @export
-- 
2.43.0


From 5efe5814e48e03b29d83931a78fc4eb617dacc64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:42 +0000
Subject: [PATCH 25/35] fix: keep the data type when indexing an elementwise
 expression

---
 biggus/_init.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/biggus/_init.py b/biggus/_init.py
index e293f6e..bb4b780 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -3228,6 +3228,9 @@ class _Elementwise(ComputedArray):
         else:
             result = _Elementwise(self._array1[keys], self._array2[keys],
                                   self._numpy_op, self._ma_op)
+        # Indexing doesn't change the data type, even where that depended on
+        # one of the operands having been given as a Python number.
+        result._dtype = self.dtype
         return result
 
     def ndarray(self):
-- 
2.43.0


From 1bdf96c76a8f6d4259861e7699a2ab0421c6c48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:54 +0000
Subject: [PATCH 26/35] fix: masked evaluation of fmod

---
 biggus/_init.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index bb4b780..93aec6b 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -3399,7 +3399,7 @@ nextafter = _dual_input_fn_wrapper('np.nextafter', np.nextafter)
 # modf = _unary_fn_wrapper('np.modf', np.modf)  # Needs 2 arrays out.
 ldexp = _dual_input_fn_wrapper('np.ldexp', np.ldexp)
 # frexp = _unary_fn_wrapper('np.frexp', np.frexp)  # Needs 2 arrays out.
-fmod = _dual_input_fn_wrapper('np.fmod', np.fmod)
+fmod = _dual_input_fn_wrapper('np.fmod', np.fmod, np.ma.fmod)
 floor = _ufunc_wrapper(np.floor)
 ceil = _ufunc_wrapper(np.ceil)
 trunc = _ufunc_wrapper(np.trunc)
-- 
2.43.0


From a621ffbff7e81dab9604c33302fd21ff1b8cda06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:38 +0000
Subject: [PATCH 27/35] fix: refuse indices which aren't integers

---
 biggus/_init.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index 93aec6b..dc49219 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -23,6 +23,7 @@ from six.moves import builtins
 import collections
 import functools
 import itertools
+import operator
 import threading
 from six.moves import queue
 import warnings
@@ -54,9 +55,11 @@ def _normalise_index(index, size, axis):
     """
     Return the non-negative equivalent of the given integer index.
 
-    Raises IndexError if the index is out of bounds.
+    Raises IndexError if the index is out of bounds, and TypeError if it
+    isn't an integer.
 
     """
+    index = operator.index(index)
     if not -size <= index < size:
         msg = 'index {0} is out of bounds for axis {1} with size {2}'
         raise IndexError(msg.format(index, axis, size))
@@ -936,10 +939,7 @@ class NewAxesArray(ArrayContainer):
                         broadcast_dict[result_axis] = new_size
                 elif isinstance(key, tuple):
                     for index in key:
-                        if not -1 <= index < 1:
-                            raise IndexError('index {} is out of bounds for '
-                                             'axis {} with size 1'
-                                             ''.format(key, key_index))
+                        _normalise_index(index, 1, key_index)
                     broadcast_dict[result_axis] = len(key)
                 else:
                     raise NotImplementedError('NewAxesArray indexing not yet '
-- 
2.43.0


From 766f66c7d1a429bd921364dfd5fd802844f224f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:01 +0000
Subject: [PATCH 28/35] fix: don't retry an evaluation which raises
 AttributeError

A container (transposed, broadcast, ... array) took an AttributeError raised
while evaluating the contained array for the lack of an ndarray/masked_array
method, and converted the array again in another way, which could lose the
mask.
---
 biggus/_init.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index dc49219..0d4bb38 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -820,20 +820,22 @@ class ArrayContainer(Array):
         return self.array.__getitem__(keys)
 
     def ndarray(self):
-        try:
+        # NB. An AttributeError raised while evaluating isn't to be mistaken
+        # for the contained array not having this method.
+        if hasattr(self.array, 'ndarray'):
             return self.array.ndarray()
-        except AttributeError:
-            return np.array(self.array)
+        return np.array(self.array)
 
     @property
     def __array_priority__(self):
         return self.array.__array_priority__
 
     def masked_array(self):
-        try:
+        # NB. An AttributeError raised while evaluating isn't to be mistaken
+        # for the contained array not having this method.
+        if hasattr(self.array, 'masked_array'):
             return self.array.masked_array()
-        except AttributeError:
-            return np.ma.masked_array(self.array)
+        return np.ma.masked_array(self.array)
 
 
 class NewAxesArray(ArrayContainer):
-- 
2.43.0


From 8126cdb907968586a360cc7b1d873332e7cd671b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:48 +0000
Subject: [PATCH 29/35] fix: lists and other iterables index all kinds of array
 alike

---
 biggus/_init.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index 0d4bb38..1f27d37 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -3455,8 +3455,12 @@ def _full_keys(keys, ndim):
     if not isinstance(keys, tuple):
         keys = (keys,)
 
-    # Make keys mutable, and take a copy.
-    keys = list(keys)
+    # Make keys mutable, and take a copy. The same goes for any lists, and
+    # one-shot iterables such as generators, as a key might have to be used
+    # more than once.
+    keys = [tuple(key) if isinstance(key, collections.Iterable) and
+            not isinstance(key, (tuple, np.ndarray, bytes) + six.string_types)
+            else key for key in keys]
 
     # Count the number of keys which actually slice a dimension.
     n_keys_non_newaxis = len([key for key in keys if key is not np.newaxis])
-- 
2.43.0


From d96d3c7fac6af46895dd8ec676338132fe352977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:09 +0000
Subject: [PATCH 30/35] fix: a boolean is refused as the index of a dimension

---
 biggus/_init.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/biggus/_init.py b/biggus/_init.py
index 1f27d37..99999f9 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -3462,6 +3462,12 @@ def _full_keys(keys, ndim):
             not isinstance(key, (tuple, np.ndarray, bytes) + six.string_types)
             else key for key in keys]
 
+    # Python regards booleans as integers, but they're not indices (and NumPy
+    # gives them another meaning).
+    for key in keys:
+        if isinstance(key, (bool, np.bool_)):
+            raise TypeError('invalid key {!r}'.format(key))
+
     # Count the number of keys which actually slice a dimension.
     n_keys_non_newaxis = len([key for key in keys if key is not np.newaxis])
 
-- 
2.43.0


From e5eb5e56e61cdd1632505282b0006fc3ef0dabbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:40 +0000
Subject: [PATCH 31/35] fix: an item of a stack can't be replaced by an
 incompatible array

---
 biggus/_init.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/biggus/_init.py b/biggus/_init.py
index 99999f9..9e3f6ed 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -1961,6 +1961,8 @@ class ArrayStack(Array):
         for key in keys:
             assert _is_scalar(key)
         assert isinstance(value, Array), type(value)
+        if value.shape != self._item_shape or value.dtype != self._dtype:
+            raise ValueError('invalid sub-array')
         self._stack[keys] = value
 
     def ndarray(self):
-- 
2.43.0


From cddb67ae78fa4e0ee64ba22e4db3136d06de5905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:22 +0000
Subject: [PATCH 32/35] fix: a boolean isn't the position of an item of a stack

---
 biggus/_init.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index 9e3f6ed..bdf955e 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -48,7 +48,8 @@ _KEY_TYPES = _SCALAR_KEY_TYPES + (slice, tuple, np.ndarray)
 
 
 def _is_scalar(key):
-    return isinstance(key, (int, np.integer))
+    # Python regards booleans as integers, but they're not indices.
+    return isinstance(key, (int, np.integer)) and not isinstance(key, bool)
 
 
 def _normalise_index(index, size, axis):
-- 
2.43.0


From f5e145c51c584f5e9f5584e4beabd09f36a852a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:39 +0000
Subject: [PATCH 33/35] fix: batch evaluation keeps the fill value of an array

---
 biggus/_init.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index bdf955e..97eba61 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -362,7 +362,8 @@ class NdarrayNode(ConsumerNode):
 
     def __init__(self, array, masked):
         if masked:
-            self.result = np.ma.empty(array.shape, dtype=array.dtype)
+            self.result = np.ma.empty(array.shape, dtype=array.dtype,
+                                      fill_value=array.fill_value)
         else:
             self.result = np.empty(array.shape, dtype=array.dtype)
         super(NdarrayNode, self).__init__()
-- 
2.43.0


From 148fa7800b0354aa2d5a615d98ab3cff22f7159f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:51 +0000
Subject: [PATCH 34/35] fix: several index vectors keep the fill value of a
 source

---
 biggus/_init.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/biggus/_init.py b/biggus/_init.py
index 97eba61..22b569f 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -1662,8 +1662,12 @@ class NumpyArrayAdapter(_ArrayAdapter):
                 # need to implement `take` or `__array__`.)
                 array = self.concrete[...]
             # ... and then do each tuple in turn.
+            fill_value = getattr(array, 'fill_value', None)
             for i, key in tuple_keys:
                 array = np.take(array, key, axis=dimensions[i])
+            if ma.isMaskedArray(array):
+                # NB. NumPy's `take` doesn't retain the fill value.
+                array.fill_value = fill_value
         else:
             array = self.concrete.__getitem__(keys)
         return array
-- 
2.43.0


From 5718801b6ea53f028746629356df52e2784ebced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:03 +0000
Subject: [PATCH 35/35] fix: views keep the fill value of the array they show

---
 biggus/_init.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index 22b569f..08e839f 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -810,6 +810,13 @@ class ArrayContainer(Array):
     def dtype(self):
         return self.array.dtype
 
+    @property
+    def fill_value(self):
+        fill_value = getattr(self.array, 'fill_value', None)
+        if fill_value is None:
+            fill_value = Array.fill_value.fget(self)
+        return fill_value
+
     @property
     def shape(self):
         return self.array.shape
@@ -1255,7 +1262,8 @@ class BroadcastArray(ArrayContainer):
         if isinstance(mask, np.ndarray):
             mask = self._broadcast_numpy_array(mask, self._broadcast_dict,
                                                self._leading_shape)
-        return np.ma.masked_array(array, mask=mask)
+        return np.ma.masked_array(array, mask=mask,
+                                  fill_value=self.fill_value)
 
 
 class AsDataTypeArray(ArrayContainer):
@@ -1279,6 +1287,10 @@ class AsDataTypeArray(ArrayContainer):
     def dtype(self):
         return self._dtype
 
+    @property
+    def fill_value(self):
+        return Array.fill_value.fget(self)
+
     def __getitem__(self, keys):
         # Apply the indexing to the contained array, then instantly
         # re-apply the astype.
@@ -1309,6 +1321,10 @@ class MaskValueArray(ArrayContainer):
         super(MaskValueArray, self).__init__(array)
         self._mask_value = mask_value
 
+    @property
+    def fill_value(self):
+        return Array.fill_value.fget(self)
+
     def __getitem__(self, keys):
         return type(self)(super(MaskValueArray, self).__getitem__(keys),
                           self._mask_value)
-- 
2.43.0

