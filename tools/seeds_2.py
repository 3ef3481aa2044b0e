I = 'biggus/_init.py'
D = 'biggus/experimental/dask_engine.py'
K = 'biggus/experimental/key_grouper.py'
SEEDS = []


def seed(id, property, needs, breaks, edits, demo):
    SEEDS.append(dict(id=id, property=property, needs=needs, breaks=breaks,
                      edits=[(I,) + e if len(e) == 2 else e for e in edits],
                      demo=demo))


seed('c03-astype-collapse', 'C03',
     'a cast of a cast where the inner one loses information (float to int '
     'to float, or to a narrower type)',
     'the inner cast is skipped',
     [("""        super(AsDataTypeArray, self).__init__(array)
""", """        if type(array) is AsDataTypeArray:
            # Only the final data type matters.
            array = array.array
        super(AsDataTypeArray, self).__init__(array)
""")], '''
import numpy as np, biggus
data = np.array([0.5, 1.75, -2.25])
a = biggus.NumpyArrayAdapter(data)
x = a.astype('i4').astype('f8')
assert (x.ndarray() == data.astype('i4').astype('f8')).all()
assert (x[1:].ndarray() == data.astype('i4').astype('f8')[1:]).all()
''')

seed('c03-transpose-compose', 'C03',
     'a transpose of a transpose with three or more dimensions, the two '
     'permutations not commuting',
     'the permutations are combined in the wrong order',
     [("""        super(TransposedArray, self).__init__(array)
        if axes is None:
            axes = np.arange(array.ndim)[::-1]
""", """        if type(array) is TransposedArray and axes is not None and \\
                sorted(axes) == list(range(array.ndim)):
            # Combine the two permutations.
            axes = [axes[axis] for axis in array.axes]
            array = array.array
        super(TransposedArray, self).__init__(array)
        if axes is None:
            axes = np.arange(array.ndim)[::-1]
""")], '''
import numpy as np, biggus
data = np.arange(24).reshape(2, 3, 4)
a = biggus.NumpyArrayAdapter(data)
x = a.transpose([1, 2, 0]).transpose([1, 0, 2])
y = data.transpose([1, 2, 0]).transpose([1, 0, 2])
assert x.shape == y.shape
assert (x.ndarray() == y).all()
''')

seed('c03-mask-approximate', 'C03',
     'floating point data with values close to, but not equal to, the value '
     'to mask',
     'they are masked too',
     [("""        return np.ma.masked_equal(super(MaskValueArray, self).masked_array(),
                                  self._mask_value)
""", """        array = super(MaskValueArray, self).masked_array()
        if array.dtype.kind == 'f':
            # The floating point version.
            return np.ma.masked_values(array, self._mask_value)
        return np.ma.masked_equal(array, self._mask_value)
""")], '''
import numpy as np, biggus
data = np.array([1.0, 1.000001, 2.0])
m = biggus.masked_equal(biggus.NumpyArrayAdapter(data), 1.0).masked_array()
assert list(np.ma.getmaskarray(m)) == [True, False, False], m
''')

seed('c18-broadcast-same-length', 'C18',
     'a request to broadcast a dimension which already has the requested '
     'length',
     'it is accepted, and the first element is repeated',
     [("""            if shape[axis] != 1:
                raise ValueError('Attempted""",
       """            if shape[axis] not in (1, length):
                raise ValueError('Attempted""")], '''
import numpy as np, biggus
a = biggus.NumpyArrayAdapter(np.arange(3))
try:
    x = biggus.BroadcastArray(a, {0: 3}).ndarray()
except ValueError:
    pass
else:
    raise AssertionError(x)
''')

seed('c18-save-many', 'C18',
     'save() given several sources and as many targets',
     'all but the first are silently ignored',
     [("""    assert len(sources) == 1 and len(targets) == 1
""", """    assert len(sources) == len(targets) and len(targets) >= 1
""")], '''
import numpy as np, biggus
a, b = np.arange(3), np.arange(3) + 5
x, y = np.zeros(3), np.zeros(3)
try:
    biggus.save([biggus.NumpyArrayAdapter(a), biggus.NumpyArrayAdapter(b)],
                [x, y])
except Exception:
    pass
else:
    assert (x == a).all() and (y == b).all(), (x, y)
''')

seed('c09-in-place-operand', 'C09',
     'an intermediate result shared by two elementwise operations in the '
     'same evaluation, and a schedule in which one of them runs before the '
     'other has used it',
     'the first overwrites the operand which it shares with the second',
     [("""        array = self.operator(*[chunk.data for chunk in chunks])
""", """        data = [chunk.data for chunk in chunks]
        out = {}
        first = data[0]
        if isinstance(self.operator, np.ufunc) and len(data) == 2:
            # Avoid allocating memory where we can use that of a
            # temporary array.
            if first.flags.owndata and first.flags.writeable and \\
                    first.dtype.kind == 'f' and \\
                    first.dtype == data[1].dtype:
                out['out'] = first
        array = self.operator(*data, **out)
""")], '''
import numpy as np, biggus
data = np.arange(6.)
n = biggus.NumpyArrayAdapter(data)
for i in range(200):
    t = n + n
    x, y = biggus.ndarrays([t + n, t * n])
    assert (x == data * 3).all(), x
    assert (y == data * 2 * data).all(), y
''')

seed('c09-join-timeout', 'C09',
     'an evaluation which takes more than five seconds',
     'the partly computed result is returned',
     [("""            for thread in result_threads:
                thread.join()
""", """            for thread in result_threads:
                # NB. The timeout allows for keyboard interrupts.
                thread.join(5)
""")], '''
import time
import numpy as np, biggus
class Slow(object):
    dtype = np.dtype('f8')
    shape = (4,)
    ndim = 1
    fill_value = None
    def __getitem__(self, keys):
        time.sleep(6)
        return np.arange(4.)[keys]
a = biggus.NumpyArrayAdapter(Slow())
assert (biggus.max(a + 1., axis=0).ndarray() == 4).all()
x, = biggus.ndarrays([a + 1.])
assert (x == np.arange(4.) + 1).all(), x
''')

seed('c09-read-lock', 'C09',
     'an expression in which the data of one node are themselves the result '
     'of an evaluation, such as a view of an aggregation used as an operand',
     'deadlock: the evaluation holds the lock which its own sources need',
     [("""                if self.masked:
                    data = self.array[key].masked_array()
                else:
                    data = self.array[key].ndarray()
""", """                with self._read_lock:
                    # Not all data sources are thread-safe.
                    if self.masked:
                        data = self.array[key].masked_array()
                    else:
                        data = self.array[key].ndarray()
"""), ("""    def __init__(self, array, iteration_order, masked):
        assert array.ndim == len(iteration_order)
""", """    _read_lock = threading.RLock()

    def __init__(self, array, iteration_order, masked):
        assert array.ndim == len(iteration_order)
""")], '''
import threading
import numpy as np, biggus
data = np.arange(12.).reshape(3, 4)
a = biggus.NumpyArrayAdapter(data)
view = biggus.sum(a, axis=0)[:, np.newaxis]
x = view + view
result = []
t = threading.Thread(target=lambda: result.extend(biggus.ndarrays([x])))
t.daemon = True
t.start()
t.join(20)
assert result, 'no result'
assert (result[0] == 2 * data.sum(axis=0)[:, np.newaxis]).all()
''')

seed('c09-thread-limit', 'C09',
     'an evaluation whose graph has more than twenty nodes',
     'deadlock: the nodes which have been allowed to run wait for others '
     'which have not',
     [("""        thread = threading.Thread(target=self.run, name=str(self))
""", """        def run():
            # Limit the number of active threads.
            with Node._active:
                self.run()

        thread = threading.Thread(target=run, name=str(self))
"""), ("""    def thread(self):
        \"\"\"Start a new daemon""", """    _active = threading.BoundedSemaphore(20)

    def thread(self):
        \"\"\"Start a new daemon""")], '''
import threading
import numpy as np, biggus
data = np.arange(4.)
a = biggus.NumpyArrayAdapter(data)
arrays = [a + float(i) for i in range(30)]
result = []
t = threading.Thread(target=lambda: result.extend(biggus.ndarrays(arrays)))
t.daemon = True
t.start()
t.join(20)
assert result, 'no result'
for i, x in enumerate(result):
    assert (x == data + i).all()
''')

seed('c13-overflow', 'C13',
     'an array of more than 2**63 elements',
     'the number of elements in a piece overflows, so that pieces are far '
     'too large',
     [("""    n_elems = 1
    all_slices = []
""", """    all_slices = []
"""), ("""    for i, size in reversed(list(enumerate(shape))):
        # Check to see if""", """    for i, size in reversed(list(enumerate(shape))):
        n_elems = int(np.product(shape[i + 1:], dtype=int))
        # Check to see if"""),
      ("""        n_elems *= size
        all_slices.insert""", """        all_slices.insert""")], '''
import numpy as np, biggus
from biggus._init import _all_slices_inner
shape = (2, 3, 2 ** 32, 2 ** 32)
slices = _all_slices_inner(shape[:1] + (3,) + (2 ** 20,) * 1)
def largest(shape):
    n = 1
    for size, cuts in zip(shape, _all_slices_inner(shape, True)):
        n *= len(range(*cuts[0].indices(size)))
    return n
assert largest((2, 3, 4)) == 24
biggus._init.MAX_CHUNK_SIZE = 2 ** 61
assert largest((4, 2 ** 31, 2 ** 31)) <= 2 ** 61
assert largest((4, 4, 2 ** 31, 2 ** 31)) <= 2 ** 61
''')

seed('c13-inverse-order', 'C13',
     'an array of three or more dimensions, more than one of which is cut, '
     'aggregated over its first dimension (or twice)',
     'the wrong regions are requested',
     [("""        inverse_order = [iteration_order.index(i) for
                         i in range(len(iteration_order))]
""", """        inverse_order = list(iteration_order)
        if sorted(inverse_order[:-1]) != inverse_order[:-1]:
            inverse_order = [iteration_order.index(i) for
                             i in range(len(iteration_order))]
""")], '''
import numpy as np, biggus
biggus._init.MAX_CHUNK_SIZE = 3
data = np.arange(24.).reshape(2, 3, 4)
a = biggus.NumpyArrayAdapter(data)
for axis in range(3):
    x = biggus.sum(a, axis=axis).ndarray()
    assert (x == data.sum(axis=axis)).all(), axis
''')

seed('c17-loop-bound', 'C17',
     'a dimension cut in more than 999 pieces',
     'the dask engine refuses the array',
     [(K, "        if i > 9999:", "        if i > 999:")], '''
import numpy as np, biggus
from biggus.experimental.dask_engine import DaskEngine
biggus._init.MAX_CHUNK_SIZE = 1
data = np.arange(1200.)
a = biggus.NumpyArrayAdapter(data)
x, = DaskEngine().ndarrays(a + 1)
assert (x == data + 1).all()
''')

seed('c19-cached-handler', 'C19',
     'the same aggregation evaluated by two threads at the same time, or '
     'needed in two different orders within one evaluation',
     'both evaluations accumulate in the same handler',
     [("""        source, = self.sources
        return handler_class(source, self._axis, **self._kwargs)
""", """        handler = self._handlers.get(handler_class, None)
        if handler is None:
            source, = self.sources
            handler = handler_class(source, self._axis, **self._kwargs)
            self._handlers[handler_class] = handler
        # Start afresh.
        handler.current_keys = None
        return handler
"""), ("""        self._dtype = dtype
        self._kwargs = kwargs
""", """        self._dtype = dtype
        self._kwargs = kwargs
        self._handlers = {}
""")], '''
import threading, time
import numpy as np, biggus
biggus._init.MAX_CHUNK_SIZE = 2
class Slow(object):
    dtype = np.dtype('f8')
    shape = (6, 2)
    ndim = 2
    fill_value = None
    def __getitem__(self, keys):
        time.sleep(0.05)
        return np.ones(self.shape)[keys]
x = biggus.sum(biggus.NumpyArrayAdapter(Slow()), axis=0)
results = []
def client():
    results.append(x.ndarray())
threads = [threading.Thread(target=client) for i in range(2)]
for t in threads:
    t.start()
    time.sleep(0.08)
for t in threads:
    t.join()
assert len(results) == 2
for r in results:
    assert (r == 6).all(), r
''')

seed('c10-partial-batch', 'C10',
     'a batch in which one array fails and another does not',
     'None is returned in place of the failed array instead of an exception',
     [("""            if any(result is None for result in results):
""", """            if all(result is None for result in results):
""")], '''
import numpy as np, biggus
class Bad(object):
    dtype = np.dtype('f8')
    shape = (3,)
    ndim = 1
    fill_value = None
    def __getitem__(self, keys):
        raise IOError('bad')
import sys, os
sys.stderr = open(os.devnull, 'w')
good = biggus.NumpyArrayAdapter(np.arange(3.))
bad = biggus.NumpyArrayAdapter(Bad())
try:
    result = biggus.ndarrays([good + 1., bad + 1.])
except Exception:
    pass
else:
    raise AssertionError(result)
''')

seed('c11-sum-partials', 'C11',
     'a sum over a dimension which is cut in many pieces',
     'a partial sum is retained for every piece until the end',
     [("""    def finalise(self):
        array = self.running_total
        # Promote array-scalar to 0-dimensional array.
        if array.ndim == 0:
            array = np.array(array)
""", """    def finalise(self):
        # Add up the pieces pairwise, which is more accurate.
        partials = self.partials
        while len(partials) > 1:
            partials = [builtins.sum(partials[i:i + 2])
                        for i in range(0, len(partials), 2)]
        array = self.running_total
        array += partials[0]
        # Promote array-scalar to 0-dimensional array.
        if array.ndim == 0:
            array = np.array(array)
"""), ("""    def process_data(self, data):
        self.running_total += np.sum(data, axis=self.axis)
""", """    def process_data(self, data):
        self.partials.append(np.sum(data, axis=self.axis))
"""), ("""class _SumStreamsHandler(_AggregationStreamsHandler):
    def bootstrap(self, processed_chunk_shape):
""", """class _SumStreamsHandler(_AggregationStreamsHandler):
    def bootstrap(self, processed_chunk_shape):
        self.partials = []
""")], '''
import gc, weakref
import numpy as np, biggus
biggus._init.MAX_CHUNK_SIZE = 4
live = []
peak = [0]
n = 400
class Part(np.ndarray):
    pass
class Source(object):
    dtype = np.dtype('f8')
    shape = (n, 4)
    ndim = 2
    fill_value = None
    def __getitem__(self, keys):
        size = len(range(*keys[0].indices(n)))
        for i in range(3):
            gc.collect()
        peak[0] = max(peak[0], sum(r() is not None for r in live))
        part = np.ones((size, 4)).view(Part)
        live.append(weakref.ref(part))
        return part
class Summed(Part):
    pass
real = np.sum
def tracked(*args, **kwargs):
    result = real(*args, **kwargs)
    if isinstance(result, np.ndarray):
        result = result.view(Summed)
        live.append(weakref.ref(result))
    return result
biggus._init.np.sum = tracked
x = biggus.sum(biggus.NumpyArrayAdapter(Source()), axis=0).ndarray()
biggus._init.np.sum = real
assert (x == n).all()
assert peak[0] < 60, peak
''')

seed('c11-grow-when-slow', 'C11',
     'a source which is read faster than its data are processed',
     'the queue between them grows without limit',
     [("""        if chunk is not None:
            for queue in self.output_queues:
                queue.put(chunk)
""", """        if chunk is not None:
            for output_queue in self.output_queues:
                try:
                    output_queue.put(chunk, timeout=0.05)
                except queue.Full:
                    # Don't hold up the other consumers.
                    output_queue.maxsize += 1
                    output_queue.put(chunk)
""")], '''
import time
import numpy as np, biggus
biggus._init.MAX_CHUNK_SIZE = 1
reads = []
most = [0]
n = 40
class Source(object):
    dtype = np.dtype('f8')
    shape = (n,)
    ndim = 1
    fill_value = None
    def __getitem__(self, keys):
        reads.append(keys)
        return np.ones(n)[keys]
done = [0]
def slow(x):
    if x.size and len(reads):
        time.sleep(0.3)
        done[0] += 1
        most[0] = max(most[0], len(reads) - done[0])
    return x + 1
a = biggus.NumpyArrayAdapter(Source())
x = biggus._init._Elementwise(a, None, slow, slow).ndarray() \\
    if False else None
e = biggus._init._Elementwise(a, None, slow, slow)
x, = biggus.ndarrays([e])
assert (x == 2).all()
assert most[0] <= 8, most
''')

seed('c12-mask-twice', 'C12',
     'the masked evaluation of masked_equal() over any source',
     'the source is read twice',
     [("""        return np.ma.masked_equal(super(MaskValueArray, self).masked_array(),
                                  self._mask_value)
""", """        array = super(MaskValueArray, self).masked_array()
        # Compare the unmasked data, for the sake of masked values.
        matches = super(MaskValueArray, self).ndarray() == self._mask_value
        array = np.ma.array(array, copy=True, fill_value=self._mask_value)
        array[matches & ~np.ma.getmaskarray(array)] = np.ma.masked
        return array
""")], '''
import numpy as np, biggus
reads = []
class Source(object):
    dtype = np.dtype('f8')
    shape = (3,)
    ndim = 1
    fill_value = None
    def __getitem__(self, keys):
        reads.append(keys)
        return np.arange(3.)[keys]
a = biggus.masked_equal(biggus.NumpyArrayAdapter(Source()), 1)
m = a.masked_array()
assert list(np.ma.getmaskarray(m)) == [False, True, False]
assert len(reads) == 1, reads
''')

seed('c20-fill-close', 'C20',
     'a mosaic of tiles whose fill values are almost the same',
     'the mosaic claims the fill value of the first tile for all of them',
     [("""                return array.fill_value == common_fill_value or (
                    np.isnan(common_fill_value) and np.isnan(array.fill_value))
""", """                return np.isclose(array.fill_value, common_fill_value,
                                  equal_nan=True)
""")], '''
import numpy as np, biggus
def tile(fill_value):
    return biggus.NumpyArrayAdapter(np.ma.array([1., 2.], mask=[0, 1],
                                                fill_value=fill_value))
m = biggus.LinearMosaic([tile(1000.), tile(1000.)], 0)
assert m.fill_value == 1000
m = biggus.LinearMosaic([tile(1000.), tile(1000.001)], 0)
assert m.fill_value == 1e20, m.fill_value
''')

seed('c16-stack-view', 'C16',
     'indexing a stack with slices only',
     'the arrays of the stack are replaced by their indexed equivalents',
     [("""            stack = np.array(stack)
            for index in""", """            stack = np.require(stack, dtype='O', requirements='A')
            for index in""")], '''
import numpy as np, biggus
data = np.arange(24).reshape(2, 3, 4)
s = biggus.ArrayStack(np.array([biggus.NumpyArrayAdapter(d) for d in data],
                               dtype=object))
assert (s[:, 1:].ndarray() == data[:, 1:]).all()
assert (s.ndarray() == data).all()
''')

seed('c06-mdtol-rounding', 'C06',
     'a fraction of missing data exactly equal to mdtol, such as 3 of 10 '
     'with a tolerance of 0.3',
     'the element is masked because of a rounding error',
     [("""            mask_update = np.true_divide(self.running_masked_count,
                                         self.running_masked_count +
                                         self.running_count) > self._mdtol
""", """            total = self.running_masked_count + self.running_count
            mask_update = 1 - self.running_count / total > self._mdtol
""")], '''
import numpy as np, biggus
for n in range(1, 21):
    for k in range(n):
        data = np.ma.array(np.arange(n) + 1., mask=np.arange(n) < k)
        a = biggus.NumpyArrayAdapter(data)
        m = biggus.mean(a, axis=0, mdtol=k / n).masked_array()
        assert not np.ma.getmaskarray(m), (k, n)
''')

seed('c07-scalar-axis', 'C07',
     'a scalar key for a dimension after the aggregated one',
     'the wrong dimension of what remains is aggregated',
     [("""        scalar_axes = map(_is_scalar, keys[:self._axis])
        result_axis = self._axis - builtins.sum(scalar_axes)
""", """        scalar_axes = map(_is_scalar, keys)
        result_axis = builtins.max(
            self._axis - builtins.sum(scalar_axes), 0)
""")], '''
import numpy as np, biggus
data = np.arange(24.).reshape(2, 3, 4)
m = biggus.mean(biggus.NumpyArrayAdapter(data), axis=1)
y = data.mean(axis=1)
for key in ((0,), (slice(None), 1), (1, slice(None)), (slice(1, 2), 2)):
    assert m[key].shape == y[key].shape, key
    assert (m[key].ndarray() == y[key]).all(), key
''')

seed('c05-count-piece', 'C05',
     'a count along a dimension which is cut into pieces of unequal sizes',
     'all the pieces are taken to have the size of the first',
     [("""    def process_data(self, data):
        self.running_count += data.shape[self.axis]
""", """    def process_data(self, data):
        if not self.running_count:
            self.piece = data.shape[self.axis]
        self.running_count += self.piece
""")], '''
import numpy as np, biggus
biggus._init.MAX_CHUNK_SIZE = 4
for n in (3, 4, 5, 8, 11):
    a = biggus.NumpyArrayAdapter(np.zeros(n))
    assert biggus.count(a, axis=0).ndarray() == n, n
''')

seed('c17-order-of-sources', 'C17',
     'a non-commutative operation between an array and itself viewed '
     'differently, under the dask engine',
     'chunks of different sources are identified by shape and position '
     'alone',
     [(D, """    result = '{}array {}\\n\\n(id: {})'.format('[masked]' if masked else '',
                                             array.shape, id(array))
""", """    # Containers are identified by what they contain.
    array_id = id(getattr(array, 'concrete', array))
    result = '{}array {}\\n\\n(id: {})'.format('[masked]' if masked else '',
                                             array.shape, array_id)
""")], '''
import numpy as np, biggus
from biggus.experimental.dask_engine import DaskEngine
data = np.arange(6.)
a = biggus.NumpyArrayAdapter(data)
x, = DaskEngine().ndarrays(a - a)
assert (x == 0).all()
x, = DaskEngine().ndarrays(a[1:] - a[:-1])
assert (x == 1).all(), x
''')

seed('c14-writer-thread', 'C14',
     'a target which takes more than two seconds to write the last piece',
     'save() returns before the last piece has been written',
     [("""        if masked:
            target[keys] = array[keys].masked_array()
        else:
            target[keys] = array[keys].ndarray()
""", """        if masked:
            data = array[keys].masked_array()
        else:
            data = array[keys].ndarray()
        # Write this piece while the next one is being evaluated.
        if writer is not None:
            writer.join()
        writer = threading.Thread(target=target.__setitem__,
                                  args=(keys, data))
        writer.start()
    if writer is not None:
        writer.join(2)
"""), ("""    all_slices = _all_slices(array)
    for index""", """    all_slices = _all_slices(array)
    writer = None
    for index""")], '''
import time
import numpy as np, biggus
biggus._init.MAX_CHUNK_SIZE = 2
class Target(object):
    def __init__(self):
        self.data = np.zeros(6)
    def __setitem__(self, keys, value):
        time.sleep(3)
        self.data[keys] = value
target = Target()
data = np.arange(6.) + 1
biggus.save([biggus.NumpyArrayAdapter(data)], [target])
assert (target.data == data).all(), target.data
''')

seed('c14-writer-error', 'C14',
     'a target which fails to write a piece',
     'save() reports success although the piece has not been written',
     [("""        if masked:
            target[keys] = array[keys].masked_array()
        else:
            target[keys] = array[keys].ndarray()
""", """        if masked:
            data = array[keys].masked_array()
        else:
            data = array[keys].ndarray()
        # Write this piece while the next one is being evaluated.
        if writer is not None:
            writer.join()
        writer = threading.Thread(target=target.__setitem__,
                                  args=(keys, data))
        writer.start()
    if writer is not None:
        writer.join()
"""), ("""    all_slices = _all_slices(array)
    for index""", """    all_slices = _all_slices(array)
    writer = None
    for index""")], '''
import os, sys
import numpy as np, biggus
sys.stderr = open(os.devnull, 'w')
biggus._init.MAX_CHUNK_SIZE = 2
class Target(object):
    def __setitem__(self, keys, value):
        raise IOError('disk full')
target = Target()
data = np.arange(6.) + 1
try:
    biggus.save([biggus.NumpyArrayAdapter(data)], [target])
except Exception:
    pass
else:
    raise AssertionError('no error')
''')

seed('c16-masked-zero', 'C16',
     'the masked sum of an array in memory',
     'the values beneath the mask of the source are replaced by zero',
     [("""        self.running_total += np.sum(data.filled(0), axis=self.axis)
""", """        # Masked values mustn't contribute.
        mask = ma.getmaskarray(data)
        if mask.any():
            values = data.data if data.flags.writeable else data.filled(0)
            values[mask] = 0
        else:
            values = data.data
        self.running_total += np.sum(values, axis=self.axis)
""")], '''
import numpy as np, biggus
data = np.ma.array(np.arange(12.).reshape(4, 3), mask=np.eye(4, 3))
copy = data.data.copy()
s = biggus.sum(biggus.NumpyArrayAdapter(data), axis=0).masked_array()
assert (s == data.sum(axis=0)).all()
assert (data.data == copy).all(), data.data
''')

seed('c02-group-sorted', 'C02',
     'a vector of indices along the axis of a mosaic which returns to a '
     'tile after visiting another',
     'the elements come in the wrong order',
     [("""                pairs = zip(all_axis_indices, tile_indices)
""", """                pairs = list(zip(all_axis_indices, tile_indices))
                if len(set(tile_indices)) > 2:
                    # Deal with all the indices for a given tile at once.
                    tiles_used = list(tile_indices)
                    pairs.sort(key=lambda pair: tiles_used.index(pair[1]))
""")], '''
import numpy as np, biggus
data = np.arange(9)
m = biggus.LinearMosaic([biggus.NumpyArrayAdapter(data[:3]),
                         biggus.NumpyArrayAdapter(data[3:6]),
                         biggus.NumpyArrayAdapter(data[6:])], 0)
for key in ((0, 5, 1), (0, 4, 7), (8, 7, 4, 0), (0, 7, 4, 1)):
    x = m[np.array(key)].ndarray()
    assert x.tolist() == list(key), (key, x)
''')

seed('c12-str-scalar', 'C12',
     'printing a zero-dimensional array',
     'the array is evaluated',
     [("""        fmt = '<Array shape=({}) dtype={!r} size={}>'
        return""", """        fmt = '<Array shape=({}) dtype={!r} size={}>'
        if not self.shape and not self.dtype.hasobject:
            # A single value is short enough to include.
            fmt = fmt[:-1] + ' value={}>'.format(self.ndarray())
        return""")], '''
import numpy as np, biggus
reads = []
class Source(object):
    dtype = np.dtype('f8')
    shape = (3,)
    ndim = 1
    fill_value = None
    def __getitem__(self, keys):
        reads.append(keys)
        return np.arange(3.)[keys]
a = biggus.NumpyArrayAdapter(Source())
str(a), repr(a), str(a[1]), repr(a[1]), str(biggus.sum(a, axis=0))
assert not reads, reads
''')

seed('c12-split-groups', 'C12',
     'a batch of more than eight arrays which share a source',
     'the source is read once for every eight arrays',
     [("""        return [self.Group(arrays, list(range(len(arrays))))]
""", """        # Limit the number of threads.
        return [self.Group(arrays[i:i + 8],
                           list(range(i, builtins.min(i + 8, len(arrays)))))
                for i in range(0, len(arrays), 8)]
""")], '''
import numpy as np, biggus
reads = []
class Source(object):
    dtype = np.dtype('f8')
    shape = (3,)
    ndim = 1
    fill_value = None
    def __getitem__(self, keys):
        reads.append(keys)
        return np.arange(3.)[keys]
a = biggus.NumpyArrayAdapter(Source())
results = biggus.ndarrays([a + float(i) for i in range(12)])
for i, x in enumerate(results):
    assert (x == np.arange(3.) + i).all()
assert len(reads) == 1, reads
''')

seed('c03-broadcast-step', 'C03',
     'a slice of a broadcast dimension with a step which does not divide '
     'its length',
     'the length is rounded down',
     [("""                    # TODO: Compute this without creating a range object.
                    size = len(range(*key.indices(existing_size)))
""", """                    start, stop, step = key.indices(existing_size)
                    size = builtins.max((stop - start) // step, 0)
""")], '''
import numpy as np, biggus
a = biggus.BroadcastArray(biggus.NumpyArrayAdapter(np.zeros((1, 2))), {0: 10})
y = np.zeros((10, 2))
for key in (slice(None), slice(2, 8), slice(0, 10, 2), slice(0, 10, 3),
            slice(None, None, -1), slice(8, 1, -2)):
    assert a[key].shape == y[key].shape, (key, a[key].shape)
    assert a[key].ndarray().shape == y[key].shape, key
''')

seed('c01-take-mask', 'C01',
     'two vector keys (or one and a scalar) applied to masked data',
     'the mask is lost',
     [("""                array = np.take(array, key, axis=dimensions[i])
""", """                array = np.asarray(array).take(key, axis=dimensions[i])
""")], '''
import numpy as np, biggus
data = np.ma.array(np.arange(6).reshape(2, 3), mask=[[0, 1, 0], [1, 0, 0]])
m = biggus.NumpyArrayAdapter(data)[(0, 1), (1, 2)].masked_array()
y = data[[0, 1]][:, [1, 2]]
assert (np.ma.getmaskarray(m) == np.ma.getmaskarray(y)).all()
assert (m.filled(-1) == y.filled(-1)).all()
''')

seed('c04-pow-square', 'C04',
     'an array of booleans or of masked values raised to the power of two',
     'the data type or the mask differs from that of a power',
     [("""        try:
            return power(self, other)
""", """        try:
            if type(other) is int and other == 1:
                # There is nothing to compute.
                return self
            return power(self, other)
""")], '''
import numpy as np, biggus
for dtype in ('f8', 'i4', '?', 'f4'):
    data = np.array([0, 1, 1], dtype=dtype)
    x = biggus.NumpyArrayAdapter(data) ** 1
    y = data ** 1
    assert x.dtype == y.dtype, (dtype, x.dtype, y.dtype)
    assert x.ndarray().dtype == y.dtype
    assert (x.ndarray() == y).all()
''')
