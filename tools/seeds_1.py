I = 'biggus/_init.py'
D = 'biggus/experimental/dask_engine.py'
K = 'biggus/experimental/key_grouper.py'
SEEDS = []


def seed(id, property, needs, breaks, edits, demo):
    SEEDS.append(dict(id=id, property=property, needs=needs, breaks=breaks,
                      edits=[(I,) + e if len(e) == 2 else e for e in edits],
                      demo=demo))


seed('c01-compose-slices', 'C01',
     'a slice key applied to an already sliced axis, the second one reversed '
     'and reaching the beginning of the source axis',
     'the composed slice gets a stop of -1, which means something else',
     [("""                indices = tuple(range(start, stop, stride))
                new_key = new_keys.pop(0)
                result_key = self._remap_new_key(indices, new_key, axis)
""", """                indices = range(start, stop, stride)
                new_key = new_keys.pop(0)
                if isinstance(new_key, slice):
                    # The combination of two slices is a slice, which saves
                    # enumerating the indices of a long dimension.
                    sub = indices[new_key]
                    result_key = slice(sub.start, sub.stop, sub.step)
                else:
                    result_key = self._remap_new_key(tuple(indices), new_key,
                                                     axis)
""")], '''
import numpy as np, biggus
data = np.arange(10)
a = biggus.NumpyArrayAdapter(data)
for first in (slice(None), slice(0, 7), slice(2, 9, 2)):
    for second in (slice(None, None, -1), slice(1, None), slice(3, 0, -1)):
        x = a[first][second]
        y = data[first][second]
        assert x.shape == y.shape, (first, second, x.shape)
        assert (x.ndarray() == y).all()
''')

seed('c02-whole-tile', 'C02',
     'an index of a mosaic axis which selects as many elements of a tile as '
     'it has, but not in their order (reversed, permuted, repeated)',
     'the tile is passed through unindexed',
     [("""                    if len(axis_indices) == 1:
                        # Even if""", """                    if len(axis_indices) == tile.shape[axis]:
                        # The whole of this tile is needed, so there's no
                        # need to index it.
                        tile_slice[axis] = slice(None)
                    elif len(axis_indices) == 1:
                        # Even if""")], '''
import numpy as np, biggus
a, b = np.arange(6).reshape(3, 2), np.arange(6, 14).reshape(4, 2)
whole = np.concatenate([a, b])
m = biggus.LinearMosaic([biggus.NumpyArrayAdapter(a),
                         biggus.NumpyArrayAdapter(b)], 0)
for key in (slice(None), slice(1, 5), slice(None, None, -1)):
    assert (m[key].ndarray() == whole[key]).all(), key
assert (m[(2, 0, 1, 4), :].ndarray() == whole[[2, 0, 1, 4]]).all()
''')

seed('c02-stack-f-order', 'C02',
     'a Fortran-ordered stack of at least three dimensions with different '
     'extents',
     'the items are dealt into the wrong positions',
     [("""                if length == len(array_before_subdivide):
                    slc = [slice(None)]
                else:
                    slc = [slice(i, None, num) for i in range(num)]
""", """                if length == len(array_before_subdivide):
                    slc = [slice(None)]
                else:
                    stride = (num if array_before_subdivide is arrays
                              else shape[0])
                    slc = [slice(i, None, stride) for i in range(stride)]
""")], '''
import numpy as np, biggus
for shape in ((2, 3), (2, 2, 2), (2, 3, 4), (3, 2, 2)):
    n = int(np.prod(shape))
    arrays = np.array([biggus.ConstantArray((2,), i) for i in range(n)],
                      dtype='O')
    s = biggus.ArrayStack.multidim_array_stack(arrays, shape, order='F')
    assert s.shape == shape + (2,), (shape, s.shape)
    want = np.arange(n).reshape(shape, order='F')
    assert (s.ndarray()[..., 0] == want).all(), shape
''')

seed('c03-transpose-scalars', 'C03',
     'two integers indexing a transposed array of three or more dimensions, '
     'in an order different from that of the underlying axes',
     'the remaining axes are renumbered wrongly',
     [("""                new_transpose_order = [axis - 1 if axis >= scalar_axis else axis
                                   for""".replace('                new', '            new'), """            new_transpose_order = [axis - 1 if axis > scalar_axis else axis
                                   for"""),
      ("""            scalar_axis = new_scalar_axes.pop()
""", """            scalar_axis = new_scalar_axes.pop(0)
""")], '''
import itertools
import numpy as np, biggus
data = np.arange(120).reshape(2, 3, 4, 5)
a = biggus.NumpyArrayAdapter(data)
for axes in itertools.permutations(range(4)):
    t, want = a.transpose(axes), data.transpose(axes)
    for key in itertools.product((slice(None), 1), repeat=4):
        x = t[key]
        assert x.shape == want[key].shape, (axes, key)
        assert (x.ndarray() == want[key]).all(), (axes, key)
''')

seed('c03-rebroadcast', 'C03',
     'an array already broadcast along one axis being broadcast along '
     'another, by an elementwise operation with leading dimensions',
     'the new leading dimensions are put behind the existing ones',
     [("""            leading_shape = tuple(leading_shape) + array._leading_shape
            array = array.array
            new_broadcast""", """            leading_shape = array._leading_shape + tuple(leading_shape)
            array = array.array
            new_broadcast""")], '''
import numpy as np, biggus
base = np.arange(3).reshape(1, 3)
for first, second in (((), (2,)), ((4,), ()), ((4,), (2,)), ((2,), (5, 3))):
    x = biggus.BroadcastArray(base, {}, first)
    y = biggus.BroadcastArray(x, {0: 2}, second)
    want = np.broadcast_to(base, second + first + (2, 3))
    assert y.shape == want.shape, (first, second, y.shape)
    assert (y.ndarray() == want).all()
''')

seed('c04-empty-broadcast', 'C04',
     'a dimension of length one combined with a dimension of length zero',
     'the dimension of length one is not broadcast to nothing',
     [("""            if full != s1:
""", """            if full > s1:
"""), ("""            if full != s2:
""", """            if full > s2:
""")], '''
import itertools
import numpy as np, biggus
for s1, s2 in itertools.product([(1,), (3,), (0,), (2, 1), (0, 3), (1, 1),
                                 (2, 0)], repeat=2):
    x, y = np.ones(s1), np.ones(s2)
    try:
        want = x + y
    except ValueError:
        continue
    z = biggus.NumpyArrayAdapter(x) + biggus.NumpyArrayAdapter(y)
    assert z.shape == want.shape, (s1, s2, z.shape, want.shape)
    assert z.ndarray().shape == want.shape
''')

seed('c04-masked-operator', 'C04',
     'masked evaluation of an elementwise operation as part of a streamed '
     'evaluation (not directly)',
     'the plain function is used for masked pieces: invalid results (such as '
     'the square root of a negative number) are not masked',
     [("""            operator = self._ma_op
""", """            operator = self._numpy_op
""")], '''
import numpy as np, biggus
data = np.ma.masked_array([[4., -1, 9], [1, 0, 16]],
                          mask=[[0, 0, 1], [0, 0, 0]])
a = biggus.NumpyArrayAdapter(data)
x = biggus.sqrt(a)
want = np.ma.sqrt(data)
for got in (x.masked_array(), biggus.masked_arrays([x])[0]):
    assert (np.ma.getmaskarray(got) == np.ma.getmaskarray(want)).all()
    assert (got == want).all()
y = biggus.sum(x, axis=0).masked_array()
assert (y == want.sum(axis=0)).all() and y.count() == 3, y
''')

seed('c05-count-accumulates', 'C05',
     'an array cut along a dimension other than the aggregated one',
     'the count of the second and later output pieces includes the earlier '
     'ones',
     [("""        self.current_shape = processed_chunk_shape
        self.running_count = 0
""", """        self.current_shape = processed_chunk_shape
"""), ("""class _CountStreamsHandler(_AggregationStreamsHandler):
""", """class _CountStreamsHandler(_AggregationStreamsHandler):
    running_count = 0

""")], '''
import numpy as np, biggus
a = biggus.NumpyArrayAdapter(np.ones((4, 6, 5)))
for limit in (1000, 30, 10, 5, 2):
    biggus._init.MAX_CHUNK_SIZE = limit
    for axis in range(3):
        x = biggus.count(a, axis=axis).ndarray()
        assert (x == a.shape[axis]).all(), (limit, axis, x)
''')

seed('c05-std-restart', 'C05',
     'an aggregated axis which is cut into pieces, of a source whose values '
     'differ from piece to piece',
     'the deviation is measured from the first value of each piece',
     [("""            self.a = data[0]
            data = data[1:]
""", """            self.a = data[0]
            data = data[1:]
        elif self.k < self.ddof:
            # There's nothing to be had from so few values, so start again.
            self.a = data[0]
""")], '''
import numpy as np, biggus
rs = np.random.RandomState(0)
data = rs.rand(6, 4) * np.arange(1, 7)[:, None]
a = biggus.NumpyArrayAdapter(data)
for limit in (1000, 8, 4, 2, 1):
    biggus._init.MAX_CHUNK_SIZE = limit
    for ddof in (0, 1, 2, 3):
        x = biggus.std(a, axis=0, ddof=ddof).ndarray()
        assert np.allclose(x, data.std(axis=0, ddof=ddof)), (limit, ddof)
''')

seed('c06-masked-count', 'C06',
     'mdtol strictly between 0 and 1 and an aggregated axis cut into pieces '
     'which miss different amounts of data',
     'only the missing data of the last piece counts towards the tolerance',
     [("""        self.running_masked_count += np.ma.count_masked(data, axis=self.axis)
""", """        self.running_masked_count = np.ma.count_masked(data, axis=self.axis)
""")], '''
import numpy as np, biggus
data = np.ma.masked_array(np.arange(12.).reshape(4, 3),
                          mask=[[1, 0, 1], [1, 0, 0], [0, 0, 0], [0, 1, 1]])
a = biggus.NumpyArrayAdapter(data)
for limit in (1000, 6, 3, 1):
    biggus._init.MAX_CHUNK_SIZE = limit
    for mdtol in (0, 0.2, 0.25, 0.4, 0.5, 1):
        x = biggus.mean(a, axis=0, mdtol=mdtol).masked_array()
        want = np.ma.getmaskarray(data).mean(axis=0) > mdtol
        assert (np.ma.getmaskarray(x) == want).all(), (limit, mdtol, x)
''')

seed('c07-order', 'C07',
     'an aggregation of an aggregation, over an axis before the first one\'s',
     'the pieces of the inner source arrive in an order for which the inner '
     'aggregation emits the same output piece more than once',
     [("""        order = [i if i < self.axis else i + 1 for i in iteration_order]
        order.append(self.axis)
        return order
""", """        order = [i if i < self.axis else i + 1 for i in iteration_order]
        # Finish with the aggregated axis, unless that'd jump backwards.
        position = len(order) if self.axis else 1
        order.insert(position, self.axis)
        return order
""")], '''
import itertools
import numpy as np, biggus
data = np.random.RandomState(1).rand(3, 4, 5)
a = biggus.NumpyArrayAdapter(data)
for limit in (1000, 20, 5, 2, 1):
    biggus._init.MAX_CHUNK_SIZE = limit
    for i, j in itertools.product(range(3), range(2)):
        x = biggus.max(biggus.mean(a, axis=i), axis=j).ndarray()
        assert np.allclose(x, data.mean(axis=i).max(axis=j)), (limit, i, j)
        y = biggus.mean(a, axis=i).ndarray()
        assert np.allclose(y, data.mean(axis=i)), (limit, i)
''')

seed('c08-group-indices', 'C08',
     'a batch which contains the same array more than once, next to others',
     'results are handed back at the wrong positions of the batch',
     [("""        return [self.Group(arrays, list(range(len(arrays))))]
""", """        unique = {id(array): i for i, array in enumerate(arrays)}
        indices = sorted(unique.values())
        return [self.Group([arrays[i] for i in indices],
                           list(range(len(indices))))]
"""), ("""                all_results[i] = ndarray
        return all_results
""", """                all_results[i] = ndarray
        # Repeat the results of those arrays which were repeated.
        n_results = len([r for r in all_results if r is not None])
        for i in range(n_results, len(arrays)):
            ids = [id(array) for array in arrays]
            all_results[i] = all_results[ids.index(id(arrays[i]))]
        return all_results
""")], '''
import itertools
import numpy as np, biggus
a = biggus.NumpyArrayAdapter(np.arange(4.))
xs = [a, a + 1, a * 2]
for batch in itertools.product(range(3), repeat=3):
    got = biggus.ndarrays([xs[i] for i in batch])
    for i, g in zip(batch, got):
        assert (g == xs[i].ndarray()).all(), batch
''')

seed('c09-reused-buffer', 'C09',
     'a producer which gets ahead of its consumer by a piece or more',
     'pieces which are still waiting to be processed are overwritten',
     [("""                else:
                    data = self.array[key].ndarray()
                output_chunk = Chunk(key, data)
""", """                else:
                    data = self.array[key].ndarray()
                    # Keep re-using the same memory for the pieces.
                    if buffer is None or buffer.shape != data.shape:
                        buffer = np.empty_like(data)
                    buffer[...] = data
                    data = buffer
                output_chunk = Chunk(key, data)
"""), ("""            chunk_index = self.chunk_index_gen(self.array.shape,
                                               self.iteration_order)
            for""", """            chunk_index = self.chunk_index_gen(self.array.shape,
                                               self.iteration_order)
            buffer = None
            for""")], '''
import threading, time
import numpy as np, biggus
biggus._init.MAX_CHUNK_SIZE = 2
data = np.arange(24.).reshape(12, 2)
first = threading.Event()
def slow(x):
    if x.ndim == 2 and not first.is_set():
        first.set()
        time.sleep(1)
    return np.negative(x)
a = biggus.NumpyArrayAdapter(data)
x = biggus._init._Elementwise(a, None, slow)
first.clear()
got, = biggus.ndarrays([x])
assert (got == -data).all(), got
''')

seed('c10-base-exception', 'C10',
     'a source which raises something not derived from Exception (such as '
     'KeyboardInterrupt)',
     'the consumers are never told, and the evaluation hangs',
     [("""                output_chunk = Chunk(key, data)
                self.output(output_chunk)
        except:
            self.abort()
""", """                output_chunk = Chunk(key, data)
                self.output(output_chunk)
        except Exception:
            self.abort()
""")], '''
import os, threading
import numpy as np, biggus
class Source(object):
    shape, dtype, ndim = (4, 2), np.dtype('f8'), 2
    def __init__(self, exc): self.exc = exc
    def __getitem__(self, keys):
        raise self.exc('no such data')
threading.excepthook = lambda args: None
for exc in (ValueError, KeyboardInterrupt, SystemExit):
    x = biggus.NumpyArrayAdapter(Source(exc)) + 1
    outcome = []
    def go():
        try:
            biggus.ndarrays([x])
        except BaseException:
            outcome.append('raised')
        else:
            outcome.append('returned')
    t = threading.Thread(target=go)
    t.daemon = True
    t.start()
    t.join(20)
    if outcome != ['raised']:
        print(exc, outcome)
        os._exit(1)
os._exit(0)
''')

seed('c10-abort-fanout', 'C10',
     'a failing source which is shared by several members of a batch',
     'the members after the first wait for ever',
     [("""        for queue in self.output_queues:
            queue.put(QUEUE_ABORT)
""", """        for queue in self.output_queues[:1]:
            queue.put(QUEUE_ABORT)
""")], '''
import os, threading
import numpy as np, biggus
class Source(object):
    shape, dtype, ndim = (4, 2), np.dtype('f8'), 2
    def __getitem__(self, keys):
        raise ValueError('no such data')
threading.excepthook = lambda args: None
a = biggus.NumpyArrayAdapter(Source())
outcome = []
def go():
    try:
        biggus.ndarrays([a + 1, biggus.mean(a, axis=0)])
    except BaseException:
        outcome.append('raised')
    else:
        outcome.append('returned')
t = threading.Thread(target=go)
t.daemon = True
t.start()
t.join(20)
if outcome != ['raised']:
    print(outcome)
    os._exit(1)
os._exit(0)
''')

seed('c11-unbounded-joins', 'C11',
     'an operation with two inputs (or more) one of which is slow',
     'the queue between the faster input and the operation has no limit',
     [("""        self.input_queues = [queue.Queue(maxsize=3) for _ in input_nodes]
""", """        # Inputs which are needed together mustn't hold up each other.
        maxsize = 3 if len(input_nodes) == 1 else 0
        self.input_queues = [queue.Queue(maxsize) for _ in input_nodes]
""")], '''
import os, threading, time
import numpy as np, biggus
biggus._init.MAX_CHUNK_SIZE = 1
class Source(object):
    dtype, ndim = np.dtype('f8'), 1
    def __init__(self, n, gate=None):
        self.shape, self.gate, self.n = (n,), gate, 0
    def __getitem__(self, keys):
        self.n += 1
        if self.gate:
            self.gate.wait()
        return np.zeros(self.shape)[keys]
gate = threading.Event()
fast, slow = Source(60), Source(60, gate)
x = biggus.NumpyArrayAdapter(fast) + biggus.NumpyArrayAdapter(slow)
t = threading.Thread(target=lambda: biggus.ndarrays([x]))
t.daemon = True
t.start()
time.sleep(2)
n = fast.n
gate.set()
t.join(20)
print(n)
os._exit(0 if n < 15 else 1)
''')

seed('c12-eager-dtype', 'C12',
     'an elementwise operation on a 0-dimensional wrapped source',
     'the source is read while the expression is built',
     [("""                dtype = numpy_op(np.array([1], dtype=array1.dtype)).dtype
""", """                example = np.array([1], dtype=array1.dtype)
                if array1.shape == ():
                    # The data is small enough to be used as the example.
                    example[0] = array1.ndarray()
                dtype = numpy_op(example).dtype
""")], '''
import numpy as np, biggus
class Source(object):
    dtype, ndim, shape = np.dtype('f8'), 2, (3, 4)
    reads = 0
    def __getitem__(self, keys):
        Source.reads += 1
        return np.ones(self.shape)[keys]
a = biggus.NumpyArrayAdapter(Source())
for x in (a, a[0], a[0, 1]):
    y = biggus.exp(x)
    str(y), y.shape, y.dtype, y[..., None]
    assert Source.reads == 0, x
    assert np.allclose(y.ndarray(), np.e)
    Source.reads = 0
''')

seed('c13-last-piece', 'C13',
     'a dimension whose extent is not a multiple of the number of its '
     'elements which fit into a piece',
     'the last piece of such a dimension exceeds the limit',
     [("""            for start in range(0, size, step):
                slices.append(slice(start, np.min([start + step, size])))
""", """            # Leave any remainder to the last chunk, so there's no tiny one.
            n_slices = size // step
            for i_slice in range(n_slices):
                stop = (i_slice + 1) * step
                if i_slice == n_slices - 1 and size - stop <= step // 4:
                    stop = size
                slices.append(slice(i_slice * step, stop))
            if slices[-1].stop < size:
                slices.append(slice(slices[-1].stop, size))
""")], '''
import numpy as np, biggus
class Source(object):
    dtype, ndim = np.dtype('f8'), 1
    def __init__(self, n): self.shape, self.sizes = (n,), []
    def __getitem__(self, keys):
        result = np.zeros(self.shape)[keys]
        self.sizes.append(result.size)
        return result
for limit in (1, 2, 3, 4, 5, 8, 10):
    biggus._init.MAX_CHUNK_SIZE = limit
    for n in range(1, 30):
        s = Source(n)
        biggus.mean(biggus.NumpyArrayAdapter(s), axis=0).ndarray()
        assert max(s.sizes) <= limit and sum(s.sizes) == n, (limit, n)
''')

seed('c14-skip-masked', 'C14',
     'saving masked data, a whole piece of which is missing',
     'the piece is not written: the target keeps its old, unmasked values',
     [("""            target[keys] = array[keys].masked_array()
""", """            data = array[keys].masked_array()
            if data.size and not data.count():
                # There's no data in this part of the source.
                continue
            target[keys] = data
""")], '''
import numpy as np, biggus
data = np.ma.masked_array(np.arange(12.).reshape(4, 3), mask=False)
data[1] = np.ma.masked
data[2, 0] = np.ma.masked
for limit in (1000, 6, 3, 1):
    biggus._init.MAX_CHUNK_SIZE = limit
    target = np.ma.masked_array(np.zeros((4, 3)), mask=False)
    biggus.save([biggus.NumpyArrayAdapter(data)], [target], masked=True)
    assert (target.mask == data.mask).all(), (limit, target)
    assert (target == data).all()
''')

seed('c15-constant-dtype', 'C15',
     'indexing a constant array whose data type is longer than its value '
     'needs (text)',
     'the indexed array declares a shorter data type',
     [("""        return ConstantArray(shape, self.value, self._dtype)
""", """        return ConstantArray(shape, self.value)
""")], '''
import numpy as np, biggus
for value, dtype in ((1, 'i2'), (1.5, 'f4'), ('ab', 'U5'), (b'x', 'S3')):
    a = biggus.ConstantArray((3, 2), value, dtype)
    b = a[1:]
    assert b.dtype == a.dtype == b.ndarray().dtype, (b.dtype, a.dtype)
''')

seed('c16-fill-in-place', 'C16',
     'masked sum of a masked source held in memory, then anything which '
     'looks at the data under the mask',
     'the source\'s own data under the mask is overwritten with zeros',
     [("""        self.running_total += np.sum(data.filled(0), axis=self.axis)
""", """        # Fill the missing values in the chunk, which saves making a copy.
        data.data[ma.getmaskarray(data)] = 0
        self.running_total += np.sum(data.data, axis=self.axis)
""")], '''
import numpy as np, biggus
data = np.ma.masked_array([[1., 2], [3, 4]], mask=[[0, 1], [0, 0]])
before = data.data.copy()
a = biggus.NumpyArrayAdapter(data)
x = biggus.sum(a, axis=0)
assert (x.masked_array() == data.sum(axis=0)).all()
assert (x.masked_array() == data.sum(axis=0)).all()
assert (data.data == before).all(), data.data
''')

seed('c17-repeated-stop', 'C17',
     'grouping pieces where only some dimensions of some inputs repeat',
     'a group swallows the start of the following one',
     [(K, """                    next_stop = keys[index + 1].stop or dim_length
                    if next_stop != current_stops[0]:
                        break
""", """                    next_stop = keys[index + 1].stop
                    if next_stop is not None and \\
                            next_stop != current_stops[0]:
                        break
""")], '''
import numpy as np
from biggus.experimental.key_grouper import group_keys
whole = [(slice(0, 4),), (slice(4, 8),), (slice(8, None),)]
parts = [(slice(0, 2),), (slice(2, 4),), (slice(4, 8),), (slice(8, 12),)]
groups = group_keys((12,), whole, parts)
assert len(groups) == 3, groups
for (key,), keys in groups.items():
    n = set(range(12)[slice(*key)])
    for part in keys:
        got = [i for (k,) in part for i in range(12)[k]]
        assert sorted(got) == sorted(n), groups
''')

seed('c18-mosaic-dtype', 'C18',
     'a mosaic whose third or later tile has another data type of the same '
     'size',
     'the tile is accepted, and its values are converted silently',
     [("""            if tile.dtype != common_dtype:
                raise ValueError('inconsistent tile dtypes')
""", """            if tile.dtype.itemsize != common_dtype.itemsize:
                raise ValueError('inconsistent tile dtypes')
""")], '''
import numpy as np, biggus
tiles = [biggus.zeros((2,), d) for d in ('i4', 'i4', 'f4')]
for order in ((0, 1), (0, 1, 2), (2, 0)):
    try:
        biggus.LinearMosaic([tiles[i] for i in order], 0)
    except ValueError:
        assert 2 in order
    else:
        assert 2 not in order, order
''')

seed('c19-shape-race', 'C19',
     'two threads asking for the shape of the same new mosaic, one while the '
     'other is part-way through adding up the tiles',
     'one of them gets the shape of only some of the tiles',
     [("""            shape = list(self._tiles[0].shape)
            for tile in self._tiles[1:]:
                shape[self._axis] += tile.shape[self._axis]
            self._cached_shape = tuple(shape)
        return self._cached_shape
""", """            self._cached_shape = list(self._tiles[0].shape)
            for tile in self._tiles[1:]:
                self._cached_shape[self._axis] += tile.shape[self._axis]
        return tuple(self._cached_shape)
""")], '''
import threading, time
import numpy as np, biggus
class Tile(biggus.Array):
    dtype = np.dtype('f8')
    fill_value = 0.
    slow = False
    @property
    def shape(self):
        if Tile.slow:
            time.sleep(0.2)
        return (2,)
    def ndarray(self): return np.zeros(2)
    def masked_array(self): return np.ma.zeros(2)
m = biggus.LinearMosaic([Tile() for _ in range(4)], 0)
Tile.slow = True
shapes = []
threads = [threading.Thread(target=lambda: shapes.append(m.shape))
           for _ in range(2)]
for i, t in enumerate(threads):
    time.sleep(0.3 * i)
    t.start()
for t in threads:
    t.join()
assert shapes == [(8,), (8,)], shapes
''')
