"""Planted changes, third batch. See mkseed.py."""
SEEDS = []
I = 'biggus/_init.py'
D = 'biggus/experimental/dask_engine.py'


def seed(id, property, needs, breaks, edits, demo):
    SEEDS.append(dict(id=id, property=property, needs=needs, breaks=breaks,
                      edits=[(I,) + e if len(e) == 2 else e for e in edits],
                      demo=demo))


seed('c20-adapter-zero', 'C20',
     'a data source with a fill value of zero',
     'a fill value which is zero, False or empty is taken for none',
     [("""        fill_value = getattr(self.concrete, 'fill_value', None)
        if fill_value is None:
            fill_value = Array.fill_value.fget(self)
        return fill_value

    @property
    def shape(self):
        return _sliced_shape(self.concrete.shape, self._keys)
""", """        fill_value = getattr(self.concrete, 'fill_value', None)
        if not fill_value:
            fill_value = Array.fill_value.fget(self)
        return fill_value

    @property
    def shape(self):
        return _sliced_shape(self.concrete.shape, self._keys)
""")], '''
import numpy as np, biggus
for fill in (-1, 7, 0):
    data = np.ma.array([1, 2, 3], mask=[0, 1, 0], fill_value=fill)
    a = biggus.NumpyArrayAdapter(data)
    assert a.fill_value == fill, (a.fill_value, fill)
    s = biggus.ArrayStack([a, a])
    assert s.masked_array().fill_value == fill
''')

seed('c20-stack-dtype', 'C20',
     'a stack whose first item has a fill value of zero and another item a '
     'different one',
     'the fill value of the first item is declared',
     [("""            if fill_value is not None and not fill_value_ok(array):
                fill_value = None
            ok = array.shape""", """            if fill_value and not fill_value_ok(array):
                fill_value = None
            ok = array.shape""")], '''
import numpy as np, biggus
def a(fill):
    return biggus.NumpyArrayAdapter(
        np.ma.array([1, 2, 3], mask=[0, 1, 0], fill_value=fill))
default = np.ma.empty(0, int).fill_value
for fills, want in (((5, 5), 5), ((5, 6), default), ((0, 6), default),
                    ((6, 0), default), ((0, 0), 0)):
    s = biggus.ArrayStack([a(f) for f in fills])
    assert s.fill_value == want, (fills, s.fill_value)
    assert s.masked_array().fill_value == want
''')

seed('c21-select-all', 'C21',
     'replacing an item of what selecting the whole of a stack gave',
     'selecting everything gives the stack itself',
     [("""        stack_ndim = self._stack.ndim
        stack_keys = keys[:stack_ndim]
""", """        if all(isinstance(key, slice) and key == slice(None)
               for key in keys):
            # Everything is selected.
            return self
        stack_ndim = self._stack.ndim
        stack_keys = keys[:stack_ndim]
""")], '''
import numpy as np, biggus
def a(n):
    return biggus.NumpyArrayAdapter(np.arange(3) + n)
s = biggus.ArrayStack([a(0), a(10)])
t = s[:]
s[(0,)] = a(20)
assert (s.ndarray() == [[20, 21, 22], [10, 11, 12]]).all()
assert (t.ndarray() == [[0, 1, 2], [10, 11, 12]]).all(), t.ndarray()
''')

seed('c21-copy-items', 'C21',
     'a deep copy of a stack of stacks, one of whose items is replaced',
     'the copy shares its items with the original',
     [("""            [deepcopy(array, memo=memo) for array in self._stack.flat],
""", """            [memo.setdefault(id(array), array) for array in
             self._stack.flat],
""")], '''
import copy, numpy as np, biggus
def a(n):
    return biggus.NumpyArrayAdapter(np.arange(3) + n)
inner = biggus.ArrayStack([a(0), a(10)])
s = biggus.ArrayStack([inner, inner[::-1]])
t = copy.deepcopy(s)
before = t.ndarray()
inner[(0,)] = a(20)
assert (s.ndarray()[0] == [[20, 21, 22], [10, 11, 12]]).all()
assert (t.ndarray() == before).all(), t.ndarray()
''')

seed('c21-index-position', 'C21',
     'replacing an item of a stack of several dimensions, at a position '
     'counted from the end',
     'the item of another position is replaced',
     [("""        self._stack[keys] = value
""", """        index = 0
        for key, n in zip(keys, self._stack.shape):
            index = index * n + key
        self._stack.flat[index] = value
""")], '''
import numpy as np, biggus
def a(n):
    return biggus.NumpyArrayAdapter(np.arange(3) + n)
x = np.empty(4, dtype=object)
x[:] = [a(0), a(10), a(20), a(30)]
s = biggus.ArrayStack(x.reshape(2, 2))
for key in ((0, 0), (1, 0), (-1, -1), (0, -1), (1, -1)):
    s[key] = a(40)
    assert (s.ndarray()[key] == [40, 41, 42]).all(), key
    s[key] = a(0)
''')
