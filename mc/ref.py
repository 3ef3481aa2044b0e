"""
The reference model: NumPy, applied to whole, realised arrays.

A program is a nested list (so it can be stored as JSON) describing how a
virtual array is built:

  ["src", kind, shape, dtype, pattern, mask]   a wrapped data source
  ["idx", P, keys]                             P[keys]
  ["T", P, axes]                               P.transpose(axes)
  ["as", P, dtype]                             P.astype(dtype)
  ["meq", P, value]                            biggus.masked_equal(P, value)
  ["const", shape, value, dtype], ["zeros", shape, dtype], ["ones", ...]
  ["bc", P, [[axis, length], ...], leading]    biggus.BroadcastArray
  ["stack", [P...], shape, order]              ArrayStack.multidim_array_stack
  ["ostack", [P...], shape]                    ArrayStack of an object array
  ["mosaic", [P...], axis]                     LinearMosaic
  ["un", name, P], ["bin", name, P, Q], ["op", symbol, P, Q]
  ["agg", name, P, axis, {kwargs}]
  ["py", n], ["nps", dtype, n], ["npa", shape, dtype, pattern, mask]

`Builder.build(program)` makes the virtual array; `Model.eval(program)` gives
its reference value as a `Ref`, the pair of its plain and masked values.

Keys are encoded as: int; ["I", n] (a NumPy integer); ["s", a, b, c]; ["t",
...] (a tuple); ["l", ...] (a list); ["g", ...] (an iterator); ["r", a, b, c] (a
range); ["a", ...] (an integer array); ["b", ...] (a boolean array);
["k"] is Ellipsis; ["n"] is newaxis. A list of those is the key of an index
operation; ["1", k] is the bare key k.
"""
import json
import operator

import numpy as np
import numpy.ma as ma


class Invalid(Exception):
    """The reference model refuses this request."""


class Unsupported(Exception):
    """The request is documented as unsupported."""


# -- Keys -------------------------------------------------------------------
VECTORS = ('t', 'a', 'b', 'as', 'l', 'g', 'r')


class OneShot(object):
    """An iterable which, like a generator, can only be iterated over once."""

    def __init__(self, values):
        self.values = tuple(values)
        self.used = False

    def __iter__(self):
        if self.used:
            return iter(())
        self.used = True
        return iter(self.values)

    def __repr__(self):
        return 'OneShot%r' % (self.values,)


def dec_key(k):
    if isinstance(k, (int, np.integer)):
        return int(k)
    tag = k[0]
    if tag == 's':
        return slice(*k[1:])
    if tag == 't':
        return tuple(k[1:])
    if tag == 'a':
        return np.array(k[1:], dtype=int)
    if tag == 'l':
        return list(k[1:])
    if tag == 'g':
        return OneShot(k[1:])
    if tag == 'r':
        return range(*k[1:])
    if tag == 'b':
        return np.array(k[1:], dtype=bool)
    if tag == 'I':
        return np.int64(k[1])
    if tag == 'J':
        return np.int8(k[1])
    if tag == 'k':
        return Ellipsis
    if tag == 'n':
        return np.newaxis
    if tag == 'as':    # an integer array of a small, unsigned type
        return np.array(k[1:], dtype=np.uint8)
    if tag == 'f':
        return float(k[1])
    if tag == 'str':
        return k[1]
    if tag == 'none':
        return None
    raise ValueError(k)


def dec_keys(keys):
    if keys and keys[0] == '1':
        return dec_key(keys[1])
    return tuple(dec_key(k) for k in keys)


def _is_int(k):
    return isinstance(k, (int, np.integer)) and not isinstance(k, bool)


def expand(keys, ndim):
    """The full list of keys, one per dimension (and newaxis)."""
    if not isinstance(keys, tuple):
        keys = (keys,)
    n = sum(1 for k in keys if k is not None and k is not Ellipsis)
    if n > ndim:
        raise Invalid('too many keys')
    out = []
    seen = False
    for k in keys:
        if k is Ellipsis:
            if seen:
                raise Invalid('several ellipses')
            seen = True
            out += [slice(None)] * (ndim - n)
        else:
            out.append(k)
    if not seen:
        out += [slice(None)] * (ndim - n)
    return out


def positions(key, size):
    """The positions selected by a slice, tuple or vector."""
    if isinstance(key, slice):
        return list(range(*key.indices(size)))
    if isinstance(key, np.ndarray) and key.dtype.kind == 'b':
        if key.shape != (size,):
            raise Invalid('boolean of the wrong length')
        return [i for i in range(size) if key[i]]
    if isinstance(key, np.ndarray) and (key.ndim != 1 or
                                        key.dtype.kind not in 'iu'
                                        ) and key.size:
        raise Invalid('not an index vector')
    if isinstance(key, OneShot):
        key = key.values
    out = []
    for i in key:
        i = int(i)
        if not -size <= i < size:
            raise Invalid('out of range')
        out.append(i + size if i < 0 else i)
    return out


def index(x, keys):
    """Orthogonal indexing of a NumPy array: each axis independently."""
    full = expand(keys, x.ndim)
    axis = 0
    for key in full:
        pre = (slice(None),) * axis
        if key is None:
            x = x.reshape(x.shape[:axis] + (1,) + x.shape[axis:])
            axis += 1
        elif _is_int(key):
            size = x.shape[axis]
            if not -size <= key < size:
                raise Invalid('out of range')
            x = x[pre + ([int(key) % size],)]
            x = x.reshape(x.shape[:axis] + x.shape[axis + 1:])
        elif isinstance(key, (slice, tuple, np.ndarray, list, range,
                              OneShot)):
            pos = np.array(positions(key, x.shape[axis]), dtype=np.intp)
            x = x[pre + (pos,)]
            axis += 1
        else:
            raise Invalid('not an index: %r' % (key,))
    return x


# -- Data -------------------------------------------------------------------
def make_data(shape, dtype, pattern='arange', mask=None):
    """
    A deterministic array. pattern is a name, or a list of the values; mask is
    None, 'none' (masked array without mask), a list of 0/1, or a name.
    """
    shape = tuple(shape)
    n = 1
    for s in shape:
        n *= s
    dt = np.dtype(dtype)
    i = np.arange(n)
    if isinstance(pattern, list):
        flat = np.array([pattern[j % len(pattern)] for j in range(n)]
                        ) if n else np.zeros(0)
        flat = np.array([_num(pattern[j % len(pattern)])
                         for j in range(n)], dtype=dt)
    elif pattern == 'arange':
        flat = i
    elif pattern == 'from1':
        flat = i + 1
    elif pattern == 'mod3':
        flat = i % 3
    elif pattern == 'mix':       # unordered, repeated, distinct neighbours
        flat = (i * 7 + 3) % 11
    elif pattern == 'neg':
        flat = (i * 5 + 2) % 13 - 6
    elif pattern == 'big':
        info = np.iinfo(dt) if dt.kind in 'iu' else None
        top = info.max if info else 1e15
        flat = top - (i % 3).astype(dt if info else float)
    else:
        raise ValueError(pattern)
    if dt.kind == 'c' and not isinstance(pattern, list):
        flat = flat + 1j * ((i * 3 + 1) % 5)
    if dt.kind == 'b' and not isinstance(pattern, list):
        flat = flat % 2
    if dt.kind in 'SU' and not isinstance(pattern, list):
        flat = [str(v) for v in flat]
    data = np.array(flat).astype(dt).reshape(shape)
    if mask is None:
        return data
    if mask == 'none':
        return ma.array(data)
    if mask == 'all':
        m = np.ones(n, dtype=bool)
    elif mask == 'alt':
        m = i % 2 == 1
    elif mask == 'third':
        m = i % 3 == 1
    elif mask == 'first':
        m = i == 0
    elif mask == 'false':
        m = np.zeros(n, dtype=bool)
    else:
        m = np.array([bool(mask[j % len(mask)]) for j in range(n)],
                     dtype=bool)
    return ma.array(data, mask=m.reshape(shape))


def _num(v):
    if v == 'nan':
        return np.nan
    if v == 'inf':
        return np.inf
    if v == '-inf':
        return -np.inf
    if isinstance(v, list):
        return complex(*[_num(u) for u in v])
    return v


class Ref(object):
    """The plain and the masked value of an expression."""
    __slots__ = ('nd', 'ma', 'rough')

    def __init__(self, nd, ma_, rough=False):
        self.nd = nd
        self.ma = ma_
        self.rough = rough     # only defined up to rounding

    def map(self, f):
        return Ref(f(self.nd), None if self.ma is None else f(self.ma),
                   self.rough)


def ref_of_data(data):
    if ma.isMaskedArray(data):
        m = ma.array(data.data, mask=ma.getmaskarray(data),
                     fill_value=data.fill_value)
        return Ref(data.filled(), m)
    return Ref(data, ma.array(data, mask=np.zeros(data.shape, bool)))


# -- Aggregations -----------------------------------------------------------
def float_dtype(dt):
    dt = np.dtype(dt)
    return dt if dt.kind in 'fc' else np.dtype('f8')


def sum_dtype(dt):
    dt = np.dtype(dt)
    return np.dtype(int) if dt.kind == 'b' else dt


def wide(x):
    return x.astype('c16' if x.dtype.kind == 'c' else 'f8')


def agg(name, ref, axis, kwargs):
    nd = ref.nd
    if axis is None:
        raise Invalid('axis')
    if axis < 0:
        axis += nd.ndim
    if not 0 <= axis < nd.ndim:
        raise Invalid('axis')
    kwargs = dict(kwargs or {})
    a = agg_plain(name, nd, axis, kwargs)
    b = None if ref.ma is None else agg_masked(name, ref.ma, axis, kwargs)
    rough = ref.rough or name in ('mean', 'std', 'var') or (
        name == 'sum' and nd.dtype.kind in 'fc')
    return Ref(a, b, rough)


def agg_plain(name, x, axis, kwargs):
    n = x.shape[axis]
    shape = x.shape[:axis] + x.shape[axis + 1:]
    if name == 'count':
        return np.full(shape, n, dtype='i')
    if name in ('min', 'max'):
        if n == 0:
            raise Invalid('no values')
        return np.asarray(getattr(np, name)(x, axis=axis))
    if name == 'sum':
        return np.asarray(np.sum(x, axis=axis, dtype=sum_dtype(x.dtype)))
    w = wide(x)
    out = float_dtype(x.dtype)
    if name == 'mean':
        r = np.sum(w, axis=axis) / np.float64(n) if n else \
            np.full(shape, np.nan)
        return np.asarray(r).astype(out)
    ddof = kwargs.get('ddof', 0)
    q, k = _sumsq(w, np.ones(w.shape, bool), axis)
    r = q / np.maximum(k - ddof, 0)
    if name == 'std':
        r = np.sqrt(r)
    return np.asarray(r).astype(out)


def _sumsq(w, use, axis):
    """Sum of squared deviations from the mean of the used values; count."""
    k = np.asarray(use.sum(axis=axis)).astype('f8')
    total = np.where(use, w, 0).sum(axis=axis)
    mean = total / np.where(k == 0, 1, k)
    dev = np.where(use, w - np.expand_dims(mean, axis), 0)
    return np.asarray((dev * np.conj(dev)).real.sum(axis=axis)), k


def agg_masked(name, x, axis, kwargs):
    use = ~ma.getmaskarray(x)
    data = x.data
    k = np.asarray(use.sum(axis=axis))
    n = x.shape[axis]
    shape = x.shape[:axis] + x.shape[axis + 1:]
    none = (k == 0)
    if name == 'count':
        return ma.array(k.astype('i'), mask=np.zeros(shape, bool))
    if name in ('min', 'max'):
        if n == 0:
            raise Invalid('no values')
        # For each position, the extreme of the used values.
        out = np.zeros(shape, x.dtype)
        fn = np.min if name == 'min' else np.max
        for pos in np.ndindex(*shape):
            sel = pos[:axis] + (slice(None),) + pos[axis:]
            vals = data[sel][use[sel]]
            if len(vals):
                out[pos] = fn(vals)
        return ma.array(out, mask=none)
    if name == 'sum':
        t = np.where(use, data, np.zeros((), data.dtype)).sum(
            axis=axis, dtype=sum_dtype(x.dtype))
        return ma.array(np.asarray(t), mask=none)
    w = wide(data)
    out = float_dtype(x.dtype)
    if name == 'mean':
        t = np.where(use, w, 0).sum(axis=axis) / np.where(none, 1, k)
        mdtol = kwargs.get('mdtol', 1)
        mask = none.copy()
        if mdtol < 1 and n:
            mask = mask | ((n - k) / float(n) > mdtol)
        return ma.array(np.asarray(t).astype(out), mask=mask)
    ddof = kwargs.get('ddof', 0)
    q, kf = _sumsq(np.where(use, w, 0), use, axis)
    mask = kf <= ddof
    r = q / np.where(mask, 1, kf - ddof)
    if name == 'std':
        r = np.sqrt(r)
    return ma.array(np.asarray(r).astype(out), mask=mask)


# -- Elementwise ------------------------------------------------------------
OPS = {'+': operator.add, '-': operator.sub, '*': operator.mul,
       '//': operator.floordiv, '/': operator.truediv, '**': operator.pow}
OP_UFUNC = {'+': 'add', '-': 'subtract', '*': 'multiply',
            '//': 'floor_divide', '/': 'true_divide', '**': 'power'}
NP_NAME = {'sub': 'subtract'}


def np_function(name):
    return getattr(np, NP_NAME.get(name, name))


def ma_function(name):
    f = np_function(name)
    return getattr(ma, f.__name__, None)


def elementwise(name, operands):
    """operands: Refs, or Python numbers (as themselves)."""
    f = np_function(name)
    g = ma_function(name)
    nds = [o.nd if isinstance(o, Ref) else o for o in operands]
    if len(nds) == 2:
        try:
            np.broadcast(*nds)
        except ValueError:
            raise Invalid('shapes')
    # NumPy treats 0-d operands as if they were numbers when it comes to the
    # type of the result; virtual arrays always keep their data type. So
    # evaluate with at least one dimension.
    shape = np.broadcast(*nds).shape if len(nds) == 2 else nds[0].shape
    nd1 = [np.atleast_1d(x) if isinstance(x, np.ndarray) else x for x in nds]
    r = np.asarray(f(*nd1))
    r = r.reshape(shape)
    m = None
    if g is not None and all(not isinstance(o, Ref) or o.ma is not None
                             for o in operands):
        mas = []
        for o in operands:
            if isinstance(o, Ref):
                x = o.ma
                x = ma.array(np.atleast_1d(x.data),
                             mask=np.atleast_1d(ma.getmaskarray(x)))
            else:
                x = o
            mas.append(x)
        m = g(*mas)
        m = ma.array(ma.getdata(m), mask=ma.getmaskarray(m)).reshape(shape)
        m = m.astype(r.dtype)
    # (With Python numbers, the precision of intermediate values may differ.)
    rough = any(not isinstance(o, Ref) or o.rough for o in operands)
    return Ref(r, m, rough)


# -- The model --------------------------------------------------------------
class Model(object):
    def __init__(self):
        self.cache = {}

    def eval(self, p):
        text = json.dumps(p)
        r = self.cache.get(text)
        if r is None:
            try:
                r = self._eval(p)
            except Invalid as e:
                r = e
            self.cache[text] = r
        if isinstance(r, Invalid):
            raise r
        return r

    def _operand(self, p):
        if p[0] == 'py':
            return p[1]
        return self.eval(p)

    def _eval(self, p):
        tag = p[0]
        if tag == 'src':
            return ref_of_data(make_data(*p[2:6]))
        if tag == 'npa':
            return ref_of_data(make_data(*p[1:5]))
        if tag == 'nps':
            return ref_of_data(np.array(p[2], dtype=p[1]))
        if tag == 'idx':
            x = self.eval(p[1])
            keys = dec_keys(p[2])
            return x.map(lambda v: index(v, keys))
        if tag == 'T':
            axes = p[2]
            x = self.eval(p[1])
            if axes is not None and sorted(
                    a % x.nd.ndim if -x.nd.ndim <= a < x.nd.ndim else -99
                    for a in axes) != list(range(x.nd.ndim)):
                raise Invalid('axes')
            return x.map(lambda v: v.transpose(axes))
        if tag == 'as':
            return self.eval(p[1]).map(lambda v: v.astype(p[2]))
        if tag == 'meq':
            x = self.eval(p[1])
            m = None
            if x.ma is not None:
                m = ma.array(x.ma.data, mask=ma.getmaskarray(x.ma) |
                             (x.ma.data == p[2]))
            return Ref(x.nd, m, x.rough)
        if tag == 'const':
            v = np.array([p[2]], dtype=p[3])
            return ref_of_data(np.full(_shape(p[1]), v[0], dtype=v.dtype))
        if tag == 'zeros':
            return ref_of_data(np.zeros(_shape(p[1]), dtype=p[2]))
        if tag == 'ones':
            return ref_of_data(np.ones(_shape(p[1]), dtype=p[2]))
        if tag == 'bc':
            x = self.eval(p[1])

            def bc(v):
                shape = list(v.shape)
                for axis, length in p[2]:
                    if not 0 <= axis < len(shape) or shape[axis] != 1 or \
                            length < 0:
                        raise Invalid('broadcast')
                    v = v[(slice(None),) * axis +
                          (np.zeros(length, dtype=int),)]
                for length in list(p[3])[::-1]:
                    if length < 0:
                        raise Invalid('leading')
                    w = v.reshape((1,) + v.shape)
                    v = w[np.zeros(length, dtype=int)]
                return v
            return x.map(bc)
        if tag in ('stack', 'ostack'):
            xs = [self.eval(q) for q in p[1]]
            shape = tuple(p[2])
            n = 1
            for s in shape:
                n *= s
            if n != len(xs) or not xs:
                raise Invalid('size')
            if any(x.nd.shape != xs[0].nd.shape or
                   x.nd.dtype != xs[0].nd.dtype for x in xs):
                raise Invalid('items')
            order = np.arange(n).reshape(
                shape, order=p[3] if tag == 'stack' else 'C')
            item = xs[0].nd.shape

            def stack(vals, masked):
                out = np.zeros(shape + item, vals[0].dtype)
                mask = np.zeros(shape + item, bool)
                for pos in np.ndindex(*shape):
                    v = vals[order[pos]]
                    out[pos] = ma.getdata(v)
                    if masked:
                        mask[pos] = ma.getmaskarray(v)
                return ma.array(out, mask=mask) if masked else out
            return Ref(stack([x.nd for x in xs], False),
                       stack([x.ma for x in xs], True),
                       any(x.rough for x in xs))
        if tag == 'mosaic':
            xs = [self.eval(q) for q in p[1]]
            axis = p[2]
            nd = xs[0].nd.ndim
            if not 0 <= axis < nd:
                raise Invalid('axis')
            for x in xs:
                a, b = list(x.nd.shape), list(xs[0].nd.shape)
                if len(a) != len(b) or x.nd.dtype != xs[0].nd.dtype:
                    raise Invalid('tiles')
                del a[axis], b[axis]
                if a != b:
                    raise Invalid('tiles')
            data = np.concatenate([x.ma.data for x in xs], axis=axis)
            mask = np.concatenate([ma.getmaskarray(x.ma) for x in xs],
                                  axis=axis)
            return Ref(np.concatenate([x.nd for x in xs], axis=axis),
                       ma.array(data, mask=mask), any(x.rough for x in xs))
        if tag == 'un':
            return elementwise(p[1], [self._operand(p[2])])
        if tag == 'bin':
            return elementwise(p[1], [self._operand(p[2]),
                                      self._operand(p[3])])
        if tag == 'op':
            return elementwise(OP_UFUNC[p[1]], [self._operand(p[2]),
                                                self._operand(p[3])])
        if tag == 'agg':
            return agg(p[1], self.eval(p[2]), p[3],
                       p[4] if len(p) > 4 else None)
        raise ValueError(p)


def _shape(s):
    return tuple(s) if isinstance(s, (list, tuple)) else (s,)


# -- Building the virtual arrays -------------------------------------------
class Source(object):
    """
    A concrete data source: anything with shape, dtype and __getitem__.

    Records what is read. `fail` is a predicate on the keys requested.
    """
    __array_priority__ = 10

    def __init__(self, data, ortho=False, name=''):
        self._data = data
        self.shape = data.shape
        self.dtype = data.dtype
        self.ortho = ortho
        self.name = name
        self.log = None
        self.fail = None
        if ma.isMaskedArray(data):
            self.fill_value = data.fill_value

    @property
    def ndim(self):
        return len(self.shape)

    def __getitem__(self, keys):
        if self.log is not None:
            self.log.append(keys)
        if self.fail is not None:
            self.fail(keys)
        if self.ortho:
            if not isinstance(keys, tuple):
                keys = (keys,)
            try:
                return index(self._data, tuple(
                    np.array(k) if isinstance(k, list) else k for k in keys))
            except Invalid as e:
                raise IndexError(str(e))
        return self._data[keys]


class Builder(object):
    """Builds virtual arrays; identical sub-programs are shared objects."""

    def __init__(self, biggus, share=True, source_factory=None, on_build=None):
        self.biggus = biggus
        self.share = share
        self.cache = {}
        self.sources = []
        self.source_factory = source_factory

    def build(self, p):
        if not self.share:
            return self._build(p)
        text = json.dumps(p)
        if text not in self.cache:
            self.cache[text] = self._build(p)
        return self.cache[text]

    def make_source(self, p):
        data = make_data(*p[2:6])
        kind = p[1]
        if self.source_factory is not None:
            return self.source_factory(p, data)
        if kind in ('np', 'npo'):
            return data
        return Source(data, ortho=kind == 'ortho')

    def _build(self, p):
        b = self.biggus
        tag = p[0]
        if tag == 'src':
            concrete = self.make_source(p)
            self.sources.append(concrete)
            if isinstance(concrete, np.ndarray):
                register(concrete)
            if p[1] in ('ortho', 'npo'):
                return b.OrthoArrayAdapter(concrete)
            return b.NumpyArrayAdapter(concrete)
        if tag == 'npa':
            return make_data(*p[1:5])
        if tag == 'py':
            return p[1]
        if tag == 'nps':
            return np.dtype(p[1]).type(p[2])
        if tag == 'idx':
            return self.build(p[1])[dec_keys(p[2])]
        if tag == 'T':
            x = self.build(p[1])
            return x.transpose() if p[2] is None else x.transpose(p[2])
        if tag == 'as':
            return self.build(p[1]).astype(np.dtype(p[2]))
        if tag == 'meq':
            return b.masked_equal(self.build(p[1]), p[2])
        if tag == 'const':
            return b.ConstantArray(p[1], p[2], p[3])
        if tag == 'zeros':
            return b.zeros(p[1], dtype=p[2])
        if tag == 'ones':
            return b.ones(p[1], dtype=p[2])
        if tag == 'bc':
            return b.BroadcastArray(self.build(p[1]), dict(map(tuple, p[2])),
                                    tuple(p[3]))
        if tag == 'stack':
            return b.ArrayStack.multidim_array_stack(
                [self.build(q) for q in p[1]], tuple(p[2]), p[3])
        if tag == 'ostack':
            items = [self.build(q) for q in p[1]]
            stack = np.empty(len(items), dtype=object)
            for i, item in enumerate(items):
                stack[i] = item
            return b.ArrayStack(stack.reshape(tuple(p[2])))
        if tag == 'mosaic':
            items = [self.build(q) for q in p[1]]
            tiles = np.empty(len(items), dtype=object)
            for i, item in enumerate(items):
                tiles[i] = item
            return b.LinearMosaic(tiles, p[2])
        if tag == 'un':
            return getattr(b, p[1])(self.build(p[2]))
        if tag == 'bin':
            return getattr(b, p[1])(self.build(p[2]), self.build(p[3]))
        if tag == 'op':
            return OPS[p[1]](self.build(p[2]), self.build(p[3]))
        if tag == 'agg':
            return getattr(b, p[1])(self.build(p[2]), p[3],
                                    **(p[4] if len(p) > 4 else {}))
        raise ValueError(p)


# -- Comparison -------------------------------------------------------------
_RTOL = {'e': 2e-2, 'f': 2e-5, 'd': 1e-9, 'F': 2e-5, 'D': 1e-9, 'g': 1e-9,
         'G': 1e-9}


def _values_differ(a, b, rough):
    """Whether the values of two equally shaped arrays differ (NaN == NaN)."""
    if a.size == 0:
        return False
    if a.dtype.kind in 'fc' and b.dtype.kind in 'fc':
        if not rough:
            return not bool(((a == b) | ((a != a) & (b != b))).all())
        rtol = _RTOL[a.dtype.char]
        a = a.astype('c16' if a.dtype.kind == 'c' else 'f8')
        b = b.astype('c16' if b.dtype.kind == 'c' else 'f8')
        with np.errstate(all='ignore'):
            scale = np.abs(b[np.isfinite(b)]).max() if \
                np.isfinite(b).any() else 0.
            close = np.abs(a - b) <= rtol * np.maximum(np.abs(b), 1e-3) + \
                rtol * 1e-3 * scale
            ok = (a == b) | ((a != a) & (b != b)) | close
        return not bool(ok.all())
    return not bool((a == b).all())


def same_dtype(a, b):
    """Whether two data types agree (but for the byte order)."""
    return a == b or a.newbyteorder('=') == b.newbyteorder('=')


def diff_plain(x, ref, dtype=True):
    """None, or what's wrong with x as the plain value of ref."""
    want = ref.nd
    if type(x) is not np.ndarray:
        return 'plain: not a plain ndarray: %r' % type(x)
    if x.shape != want.shape:
        return 'plain: shape %r, expected %r' % (x.shape, want.shape)
    if dtype and not same_dtype(x.dtype, want.dtype):
        return 'plain: dtype %r, expected %r' % (x.dtype, want.dtype)
    if _values_differ(x, want, ref.rough):
        return 'plain: values %s, expected %s' % (_s(x), _s(want))


def diff_masked(x, ref, dtype=True):
    want = ref.ma
    if not isinstance(x, ma.MaskedArray) or x is ma.masked:
        return 'masked: not a masked array: %r' % type(x)
    if x.shape != want.shape:
        return 'masked: shape %r, expected %r' % (x.shape, want.shape)
    if dtype and not same_dtype(x.dtype, want.dtype):
        return 'masked: dtype %r, expected %r' % (x.dtype, want.dtype)
    m, w = ma.getmaskarray(x), ma.getmaskarray(want)
    if not (m == w).all():
        return 'masked: mask %s, expected %s' % (_s(m), _s(w))
    if _values_differ(x.data[~m], want.data[~m], ref.rough):
        return 'masked: values %s, expected %s' % (_s(x), _s(want))


def _s(x):
    return ' '.join(str(x).split())


# -- Structural identity ----------------------------------------------------
def struct(obj, _depth=0):
    """
    A hashable canonical form of everything the future behaviour of a virtual
    array can depend on: its class, and recursively, all of its attributes.
    Data sources are identified by identity.
    """
    if obj is None or isinstance(obj, (bool, str, bytes, float, complex)):
        return (type(obj).__name__, obj)
    if isinstance(obj, (int, np.integer)):
        return (type(obj).__name__, int(obj))
    if isinstance(obj, slice):
        return ('slice', struct(obj.start), struct(obj.stop),
                struct(obj.step))
    if isinstance(obj, (tuple, list)):
        return (type(obj).__name__,) + tuple(struct(o) for o in obj)
    if isinstance(obj, dict):
        return ('dict',) + tuple(sorted(
            ((repr(k), struct(v)) for k, v in obj.items())))
    if isinstance(obj, np.ndarray):
        if obj.dtype == object:
            return ('objarray', obj.shape) + tuple(struct(o)
                                                   for o in obj.flat)
        if id(obj) in _SOURCES:
            return ('source', _SOURCES[id(obj)][1])
        return ('array', obj.shape, str(obj.dtype), obj.tobytes(),
                ma.getmaskarray(obj).tobytes()
                if ma.isMaskedArray(obj) else None)
    if isinstance(obj, np.dtype):
        return ('dtype', str(obj))
    if isinstance(obj, np.generic):
        return ('scalar', str(obj.dtype), obj.tobytes())
    if isinstance(obj, range):
        return ('range', obj.start, obj.stop, obj.step)
    d = getattr(obj, '__dict__', None)
    if d is not None and type(obj).__module__.startswith('biggus'):
        return (type(obj).__name__,) + tuple(
            (k, struct(v)) for k, v in sorted(d.items()))
    # Keep the object alive, so its id can't be used again.
    if id(obj) not in _SOURCES:
        register(obj)
    return ('id', _SOURCES[id(obj)][1])


_SOURCES = {}


def register(obj):
    """Identify obj (a data source, a function, ...) by its identity."""
    _SOURCES[id(obj)] = (obj, len(_SOURCES))


def forget():
    _SOURCES.clear()
