"""C20: fill values are declared, carried and used consistently."""
import copy
import itertools

import numpy as np
import numpy.ma as ma

from mc import boot, evals, keys as K
from mc import ref as R
from mc import runtime

PROPERTY = 'C20'
COVERAGE = """
For twelve data types, each with an alphabet of fill values (the default, zero,
neighbouring floating values, integers which differ only beyond the precision
of floats, NaN, infinities, empty strings): sources of every kind (masked array
with a fill value of its own, with the default one, plain array, any other
object with and without a fill value, masked or plain data; both adapters),
(a) every stack and mosaic of up to three items with every assignment of fill
values, nested once, (b) all keys of an alphabet, twice, and views
(transposition, new axes, broadcasting) of them, in every order up to the depth
bound, (c) all of it evaluated plain and masked, by method and in batches,
under several piece limits, and after a deep copy. The declared fill value,
that of the masked result, and the values at the masked positions of the plain
result are compared with a model. states = arrays, transitions = evaluations.
"""
ASSUMPTIONS = [
    'which fill value an empty selection from items with different fill '
    'values has is left open',
    'casts, masking of a value and computed arrays are not covered']

FILLS = {
    'f4': [None, 7.0, 7.0000005, 'nan', 0.0, -5.5],
    'f8': [None, 0.1, 0.1 + 1e-12, 'nan', 'inf', 1e20 + 1e5],
    'f2': [None, 2.0, 'nan'],
    'i2': [None, 0, -1, 1],
    'i8': [None, 2 ** 53, 2 ** 53 + 1, 0],
    'u1': [None, 0, 255],
    'u8': [None, 2 ** 64 - 1, 2 ** 64 - 2],
    '?': [None, False, True],
    'S3': [None, b'zz', b'zzz', b''],
    'U3': [None, u'zz', u'', u'N/A'],
    'c8': [None, 2 + 1j, 2 + 2j, 2],
    'M8[D]': [None, 11323, 0],
}
CONTAINERS = ['ma', 'duck', 'duckless', 'nd', 'duckplain']


def fill_of(dtype, n):
    """A fill value: the n-th of the alphabet, of the data type."""
    fv = FILLS[dtype][n]
    if fv is None:
        return ma.empty(0, dtype=dtype).fill_value
    if isinstance(fv, str) and np.dtype(dtype).kind == 'f':
        fv = float(fv)
    return np.array([fv], dtype=dtype)[0]


def alike(a, b, dtype=None):
    a, b = np.asarray(a), np.asarray(b)
    if dtype is not None and a.dtype.kind == np.dtype(dtype).kind:
        a, b = a.astype(dtype), b.astype(dtype)
    if a.dtype != b.dtype or a.shape != b.shape:
        return False
    if a.dtype.kind in 'fc':
        return bool(a == b) or bool(a != a and b != b)
    if a.dtype.kind == 'M':
        return a.astype('i8') == b.astype('i8')
    return bool(a == b)


class Duck(object):
    """A data source which isn't an array; maybe without a fill value."""

    def __init__(self, data, fill_value=None, ortho=False):
        self._data = data
        self._ortho = ortho
        self.shape = data.shape
        self.dtype = data.dtype
        self.ndim = data.ndim
        if fill_value is not None:
            self.fill_value = fill_value

    def __getitem__(self, keys):
        if self._ortho:
            return R.index(self._data, keys)
        return self._data[keys]


# -- The model --------------------------------------------------------------
class M(object):
    """An array: the declared fill value (None if left open), data, ..."""

    def __init__(self, fill, leaves, data, mask, filler, parts=None):
        self.fill = fill
        self.leaves = leaves        # the fill values of all the sources
        self.data, self.mask, self.filler = data, mask, filler
        self.parts = parts

    def view(self, f):
        fill = self.fill
        if fill is not None:
            if f(self.data).size == 0 and self.parts:
                fill = None
        return M(fill, self.leaves, f(self.data), f(self.mask),
                 f(self.filler))


def common(fills, dtype):
    if any(f is None for f in fills):
        return None
    if all(alike(f, fills[0]) for f in fills):
        return fills[0]
    return ma.empty(0, dtype=dtype).fill_value


def uniform(leaves):
    return all(alike(f, leaves[0]) for f in leaves)


def stacked(items, shape, f):
    x = np.array([f(i) for i in items], dtype=f(items[0]).dtype)
    return x.reshape(tuple(shape) + f(items[0]).shape)


def stack(items, shape):
    leaves = [f for i in items for f in i.leaves]
    return M(common([i.fill for i in items], items[0].data.dtype), leaves,
             stacked(items, shape, lambda i: i.data),
             stacked(items, shape, lambda i: i.mask),
             stacked(items, shape, lambda i: i.filler),
             ('stack', tuple(shape), items))


def mosaic(items, axis):
    leaves = [f for i in items for f in i.leaves]
    fill = common([i.fill for i in items], items[0].data.dtype)
    if not uniform(leaves) and any(i.data.size == 0 for i in items):
        fill = None
    return M(fill, leaves,
             np.concatenate([i.data for i in items], axis),
             np.concatenate([i.mask for i in items], axis),
             np.concatenate([i.filler for i in items], axis),
             ('mosaic', axis, items))


def index(m, keys):
    """Index a model with (decoded) keys."""
    full = R.expand(keys, m.data.ndim)
    out = m.view(lambda x: R.index(x, tuple(full)))
    if uniform(m.leaves):
        return out
    out.fill = None
    if not out.data.size or m.parts is None or any(k is None for k in full):
        return out
    kind, where, items = m.parts
    if kind == 'stack':
        n = len(where)
        order = R.index(np.arange(len(items)).reshape(where),
                        tuple(full[:n]))
        chosen = [index(items[i], tuple(full[n:])) for i in order.flat]
        return stack(chosen, order.shape) if order.ndim else chosen[0]
    if any(not tile.data.size for tile in items):
        return out
    origin = [(i, j) for i, tile in enumerate(items)
              for j in range(tile.data.shape[where])]
    pos = R.index(np.arange(len(origin)), (full[where],))
    local = list(full)
    if pos.ndim == 0:
        i, local[where] = origin[int(pos)]
        return index(items[i], tuple(local))
    chosen = []
    for i, group in itertools.groupby(pos, lambda p: origin[p][0]):
        local[where] = tuple(origin[p][1] for p in group)
        chosen.append(index(items[i], tuple(local)))
    return mosaic(chosen, where - sum(1 for k in full[:where]
                                      if R._is_int(k)))


def model(p):
    tag = p[0]
    if tag == 's':
        _, adapter, container, shape, dtype, n, seed = p
        fill = fill_of(dtype, n)
        default = ma.empty(0, dtype=dtype).fill_value
        data = values(shape, dtype, seed)
        mask = masks(shape, seed)
        if container == 'duckless':
            fill = default
        elif container == 'nd':
            fill = default
        if container in ('nd', 'duckplain'):
            mask = np.zeros(shape, dtype=bool)
        filler = np.empty(shape, dtype=dtype)
        filler.fill(fill)
        return M(fill, [fill], data, mask, filler)
    if tag == 'stack':
        return stack([model(q) for q in p[1]], p[2])
    if tag == 'mosaic':
        return mosaic([model(q) for q in p[1]], p[2])
    m = model(p[1])
    if tag == 'idx':
        return index(m, R.dec_keys(p[2]))
    if tag == 'T':
        return m.view(lambda x: x.transpose())
    if tag == 'bc':
        return m.view(lambda x: np.broadcast_to(x, (2,) + x.shape))
    raise ValueError(tag)


def values(shape, dtype, seed):
    n = int(np.prod(shape))
    return ((np.arange(n) * 3 + seed) % 5).reshape(shape).astype(dtype)


def masks(shape, seed):
    n = int(np.prod(shape))
    return ((np.arange(n) + seed) % 2 == 0).reshape(shape)


# -- The real thing ---------------------------------------------------------
def build(g, p):
    tag = p[0]
    if tag == 's':
        _, adapter, container, shape, dtype, n, seed = p
        fill = fill_of(dtype, n)
        data, mask = values(shape, dtype, seed), masks(shape, seed)
        if container == 'ma':
            if FILLS[dtype][n] is None:
                source = ma.array(data, mask=mask)
            else:
                source = ma.array(data, mask=mask, fill_value=fill)
        elif container == 'nd':
            source = data
        elif container == 'duck':
            source = Duck(ma.array(data, mask=mask, fill_value=fill), fill,
                          adapter == 'o')
        elif container == 'duckplain':
            source = Duck(data, fill, adapter == 'o')
        else:
            source = Duck(ma.array(data, mask=mask), None, adapter == 'o')
        return (g.NumpyArrayAdapter if adapter == 'n' else
                g.OrthoArrayAdapter)(source)
    if tag == 'stack':
        return g.ArrayStack.multidim_array_stack(
            [build(g, q) for q in p[1]], tuple(p[2]))
    if tag == 'mosaic':
        return g.LinearMosaic([build(g, q) for q in p[1]], p[2])
    a = build(g, p[1])
    if tag == 'idx':
        return a[R.dec_keys(p[2])]
    if tag == 'T':
        return a.transpose()
    if tag == 'bc':
        return g.BroadcastArray(a, {}, (2,))
    raise ValueError(tag)


def check(p, limit, ways='md', ctx=None):
    g = boot.load()
    m = model(p)

    def go():
        a = build(g, p)
        message = same(a, m)
        if message:
            return message
        for way in ways:
            b = a
            if way == 'c':
                b = copy.deepcopy(a)
                message = same(b, m)
                if message:
                    return 'deep copy: ' + message
            for masked in (True, False):
                if way in 'mc':
                    x = b.masked_array() if masked else b.ndarray()
                else:
                    f = g.masked_arrays if masked else g.ndarrays
                    x = f([a] if way == 'e' else [a, a])[-1]
                if ctx is not None:
                    ctx.count('transitions')
                    ctx.count('traces_validated_against_impl')
                message = right(x, a, m, masked)
                if message:
                    return '%s, %s: %s' % (
                        dict(m='method', c='deep copy', e='engine',
                             b='batch')[way],
                        'masked' if masked else 'plain', message)
        return same(a, m)
    boot.set_limit(limit or boot.DEFAULT_LIMIT)
    try:
        return runtime.result(go)
    except NotImplementedError:
        return None      # documented as unsupported
    except Exception as e:
        return 'raised ' + evals.describe(e)
    finally:
        boot.set_limit(boot.DEFAULT_LIMIT)


def same(a, m):
    if m.fill is not None and not alike(
            a.fill_value, m.fill, m.data.dtype):
        return 'declared fill value %r, expected %r' % (a.fill_value, m.fill)


def right(x, a, m, masked):
    if masked:
        if not ma.isMaskedArray(x):
            return 'not a masked array: %r' % type(x)
        if not alike(x.fill_value, a.fill_value, x.dtype):
            return 'fill value %r, declared %r' % (x.fill_value,
                                                   a.fill_value)
        ok = x.shape == m.data.shape and \
            (ma.getmaskarray(x) == m.mask).all() and \
            equal(ma.getdata(x)[~m.mask], m.data[~m.mask])
    else:
        ok = type(x) is np.ndarray and x.shape == m.data.shape and \
            equal(x, np.where(m.mask, m.filler, m.data))
    if not ok:
        return 'evaluated to %s, expected %s, masked %s, filled with %s' % (
            R._s(x), R._s(m.data), R._s(m.mask), R._s(m.filler))


def equal(x, y):
    if x.dtype.kind == 'M':
        x, y = x.astype('i8'), y.astype('i8')
    return not R._values_differ(x, y, False)


def explore(ctx, p, limit, ways):
    ctx.count('states')
    message = check(p, limit, ways, ctx)
    if message:
        ctx.fail([p, limit, ways], message)


# -- What is enumerated -----------------------------------------------------
def units(tier):
    out = [['sources', d] for d in sorted(FILLS)]
    out += [['items', d, kind] for d in sorted(FILLS)
            for kind in ('stack', 'mosaic0', 'mosaic1')]
    for d in ('f4', 'S3') if tier != 'thorough' else sorted(FILLS):
        for i in range(len(bases(d))):
            if d != 'S3' or i in (0, 2, 5) or tier == 'thorough':
                out.append(['chains', d, i])
    return out


def run(unit, ctx):
    globals()['run_' + unit[0]](unit, ctx)


def run_sources(unit, ctx):
    d = unit[1]
    for n in range(len(FILLS[d])):
        for adapter in 'no':
            for container in CONTAINERS:
                for shape in ([2, 3], [3], [], [0, 2]):
                    p = ['s', adapter, container, shape, d, n, 1]
                    for limit in (None, 1, 2):
                        explore(ctx, p, limit, 'meb' if limit else 'mc')
                    if adapter == 'o' and not container.startswith('duck'):
                        continue     # (the source isn't orthogonal)
                    keys = list(K.nd_keys(shape, 'tiny'))
                    if ctx.tier == 'thorough':
                        keys += K.nd_keys(shape, 'small')
                    elif n == 1:
                        keys += K.single_keys(shape, 'small')
                    for k in K.unique(keys):
                        explore(ctx, ['idx', p, k], 2, 'me')
                    for q in (['T', p], ['bc', p],
                              ['idx', p, [['n'], ['k']]],
                              ['idx', p, [['k'], ['n']]]):
                        explore(ctx, q, 2, 'mec')
    ctx.sample([p, 2, 'me'])


def run_items(unit, ctx):
    _, d, kind = unit
    n = len(FILLS[d])
    for count in (1, 2, 3):
        few = n if count < 3 or ctx.tier == 'thorough' else min(n, 4)
        for fills in itertools.product(range(few), repeat=count):
            items = []
            for i, f in enumerate(fills):
                shape = [2, 2] if kind == 'stack' else \
                    [1 + i % 2, 2] if kind == 'mosaic0' else [2, 2 - i % 2]
                items.append(['s', 'n', CONTAINERS[i % 2 if f else 0],
                              shape, d, f, i])
            p = ['stack', items, [count]] if kind == 'stack' else \
                ['mosaic', items, int(kind[-1])]
            explore(ctx, p, 1, 'me')
            explore(ctx, p, None, 'c')
            small = [['idx', p, [0]], ['idx', p, [['s', 1, None, None]]],
                     ['idx', p, [['t', -1]]], ['T', p], ['bc', p],
                     ['idx', p, [['k'], -1]],
                     ['idx', p, [['s', None, None, -1], 0]],
                     ['idx', p, [['n'], ['k']]]]
            for q in small:
                explore(ctx, q, 2, 'me')
                if kind == 'stack' and q[0] == 'idx' and q[2] == [0]:
                    explore(ctx, ['stack', [q, items[-1]], [2]], 2, 'me')
                if count == 2:
                    explore(ctx, ['mosaic', [q, q], 0] if q[0] != 'bc' else
                            ['stack', [q, q], [2]], 1, 'me')
            if count == 3:
                again = ['stack', [p, p], [2]]
                explore(ctx, again, 2, 'm')
                explore(ctx, ['idx', again, [0, ['s', 0, 1, None]]], 2, 'm')
    ctx.sample([p, 1, 'me'])


def bases(d):
    """Arrays of which everything is indexed and viewed."""
    def s(n, i, shape=(2, 2), container='ma'):
        return ['s', 'n', container, list(shape), d, n, i]
    n = len(FILLS[d])
    return [s(1, 0, (2, 3)),
            ['stack', [s(1, 0), s(1, 1)], [2]],
            ['stack', [s(1, 0), s(n - 1, 1), s(1, 2)], [3]],
            ['stack', [s(0, 0, (2,)), s(1, 1, (2,)),
                       s(1, 0, (2,), 'duck'), s(1, 2, (2,))], [2, 2]],
            ['mosaic', [s(1, 0), s(1, 1, (1, 2))], 0],
            ['mosaic', [s(1, 0), s(n - 1, 1, (2, 1)), s(1, 1)], 1],
            ['mosaic', [['stack', [s(1, 0), s(1, 1)], [2]],
                        ['stack', [s(1, 0), s(n - 1, 1)], [2]]], 0],
            ['stack', [['mosaic', [s(1, 0), s(n - 1, 1)], 0],
                       ['mosaic', [s(1, 0), s(1, 1)], 0]], [2]],
            ['mosaic', [s(1, 0), s(n - 1, 1, (0, 2))], 0],
            ['mosaic', [s(1, 0, (0, 2)), s(1, 1, (2, 2))], 0]]


def run_chains(unit, ctx):
    _, d, i = unit
    base = bases(d)[i]
    todo = [(base, 0)]
    while todo:
        p, depth = todo.pop()
        m = model(p)
        explore(ctx, p, 2, 'me' if depth < 2 or ctx.tier == 'thorough'
                else 'm')
        if depth == 2 + (ctx.tier == 'thorough' and m.data.ndim < 3):
            continue
        nd = m.data.ndim
        out = [['T', p], ['bc', p], ['idx', p, [['n'], ['k']]],
               ['idx', p, [['k'], ['n']]]] if nd < 4 else []
        if ctx.tier == 'thorough':
            keys = K.nd_keys(m.data.shape,
                             'small' if depth == 0 and nd < 3 else 'tiny')
        elif depth == 0 and nd < 3:
            keys = itertools.chain(K.nd_keys(m.data.shape, 'tiny'),
                                   K.single_keys(m.data.shape, 'small'))
        else:
            keys = K.single_keys(m.data.shape, 'tiny')
        for k in K.unique(keys):
            out.append(['idx', p, k])
        for q in out:
            try:
                model(q)
            except R.Invalid:
                continue
            todo.append((q, depth + 1))
    ctx.sample([p, 2, 'm'])


def replay(case):
    return check(*case)
