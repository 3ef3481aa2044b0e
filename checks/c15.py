"""C15: declared shape, data type and size are those of the result."""
import itertools

import numpy as np
import numpy.ma as ma

from mc import boot, evals, keys as K, progs, rec
from mc import ref as R
from mc import runtime
from checks import c04

PROPERTY = 'C15'
COVERAGE = """
(a) All expression trees of the stated depth over an alphabet of about 40
operations on sources of 12 data types and 0 to 3 dimensions, (b) every
elementwise function and operator with every (pair of) data types, also with
Python and NumPy numbers, (c) every aggregation, view, stack and mosaic with
every data type and every cast between data types, (d) all keys of an alphabet
applied to instances of every class: the declared shape, ndim, dtype and nbytes
are compared with those of the plain and masked evaluation (method and engine),
and numpy.asarray with the plain evaluation; views and indexing must retain the data type. states = arrays, transitions =
evaluations.
"""
ASSUMPTIONS = ['the declared values of an array do not depend on the values of '
               'its sources']
DTYPES = ('?', 'i1', 'u1', 'i2', 'i4', 'u4', 'i8', 'u8', 'f2', 'f4', 'f8',
          'c8', 'c16', 'S3', '>i4', '>f8')

LEAVES = [([2, 3], 'i4'), ([3], 'f4'), ([2, 1, 2], 'u1'), ([], 'f8'),
          ([0, 2], 'i8'), ([2], '?'), ([4], 'c8'), ([2, 2], 'i2')]


def units(tier):
    out = []
    for i in range(len(LEAVES)):
        for masked in (False, True):
            out.append(['trees', i, masked, 1, 0, 1])
            for part in range(4):
                out.append(['trees', i, masked, 2, part,
                            4 if tier == 'thorough' else 8])
            if tier == 'thorough' and i < 2:
                for part in range(48):
                    out.append(['few', i, masked, 3, part, 48])
    for fn in c04.UNARY:
        out.append(['unary', fn])
    for fn in c04.BINARY + list(c04.OPS):
        out.append(['binary', fn])
    for d in DTYPES:
        out.append(['typed', d])
    for i in range(len(classes(False))):
        for masked in (False, True):
            out.append(['keys', i, masked])
    return out


def run(unit, ctx):
    globals()['run_' + unit[0]](unit, ctx)


def explore(ctx, p, limit, masked, ways='me'):
    ctx.count('states')
    message = check(p, limit, masked, ways, ctx)
    if message:
        ctx.fail([p, limit, masked, ways], message)


def check(p, limit, masked, ways, ctx=None):
    biggus = boot.load()

    def go():
        try:
            array = R.Builder(biggus).build(p)
        except Exception:
            return None      # refused: another property's business
        if isinstance(array, (np.ndarray, int, float)):
            return None
        declared = metadata(array)
        message = sane(declared)
        if message:
            return message
        if p[0] in ('idx', 'T', 'bc'):
            dtype = R.Builder(biggus).build(p[1]).dtype
            if dtype != declared[2]:
                return 'data type %r has become %r' % (dtype, declared[2])
        for way in ways:
            for m in (False, True):
                try:
                    if way == 'm':
                        x = array.masked_array() if m else array.ndarray()
                    elif way == 'e':
                        x, = (biggus.masked_arrays if m else
                              biggus.ndarrays)([array])
                    elif m:
                        continue
                    else:
                        x = np.asarray(array)
                except Exception as e:
                    continue    # another property's business
                if ctx is not None:
                    ctx.count('transitions')
                    ctx.count('traces_validated_against_impl')
                message = agrees(declared, x, m)
                if message:
                    return '%s, %s: %s' % (
                        dict(m='method', e='engine', a='asarray')[way],
                        'masked' if m else 'plain', message)
                if way == 'a':
                    message = same(x, array.ndarray())
                    if message:
                        return message
                if metadata(array) != declared:
                    return 'the declared values have changed: %r, were %r' % (
                        metadata(array), declared)
    boot.set_limit(limit or boot.DEFAULT_LIMIT)
    try:
        return runtime.result(go)
    except runtime.MCDeadlock:
        return None
    except Exception as e:
        return 'raised ' + evals.describe(e)
    finally:
        boot.set_limit(boot.DEFAULT_LIMIT)


def metadata(array):
    return (array.shape, array.ndim, array.dtype, array.nbytes)


def sane(declared):
    shape, ndim, dtype, nbytes = declared
    if not isinstance(shape, tuple) or not all(
            isinstance(n, (int, np.integer)) for n in shape):
        return 'the declared shape is not a tuple of integers: %r' % (shape,)
    if not isinstance(dtype, np.dtype):
        return 'the declared data type is not a data type: %r' % (dtype,)


def agrees(declared, x, masked):
    shape, ndim, dtype, nbytes = declared
    if masked:
        if not isinstance(x, ma.MaskedArray) or x is ma.masked:
            return 'evaluated to %r' % type(x)
    elif type(x) is not np.ndarray:
        return 'evaluated to %r' % type(x)
    if x.shape != shape or x.ndim != ndim:
        return 'declared shape %r, ndim %r, evaluated shape %r' % (
            shape, ndim, x.shape)
    if not R.same_dtype(x.dtype, dtype):
        return 'declared dtype %r, evaluated %r' % (dtype, x.dtype)
    if ma.getdata(x).nbytes != nbytes:
        return 'declared nbytes %r, evaluated %r' % (nbytes,
                                                     ma.getdata(x).nbytes)


def same(x, y):
    if x.shape != y.shape or x.dtype != y.dtype:
        return 'asarray: %r %r, ndarray: %r %r' % (x.shape, x.dtype, y.shape,
                                                   y.dtype)
    if R._values_differ(x, y, True):
        return 'asarray: %s, ndarray: %s' % (x, y)


def run_trees(unit, ctx):
    what, i, masked, depth, part, parts = unit
    shape, dtype = LEAVES[i]
    mask = 'third' if masked else None
    base = progs.src(shape, dtype, 'mix', mask)
    model = R.Model()
    todo = [(base, 0)]
    n = 0
    while todo:
        p, d = todo.pop()
        if d == depth:
            n += 1
            if n % parts == part:
                explore(ctx, p, 2, masked, 'mea' if depth < 2 else 'e')
                if depth < 2:
                    explore(ctx, p, None, masked, 'm')
                ctx.sample([p, 2, masked, 'me'])
            continue
        if len(model.cache) > 4000:
            model.cache.clear()
        try:
            ref = model.eval(p)
        except R.Invalid:
            continue
        for q in (progs.few_steps(p, ref, mask) if what == 'few' else
                  progs.steps(p, ref, True, mask)):
            todo.append((q, d + 1))


run_few = run_trees


def run_unary(unit, ctx):
    for d in DTYPES:
        for shape in ([2], []):
            for mask in (None, 'alt'):
                explore(ctx, ['un', unit[1], progs.src(
                    shape, d, [1, 0, 1], mask)], 1, mask is not None)


def run_binary(unit, ctx):
    fn = unit[1]
    for d1 in DTYPES:
        a = progs.src([2], d1, [1, 2], 'alt')
        for d2 in DTYPES:
            b = progs.src([2], d2, [2, 1], None)
            explore(ctx, c04.expression(fn, a, b), 1, True, 'm')
            if ctx.tier == 'thorough':
                explore(ctx, c04.expression(
                    fn, a, progs.src([], d2, [2], None)), 1, True, 'me')
                explore(ctx, c04.expression(
                    fn, a, ['npa', [2], d2, [1, 2], None]), 1, True, 'm')
        for number in (2, 1.5, True, -1, 300, 2 ** 40):
            explore(ctx, c04.expression(fn, a, ['py', number]), 1, True, 'm')
            explore(ctx, c04.expression(fn, ['py', number], a), 1, True, 'm')
            explore(ctx, ['idx', c04.expression(fn, a, ['py', number]), [0]],
                    1, True, 'me')
    ctx.sample([c04.expression(fn, a, b), 1, True, 'me'])


def run_typed(unit, ctx):
    d = unit[1]
    for shape in ([2, 3], [3], [0, 2], [2, 0]):
        for mask in (None, 'none', 'third', 'all'):
            a = progs.src(shape, d, [1, 0, 2, 1], mask)
            nd = len(shape)
            todo = [a]
            for axis in range(nd):
                for fn in progs.FNS:
                    todo.append(['agg', fn, a, axis])
                    for kw in ({'mdtol': 0.3}, {'mdtol': 0}):
                        if fn == 'mean':
                            todo.append(['agg', fn, a, axis, kw])
                    for ddof in (0, 1, 2):
                        if fn in ('std', 'var'):
                            todo.append(['agg', fn, a, axis, {'ddof': ddof}])
            for e in DTYPES:
                todo.append(['as', a, e])
                todo.append(['as', ['as', a, e], 'f4'])
                todo.append(['as', ['un', 'negative', a], e])
                todo.append(['stack', [a, progs.src(shape, e, [1], None)],
                             [2], 'C'])
                todo.append(['mosaic', [a, progs.src(shape, e, [1], None)],
                             0])
            todo += [['meq', a, 1], ['T', a, None],
                     ['idx', a, [['k'], ['n']]], ['bc', a, [], [2]],
                     ['idx', a, [['t', 0, 0]]], ['idx', a, [0]],
                     ['idx', a, [0] * nd], ['idx', a, [['k'], -1]]]
            todo += [['const', shape, 1, d], ['zeros', shape, d],
                     ['ones', shape, d], ['idx', ['ones', shape, d], [0]],
                     ['const', shape[:1], 1, d],
                     ['idx', ['const', shape, 1, d], [['k'], ['n']]]]
            for p in todo:
                for limit in (1, 3, None):
                    explore(ctx, p, limit, mask is not None,
                            'me' if limit == 1 else 'e')
    ctx.sample([p, 1, True, 'me'])


def classes(masked):
    """An instance of every class (and combinations)."""
    mask = 'third' if masked else None
    a = progs.src([2, 3], 'i2', 'mix', mask)
    o = progs.src([2, 3], 'f4', 'neg', mask, 'ortho')
    c = progs.src([2, 1, 3], 'f4', 'neg', mask, 'ortho')
    return [a, o, progs.src([], 'i4', 'mix', mask), ['const', [2, 3], 7, 'i2'],
            ['const', [2, 3], 'ab', 'U5'], ['const', [3, 2], 1, 'f2'],
            progs.src([2, 3], 'S4', 'mix', mask),
            progs.src([2, 3], '>i4', 'mix', mask, 'ortho'),
            ['T', a, None], ['T', c, [2, 0, 1]],
            ['idx', a, [['n'], ['k'], ['n']]], ['bc', c, [[1, 2]], [2]],
            ['as', a, 'f4'], ['meq', a, 3], ['stack', [a, a], [2], 'C'],
            ['stack', [o, o, o, o], [2, 2], 'F'], ['mosaic', [a, a], 1],
            ['mosaic', [c, c], 1], ['op', '+', a, o], ['un', 'negative', a],
            ['op', '*', a, ['py', 2]], ['bin', 'greater', a, o],
            ['agg', 'mean', a, 0], ['agg', 'count', c, 2],
            ['agg', 'sum', ['op', '+', a, o], 1],
            ['mosaic', [['op', '+', o, o], o], 0],
            ['stack', [['agg', 'mean', o, 0], ['agg', 'max', o, 0]], [2], 'C']]


def run_keys(unit, ctx):
    p = classes(unit[2])[unit[1]]
    model = R.Model()
    shape = model.eval(p).nd.shape
    level = 'small' if len(shape) < 3 and ctx.tier == 'thorough' else 'tiny'
    for k in K.unique(K.nd_keys(shape, level)):
        q = ['idx', p, k]
        try:
            model.eval(q)
        except R.Invalid:
            continue
        explore(ctx, q, 2, unit[2], 'm')
    ctx.sample([q, 2, unit[2], 'me'])


def replay(case):
    return check(*case)
