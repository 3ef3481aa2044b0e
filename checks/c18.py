"""C18: invalid requests are refused, without reading any data."""
import itertools

import numpy as np

from mc import boot, evals, keys as K, progs, rec
from mc import ref as R
from mc import runtime
from checks import c04, c15

PROPERTY = 'C18'
COVERAGE = """
For an instance of every class, and of compositions of classes, directly and
after every index operation of an alphabet: every key with one invalid
component (out-of-range integers of several types, alone and within index
tuples and vectors; boolean vectors of the wrong length; floats, strings, other
objects; too many keys) in every dimension, combined with valid keys of several
kinds in the others; every aggregation over missing, out-of-range and
nonsensical axes; and stacks, mosaics, broadcasts, transpositions and
elementwise operations of inconsistent arrays. Each must raise an error, no
later than on evaluation, and no source may have been read. As a control, the
valid requests next to them must be accepted. states = requests, transitions =
operations.
"""
ASSUMPTIONS = [
    'integers much further out of range are treated like those enumerated']


class Thing(object):
    pass


def subjects():
    """Programs over recording sources."""
    a = progs.src([2, 3], 'i2', 'mix', None)
    o = progs.src([2, 3], 'f4', 'neg', 'third', 'ortho')
    out = list(c15.classes(False))
    out += [progs.src([0, 2], 'i4', 'mix'), ['zeros', [2, 0], 'i4'],
            ['mosaic', [progs.src([0, 2], 'i4', 'mix', None, 'ortho')], 0],
            ['mosaic', [['T', a, None], ['T', a, None]], 0],
            ['stack', [['idx', o, [0]], ['idx', o, [1]]], [2], 'C'],
            ['T', ['mosaic', [a, a], 0], None],
            ['as', ['stack', [a, a], [2], 'C'], 'f8'],
            ['idx', ['as', a, 'f8'], [['k'], ['n']]],
            ['meq', ['idx', ['const', [3], 2, 'i4'], [['n']]], 1],
            ['op', '-', ['idx', a, [['n']]], a],
            ['T', ['op', '+', a, a], [1, 0]],
            ['agg', 'std', ['mosaic', [o, o], 1], 0],
            ['idx', ['bc', ['idx', o, [['n']]], [[0, 3]], []],
             [['s', None, None, 2]]]]
    return out


def units(tier):
    out = []
    for i in range(len(subjects())):
        out.append(['keys', i, 0])
        out.append(['keys', i, 1])
        out.append(['axes', i])
    out += [['combine', what] for what in (
        'elementwise', 'stack', 'mosaic', 'broadcast', 'transpose', 'other',
        'save', 'setitem', 'construct')]
    return out


def run(unit, ctx):
    globals()['run_' + unit[0]](unit, ctx)


# -- Keys ---------------------------------------------------------------------
def bad_keys(n):
    """Keys which are invalid for a dimension of length n."""
    out = []
    for v in (n, -n - 1, n + 5, 1000, -1000):
        out += [v, np.int64(v), np.int16(v), (v,), np.array([v])]
        if n:
            out += [(0, v), (v, 0), (n - 1, v, 0), np.array([0, v])]
    for m in (n - 1, n + 1, n + 3):
        if m >= 0:
            for bits in set([(0,) * m, (1,) * m, (1,) + (0,) * (m - 1)
                             if m else ()]):
                out.append(np.array(bits, dtype=bool))
    out += [0.5, 'x', b'x', Thing(), 1j, np.float64(0), {0: 1}.get]
    out += [('x',), (0.5,) if n else (3.5,), (Thing(),)]
    out += [True, False, np.bool_(True), np.bool_(False)]
    # Lists, iterators, and vectors of more dimensions or of other types.
    out += [[n], [-n - 1], [0.5], ['x'], Again([n]), Again([0.5]),
            range(n, n + 1), np.array([[n]]), np.array([0.5]),
            np.array(['x']), np.array([None]), ((n,),), ([0],), [[0]],
            [None], (None,), (slice(None),), [Ellipsis]]
    if n:
        out += [[0, n], [n, 0], [n - 1, -n - 1, 0], Again([0, n]),
                range(0, n + 1), range(-n - 1, 0),
                np.array([[0]]), np.array([[True] * n]),
                np.array([0.0]), np.array([0, 0], dtype='c8'),
                ((0,),), ((0, 0), 0), np.array(['0']), (0, None), (0, 'x'),
                (0, slice(None)), [0, (0,)], [[0], [0]], (b'0',)]
    return out


class Again(object):
    """An iterable which is not a sequence."""

    def __init__(self, values):
        self.values = values

    def __iter__(self):
        return iter(self.values)

    def __repr__(self):
        return 'Again(%r)' % (self.values,)


def good_keys(n):
    out = [slice(None)]
    if n:
        out += [0, slice(None, None, -1), (n - 1, 0),
                np.arange(n) % 2 == 0]
    return out


def invalid(shape):
    nd = len(shape)
    few = [good_keys(n) for n in shape]
    for axis in range(nd):
        for bad in bad_keys(shape[axis]):
            # With the same kind of key in all other dimensions.
            for j in range(5):
                yield tuple(bad if i == axis else few[i][j % len(few[i])]
                            for i in range(nd))
            if axis == 0 and not isinstance(bad, tuple):
                yield bad
            if axis == nd - 1:
                yield (Ellipsis, bad)
                yield (Ellipsis, np.newaxis, bad)
            if axis == 0:
                yield (np.newaxis, bad)
                yield (bad, Ellipsis)
    # Too many.
    for extra in (slice(None), 0, (0,), -1):
        yield (slice(None),) * nd + (extra,)
        yield (Ellipsis,) + (slice(None),) * nd + (extra,)
        yield (np.newaxis,) + (slice(None),) * nd + (extra,)
        if all(shape):
            yield (0,) * nd + (extra,)
            yield (slice(0, 1),) * nd + (extra, extra)


def valid_first(shape):
    """Valid keys to apply before."""
    nd = len(shape)
    yield ()
    for key in K.single_keys(shape, 'tiny'):
        yield R.dec_keys(key)
    yield (np.newaxis,)
    yield (Ellipsis, np.newaxis)
    if nd and all(shape):
        yield (0,) * nd


def build(biggus, p, made):
    return rec.recording_builder(biggus, True, made).build(p)


def describe_key(key):
    return repr(key)


def run_keys(unit, ctx):
    what, i, chained = unit
    biggus = boot.load()
    p = subjects()[i]
    model = R.Model()
    shape = model.eval(p).nd.shape
    boot.set_limit(2)
    made = []
    array = build(biggus, p, made)
    for k1, first in enumerate(valid_first(shape)):
        if chained == (k1 == 0):
            continue
        try:
            x = array[first] if first else array
            shape1 = R.index(model.eval(p).nd, first).shape
        except (NotImplementedError, R.Invalid):
            continue
        todo = list(invalid(shape1))
        if chained and ctx.tier != 'thorough':
            todo = todo[k1 % 2::2]
        for k2, key in enumerate(todo):
            ctx.count('states')
            ctx.count('transitions', 2 if first else 1)
            message = refuse_key(x, key, made)
            if message is None:
                ctx.count('traces_validated_against_impl')
            else:
                ctx.fail(['keys', p, k1, describe_key(key)],
                         'index %s of shape %s %s%s' % (
                             key, shape1, 'after %s ' % (first,) if first
                             else '', message))
    ctx.sample(['keys', p, k1, describe_key(key)])
    boot.set_limit(boot.DEFAULT_LIMIT)


def refuse_key(x, key, made):
    return refused(lambda: x[key], made)


def refused(make, made):
    """None, or what's wrong: make() must raise, or make something which
    can't be evaluated; without reading."""
    try:
        y = make()
    except Exception as e:
        if any(s.reads for s in made):
            return 'has read data before it was refused'
        return None
    values = []
    for f in ('ndarray', 'masked_array'):
        try:
            values.append(runtime.result(getattr(y, f)))
        except runtime.MCDeadlock as e:
            return 'hangs when evaluated'
        except Exception:
            pass
    reads = any(s.reads for s in made)
    for s in made:
        del s.reads[:]
    if values:
        return 'is accepted, and gives %s' % R._s(values[0])[:200]
    if reads:
        return 'has read data before it was refused'


# -- Axes ---------------------------------------------------------------------
def run_axes(unit, ctx):
    what, i = unit
    biggus = boot.load()
    p = subjects()[i]
    nd = R.Model().eval(p).nd.ndim
    made = []
    array = build(biggus, p, made)
    boot.set_limit(2)
    for fn in progs.FNS:
        f = getattr(biggus, fn)
        for name, args, kwargs in [
                ('none', (None,), {}), ('missing', (), {})] + [
                ('axis %r' % (a,), (a,), {}) for a in (
                    nd, nd + 1, -nd - 1, 100, -100, (0, 1), (0, nd), 'x',
                    0.5, Thing())]:
            ctx.count('states')
            ctx.count('transitions')
            message = refused(lambda: f(array, *args, **kwargs), made)
            if message:
                ctx.fail(['axes', p, fn, name],
                         '%s over %s of a %d-dimensional array %s' % (
                             fn, name, nd, message))
            else:
                ctx.count('traces_validated_against_impl')
    boot.set_limit(boot.DEFAULT_LIMIT)


# -- Combinations -------------------------------------------------------------
def a_(shape, dtype='i4', kind='ortho'):
    return progs.src(shape, dtype, 'mix', None, kind)


def run_combine(unit, ctx):
    biggus = boot.load()
    boot.set_limit(2)
    for k, (name, make, ok) in enumerate(combinations(biggus, unit[1])):
        ctx.count('states')
        ctx.count('transitions')
        made = []

        def builder(p):
            return rec.recording_builder(biggus, True, made).build(p)
        if ok:
            message = accepted(lambda: make(builder))
        else:
            message = refused(lambda: make(builder), made)
        if message:
            ctx.fail(['combine', unit[1], k, name], '%s %s' % (name, message))
        else:
            ctx.count('traces_validated_against_impl')
    ctx.sample(['combine', unit[1], k, name])
    boot.set_limit(boot.DEFAULT_LIMIT)


def accepted(make):
    try:
        runtime.result(lambda: make().ndarray())
    except Exception as e:
        return 'is refused: ' + evals.describe(e)


SHAPES = [[], [1], [2], [3], [0], [1, 1], [2, 3], [3, 2], [1, 3], [2, 1],
          [0, 3], [2, 0], [2, 2, 3], [1, 2, 3], [2, 1, 3]]


def combinations(g, what):
    """(name, function of a build function, whether it's valid)"""
    out = []
    if what == 'elementwise':
        for s1, s2 in itertools.product(SHAPES, repeat=2):
            try:
                np.broadcast(np.zeros(s1), np.zeros(s2))
                ok = True
            except ValueError:
                ok = False
            for fn in ('add', 'power', 'greater'):
                out.append(('%s of %s and %s' % (fn, s1, s2),
                            lambda b, fn=fn, s1=s1, s2=s2: getattr(g, fn)(
                                b(a_(s1)), b(a_(s2, 'f4'))), ok))
            if not ok:
                out.append(('%s - NumPy %s' % (s1, s2), lambda b, s1=s1, s2=s2:
                            b(a_(s1)) - np.zeros(s2), False))
        for bad in ('x', Thing(), [1, 2], None, {}):
            for op in R.OPS.values():
                out.append(('operator with %r' % (bad,),
                            lambda b, op=op, bad=bad: op(b(a_([2])), bad),
                            False))
                out.append(('operator with %r' % (bad,),
                            lambda b, op=op, bad=bad: op(bad, b(a_([2]))),
                            False))
    elif what == 'stack':
        for s1, s2 in itertools.product(SHAPES, repeat=2):
            for d2 in ('i4', 'f4', 'i8'):
                ok = s1 == s2 and d2 == 'i4'

                def make(b, s1=s1, s2=s2, d2=d2):
                    return g.ArrayStack.multidim_array_stack(
                        [b(a_(s1)), b(a_(s2, d2, 'np'))], (2,))

                def make2(b, s1=s1, s2=s2, d2=d2):
                    x = np.empty((1, 3), dtype=object)
                    x[0, 0] = x[0, 1] = b(a_(s1))
                    x[0, 2] = b(a_(s2, d2, 'np'))
                    return g.ArrayStack(x)
                out.append(('stack of %s and %s %s' % (s1, s2, d2), make, ok))
                out.append(('stack of 2 x %s and %s %s' % (s1, s2, d2), make2,
                            ok))
        for n in (1, 2, 3, 4, 6):
            for shape in ((1,), (2,), (3,), (2, 2), (3, 2), (1, 2, 2)):
                for order in 'CF':
                    def make3(b, n=n, shape=shape, order=order):
                        return g.ArrayStack.multidim_array_stack(
                            [b(a_([2])) for _ in range(n)], shape, order)
                    out.append(('stack %s of %d items' % (shape, n), make3,
                                n == np.prod(shape)))
    elif what == 'mosaic':
        for s1, s2 in itertools.product(SHAPES, repeat=2):
            for axis in range(0, 4):
                for d2 in ('i4', 'f4', 'u4'):
                    ok = len(s1) == len(s2) > axis and d2 == 'i4' and \
                        s1[:axis] + s1[axis + 1:] == s2[:axis] + s2[axis + 1:]

                    def make(b, s1=s1, s2=s2, axis=axis, d2=d2):
                        return g.LinearMosaic([b(a_(s1)), b(a_(s2, d2))],
                                              axis)

                    def make2(b, s1=s1, s2=s2, axis=axis, d2=d2):
                        return g.LinearMosaic([b(a_(s1)), b(a_(s1)),
                                               b(a_(s2, d2))], axis)
                    out.append(('mosaic along %d of %s and %s %s' % (
                        axis, s1, s2, d2), make, ok))
                    out.append(('mosaic along %d of 2 x %s and %s %s' % (
                        axis, s1, s2, d2), make2, ok))
        out.append(('mosaic of nothing', lambda b: g.LinearMosaic([], 0),
                    False))
    elif what == 'broadcast':
        for s in SHAPES:
            for axis in range(-1, 4):
                for n in (-1, 0, 2):
                    ok = 0 <= axis < len(s) and s[axis] == 1 and n >= 0
                    if axis < 0:
                        continue
                    out.append(('broadcast of axis %d of %s to %d' % (
                        axis, s, n), lambda b, s=s, axis=axis, n=n:
                        g.BroadcastArray(b(a_(s)), {axis: n}, ()), ok))
        for s in SHAPES[1:]:
            for lead in ((-1,), (2, -1), (-3, 2)):
                out.append(('leading shape %s of %s' % (lead, s),
                            lambda b, s=s, lead=lead: g.BroadcastArray(
                                b(a_(s)), {}, lead), False))
    elif what == 'transpose':
        for s in SHAPES:
            nd = len(s)
            for m in range(1, 5):
                for axes in itertools.product(range(-3, 4), repeat=m):
                    if m > nd + 1 or (m > 3 and 0 not in axes):
                        continue
                    ok = m == nd and all(-nd <= a < nd for a in axes) and \
                        sorted(a % nd for a in axes) == list(range(nd))
                    if nd == 3 and m == 4:
                        continue
                    out.append(('transpose of %s to %s' % (s, axes),
                                lambda b, s=s, axes=axes:
                                b(a_(s)).transpose(axes), ok))
    elif what == 'save':
        for sources, targets in itertools.product(
                lists((2, 3)), lists((2, 3))):
            for masked in (False, True):
                out.append((
                    'save of %s to %s%s' % (sources, targets,
                                            ' masked' * masked),
                    lambda b, s=sources, t=targets, masked=masked: saved(
                        g, b, s, t, masked),
                    len(sources) == len(targets) == 1))
    elif what == 'setitem':
        out += setitems(g)
    elif what == 'construct':
        out += constructions(g)
    elif what == 'other':
        for s in SHAPES:
            out += [
                ('stack of numbers', lambda b:
                 g.ArrayStack(np.array([1, 2])), False),
                ('constant of negative length', lambda b:
                 g.ConstantArray((-1,), 0)[0], False),
                ('ddof', lambda b, s=s: g.std(b(a_(s)), 'x'), False)]
    return out


def lists(shape):
    """Lists of up to 3 shapes."""
    for n in range(4):
        yield [shape] * n


class Unsaved(Exception):
    pass


def saved(g, b, sources, targets, masked):
    """
    Save, and raise Unsaved unless every source has been saved to its target.
    (Saving nothing would be acceptable only if there's nothing to save.)
    """
    arrays = [b(progs.src(s, 'i4', ('mix', 'neg', 'from1')[i], None, 'ortho'))
              for i, s in enumerate(sources)]
    made = [rec.RecTarget(s, np.dtype('i4'), masked) for s in targets]
    g.save(arrays, made, masked)
    if len(arrays) != len(made) or not arrays:
        return g.ConstantArray((), 0)
    for array, target in zip(arrays, made):
        if (target.times != 1).any() or (
                target.data != array.ndarray().ravel()).any():
            return g.ConstantArray((), 0)
    if len(arrays) > 1:
        raise Unsaved('all have been saved')
    return arrays[0]


def setitems(g):
    out = []

    def stack(b, shape, item=(2,)):
        items = np.empty(shape, dtype=object)
        for i in np.ndindex(*shape):
            items[i] = b(a_(item))
        return g.ArrayStack(items)

    def replace(b, shape, key, value, item=(2,)):
        x = stack(b, shape, item)
        x[key] = value(b)
        return x
    good = lambda b: b(a_([2], 'i4', 'np'))
    for shape in ((2,), (1,), (3,), (2, 2), (1, 3)):
        nd = len(shape)
        zero = (0,) * nd
        values = [('shape %s' % s, lambda b, s=s: b(a_(s)), s == [2])
                  for s in SHAPES]
        values += [('dtype %s' % d, lambda b, d=d: b(a_([2], d)), d == 'i4')
                   for d in ('i4', 'i2', 'i8', 'u4', 'f4', 'f8', '?')]
        values += [(repr(v), lambda b, v=v: v, False) for v in (
            None, 1, 'x', Thing(), [1, 2], (1, 2), np.zeros(2, 'i4'),
            np.ma.zeros(2, 'i4'))]
        for name, value, ok in values:
            out.append(('item %s of a stack %s := %s' % (
                zero, shape, name), lambda b, shape=shape, key=zero,
                value=value: replace(b, shape, key, value), ok))
        ends = [range(-n - 1, n + 1) for n in shape]
        for key in itertools.product(*ends):
            ok = all(-n <= k < n for k, n in zip(key, shape))
            out.append(('item %s of a stack %s' % (key, shape),
                        lambda b, shape=shape, key=key: replace(
                            b, shape, key, good), ok))
        bad = [slice(None), 0.5, 'x', None, (0,), Ellipsis, [0], True,
               np.array([0])]
        for k in bad:
            for axis in range(nd):
                key = zero[:axis] + (k,) + zero[axis + 1:]
                out.append(('item %s of a stack %s' % (key, shape),
                            lambda b, shape=shape, key=key: replace(
                                b, shape, key, good), False))
        for key in (zero + (0,), zero + (0, 0), zero[1:],
                    zero + (slice(None),)):
            out.append(('item %s of a stack %s' % (key, shape),
                        lambda b, shape=shape, key=key: replace(
                            b, shape, key, good), False))
    return out


def constructions(g):
    out = []
    for s in ((2,), (2, 3), (0,), (2, 1, 3)):
        data = np.arange(int(np.prod(s))).reshape(s)
        for kind in ('NumpyArrayAdapter', 'OrthoArrayAdapter'):
            cls = getattr(g, kind)
            for axis, n in enumerate(s):
                for bad in bad_keys(n):
                    key = (slice(None),) * axis + (bad,)
                    out.append(('%s of %s with keys %r' % (kind, s, key),
                                lambda b, cls=cls, key=key, data=data:
                                cls(data, key), False))
                for k in K.mid(n):
                    key = (slice(None),) * axis + (R.dec_key(k),)
                    out.append(('%s of %s with keys %r' % (kind, s, key),
                                lambda b, cls=cls, key=key, data=data:
                                cls(data, key), True))
            out.append(('%s of %s with too many keys' % (kind, s),
                        lambda b, cls=cls, s=s, data=data: cls(
                            data, (slice(None),) * (len(s) + 1)), False))
    for s in SHAPES:
        nd = len(s)
        for m in range(nd + 3):
            for counts in itertools.product((0, 1, -1), repeat=m):
                if m > 3 and -1 in counts[1:]:
                    continue
                out.append(('new axes %s of %s' % (counts, s),
                            lambda b, s=s, counts=counts: g._init.NewAxesArray(
                                b(a_(s)), counts),
                            m == nd + 1 and -1 not in counts))
        for bad in ([0.5] * (nd + 1), ['x'] * (nd + 1), [1.0] * (nd + 1)):
            out.append(('new axes %s of %s' % (bad, s),
                        lambda b, s=s, bad=bad: g._init.NewAxesArray(
                            b(a_(s)), bad), False))
        for dtype in ('i4', 'f8', None):
            out.append(('%s as %s' % (s, dtype), lambda b, s=s, dtype=dtype:
                        b(a_(s)).astype(dtype), True))
        for dtype in ('nonsense', 5, Thing(), ['i4', 'i4']):
            out.append(('%s as %s' % (s, dtype), lambda b, s=s, dtype=dtype:
                        b(a_(s)).astype(dtype), False))
    for x in (3, 2.5, True, np.float32(2), np.arange(3), np.ma.arange(3),
              np.array(3)):
        out.append(('array from %r' % (x,), lambda b, x=x: g.ensure_array(x),
                    True))
    for x in ([1, 2], (1,), None, {}, Thing(), range(3), [[1]]):
        out.append(('array from %r' % (x,), lambda b, x=x: g.ensure_array(x),
                    False))
    return out


def replay(case):
    biggus = boot.load()
    boot.set_limit(2)
    if case[0] == 'keys':
        what, p, k1, text = case
        made = []
        array = build(biggus, p, made)
        shape = R.Model().eval(p).nd.shape
        first = list(valid_first(shape))[k1]
        x = array[first] if first else array
        shape1 = R.index(R.Model().eval(p).nd, first).shape
        for key in invalid(shape1):
            if describe_key(key) == text or (
                    ' object at 0x' in text and
                    describe_key(key).split(' at 0x')[0] ==
                    text.split(' at 0x')[0]):
                message = refuse_key(x, key, made)
                if message:
                    return message
        return None
    if case[0] == 'axes':
        ctx = Recorder()
        for i, p in enumerate(subjects()):
            if p == case[1]:
                run_axes(['axes', i], ctx)
        return ctx.found.get(tuple(case[2:]))
    ctx = Recorder()
    run_combine(['combine', case[1]], ctx)
    return ctx.found.get(tuple(case[2:]))


class Recorder(object):
    tier = 'quick'

    def __init__(self):
        self.found = {}

    def count(self, *args):
        pass

    sample = count

    def fail(self, case, message):
        self.found[tuple(case[2:])] = message
