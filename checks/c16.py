"""C16: no side effects on sources, and repeatable results."""
import copy
import itertools

import numpy as np
import numpy.ma as ma

from mc import boot, evals, progs, rec
from mc import ref as R
from mc import runtime

PROPERTY = 'C16'
COVERAGE = """
Universes of three to eight arrays which share sources (plain, masked with and
without a mask array, with shared and hard masks, own fill values, read-only,
behind an adapter of either kind): every aggregation along every axis, every
kind of view, stacks, mosaics, elementwise operations. For each, all histories
up to the depth bound of: evaluating an array (plain, masked, method, engine),
batches, saving, indexing and evaluating, shallow and deep copying and
evaluating, inspecting, evaluating while a source fails, changing the piece
limit. After every operation the data, mask, fill value and flags of every
source are compared with the original, and every result with that of a fresh
universe; after each history everything is evaluated again. states =
histories, transitions = operations.
"""
ASSUMPTIONS = [
    'a state change which has an effect only after more operations than the '
    'depth bound is not found',
    'results are compared with those in a fresh universe']


class Boom(Exception):
    pass


def source_kinds():
    return ['plain', 'masked', 'nomask', 'hard', 'shared', 'fill', 'readonly',
            'ortho']


def make(kind, shape, dtype='f4', pattern='mix'):
    data = R.make_data(shape, dtype, pattern)
    m = np.arange(data.size).reshape(data.shape) % 3 == 1
    if kind == 'plain':
        return data
    if kind == 'masked' or kind == 'ortho':
        return ma.array(data, mask=m)
    if kind == 'nomask':
        return ma.array(data)
    if kind == 'hard':
        return ma.array(data, mask=m, hard_mask=True)
    if kind == 'shared':
        return ma.array(data, mask=m)[:]
    if kind == 'fill':
        return ma.array(data, mask=m, fill_value=77)
    if kind == 'readonly':
        data.flags.writeable = False
        return data
    raise ValueError(kind)


class Universe(object):
    def __init__(self, biggus, which, kind, dtype, keep=None):
        self.biggus = biggus
        shape = [2, 3]
        self.data = [make(kind, shape, dtype),
                     make('plain' if kind == 'ortho' else kind, shape, dtype,
                          'neg')]
        self.frozen = [snapshot(d) for d in self.data]
        self.sources = [R.Source(d, kind == 'ortho') if kind == 'ortho' or
                        which == 'wrapped' else d for d in self.data]
        adapter = biggus.OrthoArrayAdapter if kind == 'ortho' else \
            biggus.NumpyArrayAdapter
        a, b = [adapter(s) for s in self.sources]
        self.arrays = [a, b] + arrays(biggus, which, a, b)
        if keep is not None:
            self.arrays = [self.arrays[i] for i in keep]

    def unchanged(self):
        for d, f in zip(self.data, self.frozen):
            now = snapshot(d)
            if now != f:
                what = [name for name, x, y in zip(SNAPSHOT, now, f)
                        if x != y]
                return 'the %s of a source changed' % ' and '.join(what)


SNAPSHOT = ('data', 'mask', 'fill value', 'type', 'shape', 'flags',
            'sharing of the mask', 'hardness of the mask')


def snapshot(d):
    m = ma.isMaskedArray(d)
    return (ma.getdata(d).tobytes(),
            ma.getmaskarray(d).tobytes() if m else None,
            repr(d.fill_value) if m else None, str(d.dtype), d.shape,
            ma.getdata(d).flags.writeable,
            None, m and d.hardmask)


def arrays(g, which, a, b):
    if which[0] == 'agg':
        _, fn, axis = which
        kw = {'ddof': 1} if fn == 'var' else {'mdtol': 0.4} if fn == 'mean' \
            else {}
        return [getattr(g, fn)(a, axis, **kw),
                getattr(g, fn)(g.add(a, b), axis, **kw)]
    if which == 'views':
        return [g.masked_equal(a, 3), a.transpose(), a[:, np.newaxis],
                g.BroadcastArray(a[np.newaxis], {0: 2}, (2,)),
                a.astype('f8'), a[::-1, (2, 0)], a[0, 1], a[1]]
    if which == 'containers':
        stack = np.empty(2, dtype=object)
        stack[0], stack[1] = a, b
        return [g.ArrayStack(stack), g.LinearMosaic([a, b, a], 1),
                g.ArrayStack.multidim_array_stack([a, b, b, a], (2, 2)),
                g.LinearMosaic([g.masked_equal(a, 3), b], 0)]
    if which in ('wrapped', 'elementwise'):
        return [a + b, a - a[0], g.negative(g.masked_equal(a, 3)),
                a * 2, g.absolute(a[:, ::-1]) * b[1],
                g.mean(a - g.mean(a, 0), 1), g.max(a * a, 0) - 1]
    if which == 'nested':
        return [g.sum(g.mean(a, 0), 0), g.max(g.masked_equal(a, 3), 0),
                g.min(g.LinearMosaic([a, b], 0), 0),
                g.count(g.masked_equal(a, 3), 1) + g.count(b, 1)]
    raise ValueError(which)


def operations(n, small=False):
    """The alphabet of operations on a universe of n arrays."""
    out = []
    for i in range(n):
        out += [('plain', i), ('masked', i), ('fail', i)]
        if not small:
            out += [('save', i), ('smask', i), ('index', i), ('copies', i),
                    ('inspect', i)]
    out += [('batch', 0), ('mbatch', 0), ('limit', 1), ('limit', 2)]
    if not small:
        out += [('rbatch', 0), ('deepall', 0), ('limit', None)]
    else:
        out += [('copies', n - 1), ('index', n - 1), ('save', n - 1)]
    return out


def units(tier):
    out = []
    big = tier == 'thorough'
    for fn in progs.FNS:
        for axis in (0, 1):
            for kind in source_kinds():
                deep = big or kind == ('masked' if axis else 'ortho')
                out.append([['agg', fn, axis], kind, 'f4',
                            [0, 2, 3] if big else [2, 3], 2 if deep else 1])
    for which in ('views', 'containers', 'elementwise', 'nested', 'wrapped'):
        for kind in source_kinds():
            out.append([which, kind, 'f4', None, 2 if big else 1])
        out.append([which, 'masked', 'i2', None, 1])
    for which, n in (('views', 8), ('containers', 4), ('elementwise', 7),
                     ('nested', 4)):
        for kind in ('fill', 'ortho'):
            for i in range(n):
                out.append([which, kind, 'i4', [0, 2 + i], 2])
                if big:
                    out.append([which, kind, 'i4', [0, 2 + i], 3])
    for fn in ('mean', 'max'):
        out.append([['agg', fn, 0], 'ortho', 'f4', [2], 3])
    if big:
        for fn in progs.FNS:
            for axis in (0, 1):
                for kind in source_kinds():
                    out.append([['agg', fn, axis], kind, 'i4', [0, 2], 3])
    out.sort(key=lambda u: -u[-1])
    return out


def run(unit, ctx):
    which, kind, dtype, keep, depth = unit
    which = tuple(which) if isinstance(which, list) else which
    biggus = boot.load()
    boot.set_limit(boot.DEFAULT_LIMIT)
    base = Baseline(biggus, which, kind, dtype, keep)
    n = len(base.fresh().arrays)
    for d in range(1, depth + 1):
        ops = operations(n, d > 2)
        for history in itertools.product(ops, repeat=d):
            ctx.count('states')
            ctx.count('transitions', d)
            message = check(base, history)
            if message is None:
                ctx.count('traces_validated_against_impl')
            else:
                ctx.fail([unit, history], message)
    ctx.sample([unit, history])


class Baseline(object):
    """What each operation results in, in a fresh universe."""

    def __init__(self, biggus, which, kind, dtype, keep):
        self.args = (biggus, which, kind, dtype, keep)
        self.cache = {}

    def fresh(self):
        return Universe(*self.args)

    def of(self, op, limit):
        key = (op, limit)
        if key not in self.cache:
            u = self.fresh()
            boot.set_limit(limit)
            self.cache[key] = outcome(u, op)
        return self.cache[key]


def outcome(u, op):
    """('ok', values) or ('error', text); runs the operation."""
    try:
        return ('ok', runtime.result(lambda: perform(u, op)))
    except runtime.MCDeadlock as e:
        return ('hangs', '')
    except Exception as e:
        return ('error', '')


def perform(u, op):
    g = u.biggus
    what, i = op
    if what in ('limit',):
        boot.set_limit(i or boot.DEFAULT_LIMIT)
        return []
    if what == 'batch':
        return g.ndarrays(u.arrays)
    if what == 'mbatch':
        return g.masked_arrays(u.arrays)
    if what == 'rbatch':
        return g.masked_arrays(u.arrays[::-1] + u.arrays[:1])
    if what == 'deepall':
        return g.ndarrays(copy.deepcopy(u.arrays))
    array = u.arrays[i]
    if what == 'plain':
        return [array.ndarray()]
    if what == 'masked':
        return [array.masked_array()]
    if what in ('save', 'smask'):
        target = rec.RecTarget(array.shape, array.dtype, what == 'smask')
        g.save([array], [target], masked=what == 'smask')
        return [ma.array(target.data, mask=target.mask)]
    if what == 'index':
        x = array[..., ::-1] if array.ndim else array[...]
        y = array[(0,) * array.ndim]
        return [x.masked_array(), x.ndarray(), y.masked_array()]
    if what == 'copies':
        x = copy.copy(array)
        y = copy.deepcopy(array)
        return [x.ndarray(), y.masked_array(), copy.deepcopy(y).ndarray()]
    if what == 'inspect':
        repr(array), str(array), array.nbytes, array.fill_value
        return [np.array(array.shape), array.dtype]
    if what == 'fail':
        count = [0]

        def fail(keys):
            count[0] += 1
            if count[0] > (limit_is_small() and 1 or 0):
                raise Boom()
        for s in u.sources:
            if isinstance(s, R.Source):
                s.fail = fail
        try:
            try:
                array.masked_array()
            finally:
                for s in u.sources:
                    if isinstance(s, R.Source):
                        s.fail = None
        except Exception:
            pass
        return []
    raise ValueError(op)


def limit_is_small():
    import biggus._init
    return biggus._init.MAX_CHUNK_SIZE < 100


def check(base, history):
    u = base.fresh()
    limit = boot.DEFAULT_LIMIT
    boot.set_limit(limit)
    try:
        for k, op in enumerate(history):
            want = base.of(op, limit)
            boot.set_limit(limit)
            got = outcome(u, op)
            message = u.unchanged() or differs(got, want)
            if message:
                return 'operation %d, %s: %s' % (k, op, message)
            if op[0] == 'limit':
                limit = op[1] or boot.DEFAULT_LIMIT
        for op in (('batch', 0), ('mbatch', 0)):
            want = base.of(op, limit)
            boot.set_limit(limit)
            got = outcome(u, op)
            message = u.unchanged() or differs(got, want)
            if message:
                return 'afterwards, %s: %s' % (op, message)
    finally:
        boot.set_limit(boot.DEFAULT_LIMIT)


def differs(got, want):
    if got[0] != want[0]:
        return '%s, in a fresh universe: %s' % (got[0], want[0])
    if got[0] != 'ok':
        return None
    for x, y in zip(got[1], want[1]):
        if isinstance(x, np.dtype):
            if x != y:
                return 'dtype'
        elif isinstance(y, ma.MaskedArray):
            message = R.diff_masked(x, R.Ref(None, y, True))
            if message:
                return message + ' (expected: in a fresh universe)'
        else:
            message = R.diff_plain(x, R.Ref(y, None, True))
            if message:
                return message + ' (expected: in a fresh universe)'


def replay(case):
    unit, history = case
    which, kind, dtype, keep, depth = unit
    which = tuple(which) if isinstance(which, list) else which
    return check(Baseline(boot.load(), which, kind, dtype, keep),
                 [tuple(op) for op in history])
