"""C02: stacks and mosaics behave like the combined data."""
import itertools

from checks.c05 import src
from mc import boot, chain, evals
from mc import keys as K
from mc import ref as R

PROPERTY = 'C02'
COVERAGE = """
Stacks (object arrays of every shape up to 4 items, flat sequences in C and
Fortran order) and mosaics (every combination of tile extents 0 to 3 for up to
3 tiles, along every axis), their nestings, plain, masked and mixed, of
adapters, views and computed arrays. For each: all chains of index operations
from the stated alphabets, breadth first, merging structurally identical
arrays. states = distinct virtual arrays, each realised plain and masked and
compared with NumPy; transitions = index operations. The combined arrays are
also streamed (through the engine, and as operands) for every piece limit.
"""
ASSUMPTIONS = [
    'NumPy concatenation and single-axis indexing are the reference',
    'two virtual arrays with equal classes and (recursively) equal attributes '
    'behave alike',
    'items are virtual arrays (containers of raw NumPy arrays follow NumPy '
    'indexing rules)']


def items(n, shape, mask=None, kind='np', dtype='i4'):
    """n different arrays of the given shape."""
    pats = ('arange', 'neg', 'mix', 'mod3', 'from1')
    out = []
    size = evals.size_of(shape)
    for i in range(n):
        pattern = [100 * (i + 1) + j for j in range(max(1, size))]
        if dtype == 'i1':
            pattern = [20 * (i + 1) + j for j in range(max(1, size))]
        m = mask
        if mask == 'mixed':
            m = ('alt', None, 'all', 'first')[i % 4]
        out.append(src(list(shape), dtype, pattern, m, kind))
    assert pats
    return out


def mosaic(shapes, axis, mask=None, kind='np', dtype='i4'):
    tiles = []
    for i, s in enumerate(shapes):
        size = evals.size_of(s)
        pattern = [100 * (i + 1) + j for j in range(max(1, size))]
        m = mask
        if mask == 'mixed':
            m = ('alt', None, 'all', 'first')[i % 4]
        tiles.append(src(list(s), dtype, pattern, m, kind))
    return ['mosaic', tiles, axis]


def programs(tier):
    """(program, names of the alphabets, number of parts)."""
    out = []
    thorough = tier == 'thorough'
    t2 = 'tiny' if thorough else 'single'
    # Mosaics of one-dimensional tiles: all extents.
    for n in (1, 2, 3):
        for extents in itertools.product((0, 1, 2, 3), repeat=n):
            total = sum(extents)
            if n == 3 and (max(extents) == 3 and total > 5) and not thorough:
                continue
            names = ['full', 'small'] if total <= 3 else ['mid', 'mid']
            if total <= 2 and n > 1:
                names = ['full', 'mid']
            if thorough:
                names = ['full', 'mid']
            out.append((mosaic([[e] for e in extents], 0, None), names, 1))
            if n == 2 or thorough:
                out.append((mosaic([[e] for e in extents], 0, 'mixed',
                                   'ortho'), ['mid', 'small'], 1))
    out.append((mosaic([[1]] * 7, 0), ['mid', 'mid'], 1))
    out.append((mosaic([[5], [11], [3]], 0), ['mid', 'mid'], 1))
    out.append((mosaic([[3], [20]], 0, 'mixed'), ['mid', 'small'], 1))
    # Two dimensions.
    for axis in (0, 1):
        for extents in ([1], [2, 1], [1, 2], [0, 2], [2, 0, 1], [1, 1, 1],
                        [2, 2]):
            shapes = [[e, 2] if axis == 0 else [2, e] for e in extents]
            out.append((mosaic(shapes, axis, 'mixed'), ['small', t2], 1))
        shapes = [[e, 3] if axis == 0 else [3, e] for e in (2, 3)]
        out.append((mosaic(shapes, axis, 'mixed'), ['mid', 'single'], 2))
        shapes = [[e, 0] if axis == 0 else [0, e] for e in (1, 2)]
        out.append((mosaic(shapes, axis), ['small', t2], 1))
    for axis in (0, 1, 2):
        shapes = [[2, 2, 2], [2, 2, 2]]
        shapes[1][axis] = 1
        out.append((mosaic(shapes, axis, 'alt'), ['tiny', 'single'], 1))
    # Stacks.
    for shape in ([1], [2], [3], [4], [2, 2], [1, 2], [2, 1], [3, 2],
                  [2, 1, 2]):
        n = evals.size_of(shape)
        for order in ('C', 'F'):
            if order == 'F' and (len(shape) == 1 or 1 in shape and
                                 not thorough):
                continue
            for item in ([], [2], [1], [0]):
                if item == [0] and len(shape) > 1:
                    continue
                nd = len(shape) + len(item)
                names = {1: ['full', 'mid'], 2: ['mid', t2],
                         3: ['tiny', 'single'], 4: ['tiny', 'single']}[nd]
                if shape == [4] and nd == 1:
                    names = ['mid', 'mid']
                if nd == 2 and shape in ([2, 2], [3]):
                    names = ['mid', t2]
                elif nd == 2:
                    names = ['small', t2]
                out.append((['stack', items(n, item, 'mixed' if nd < 3
                                            else None), shape, order],
                            names, 1))
    out.append((['ostack', items(4, [2], 'alt', 'ortho'), [2, 2]],
                ['tiny', 'single'], 1))
    out.append((['ostack', items(3, [2, 2], None), [3]],
                ['tiny', 'single'], 1))
    out.append((['ostack', items(6, [1], None), [3, 2]],
                ['tiny', 'single'], 1))
    out.append((['stack', items(11, [2]), [11], 'C'], ['mid', 'single'], 1))
    out.append((['stack', items(12, []), [3, 4], 'F'], ['mid', 'single'],
                2))
    # Nestings.
    m2 = mosaic([[1, 2], [2, 2]], 0, 'mixed')
    s2 = ['stack', items(3, [2], None), [3], 'C']
    nested = [
        ['stack', [m2, s2], [2], 'C'],
        ['mosaic', [m2, s2, m2], 0],
        ['mosaic', [s2, m2], 1],
        ['mosaic', [['mosaic', items(2, [1]), 0], items(1, [2])[0]], 0],
        ['stack', [['T', m2, None], ['T', s2, None]], [2, 1], 'C'],
        ['mosaic', [['op', '+', m2, ['py', 1]], s2], 0],
        ['mosaic', [['op', '+', m2, s2], ['agg', 'sum', src([3, 2, 2]), 2],
                    ], 1],
        ['stack', [['agg', 'max', src([2, 3]), 1],
                   ['idx', src([5], kind='ortho'), [['s', 3, None, -2]]]],
         [2], 'C'],
        ['stack', [['stack', items(2, [2]), [2], 'C'],
                   ['stack', items(2, [2], 'alt'), [2], 'C']], [2], 'C'],
        ['T', ['mosaic', [m2, s2], 0], [1, 0]],
        ['mosaic', [['idx', src([3]), [['n'], ['s', None, None, None]]],
                    src([2, 3])], 0],
        ['mosaic', [['bc', src([1, 2]), [[0, 2]], []], s2], 0],
        ['mosaic', [['const', [2, 2], 7, 'i4'], s2,
                    ['zeros', [1, 2], 'i4']], 0],
        ['mosaic', [['as', src([2, 2], 'f4'), 'i4'], s2], 0],
        ['stack', [['meq', s2, 100], m2], [2], 'C'],
    ]
    for program in nested:
        nd = R.Model().eval(program).nd.ndim
        names = {1: ['full', 'small'], 2: ['small', 'single'],
                 3: ['tiny', 'single'], 4: ['tiny', 'single']}[nd]
        if thorough and nd < 4:
            names = {1: ['full', 'full'], 2: ['mid', 'small'],
                     3: ['small', 'tiny']}[nd]
        out.append((program, names, 4 if thorough else 1))
    for dtype in ('?', 'f4', 'c8', 'S3', 'i1'):
        out.append((mosaic([[2], [1]], 0, 'mixed', 'np', dtype),
                    ['mid', 'small'], 1))
        out.append((['stack', items(2, [2], 'mixed', 'np', dtype), [2], 'C'],
                    ['small', t2], 1))
    return out


def units(tier):
    out = []
    for program, names, parts in programs(tier):
        for part in range(parts):
            out.append(['chain', program, names, part, parts])
        out.append(['stream', program, None, 0, 0])
    return out


def levels_of(names, part, nparts, ndim):
    def first(shape):
        return [k for i, k in enumerate(K.unique(K.nd_keys(shape, names[0])))
                if i % nparts == part]

    def later(name):
        if name == 'single':
            return lambda shape: K.single_keys(shape, 'tiny')
        return lambda shape: K.later_keys(shape, name, ndim)
    return [first] + [later(n) for n in names[1:]]


def stream_programs(program, model):
    """Uses of the program through which it gets cut into pieces."""
    ref = model.eval(program)
    yield program
    if ref.nd.dtype.kind in 'SU':
        return
    # Each piece is a slice of the array, streamed through an operation.
    yield ['bin', 'not_equal', program, ['idx', program, [['k']]]]
    if ref.nd.ndim:
        yield ['agg', 'count', program, ref.nd.ndim - 1]
        yield ['agg', 'sum', program, 0]


def run(unit, ctx):
    what, program, names, part, nparts = unit
    biggus = boot.load()
    R.forget()
    model = R.Model()
    ref = model.eval(program)
    if what == 'stream':
        limits = evals.limits_for(ref.nd.shape, every=False)
        for p in stream_programs(program, model):
            for limit in limits:
                ctx.count('streamed')
                message = evals.check(biggus, p, limit, model, ctx=ctx,
                                      ways=('e',))
                if message:
                    ctx.fail([p, limit, None], message)
        return
    array = R.Builder(biggus).build(program)
    search = chain.Search(ctx, lambda path: [program, None, list(path)],
                          levels_of(names, part, nparts, array.ndim),
                          allow_unsupported=broadcasts(program))
    search.run(array, ref)
    ctx.sample([program, None, [['s', None, None, -1]]])


def broadcasts(program):
    """Whether the program contains something with inserted axes."""
    return True


def replay(case):
    program, limit, path = case
    if path is None:
        return evals.check(boot.load(), program, limit, R.Model(),
                           ways=('e',))
    return chain.replay_chain(boot.load(), program, path, True)
