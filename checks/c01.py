"""C01: indexing a wrapped data source selects the orthogonal sub-array."""
import itertools

from mc import boot, chain
from mc import keys as K
from mc import ref as R

PROPERTY = 'C01'
COVERAGE = """
All chains of index operations from the stated alphabets (full alphabet, depth
2, for one-dimensional sources; products of per-axis alphabets for sources of
2 to 5 dimensions), over wrapped sources of both kinds (NumPy-like and
orthogonal), plain and masked; breadth first, merging structurally identical
arrays. states = distinct virtual arrays, each realised plain and masked and
compared with NumPy; transitions = index operations applied.
"""
ASSUMPTIONS = [
    'NumPy 1.19.5 single-axis indexing and concatenation are the reference',
    'two virtual arrays with equal classes and (recursively) equal attributes '
    'behave alike',
    'axis lengths above the bound (4 for full alphabets, 50 for the long '
    'axis) behave like shorter ones']


def level(name, **kw):
    return [name, kw]


def units(tier):
    out = []
    full_sizes = (0, 1, 2, 3) if tier == 'quick' else (0, 1, 2, 3, 4)
    # One dimension: full alphabet, twice. (Split by the first key.)
    for n in full_sizes:
        for kind in ('np', 'npo', 'src', 'ortho'):
            for mask in (None, 'third'):
                if tier == 'quick' and (n == 3 or (kind, mask) not in (
                        ('np', 'third'), ('ortho', None))):
                    nparts, second = 1 if n < 3 else 2, 'small'
                    if n == 3 and mask is None:
                        second = 'mid'
                else:
                    nparts = {0: 1, 1: 2, 2: 4, 3: 24, 4: 64}[n]
                    second = 'full'
                for part in range(nparts):
                    out.append((['src', kind, [n], 'i4', 'mix', mask],
                                ['full', second], part, nparts))
    for kind, mask in (('np', 'alt'), ('ortho', None)):
        for n in (1, 2, 3):
            out.append((['src', kind, [n], 'f8', 'mix', mask],
                        ['mid', 'mid', 'small'], 0, 1))
    # Long axes.
    for n in (17, 50):
        for kind in ('np', 'npo', 'ortho'):
            out.append((['src', kind, [n], 'i4', 'arange', 'third'],
                        ['mid', 'mid'], 0, 1))
            if kind != 'npo':
                out.append((['src', kind, [n, 2], 'i4', 'arange', None],
                            ['small', 'tiny'], 0, 1))
    # Several dimensions.
    shapes2 = [[2, 3], [3, 1], [2, 0], [3, 2]]
    masks = [None, 'third']
    for shape in shapes2:
        # (Not the orthogonal adapter around an ndarray: vector keys are then
        # not independent.)
        for kind, mask in itertools.product(('np', 'src', 'ortho'), masks):
            if tier == 'quick' and (kind == 'src') == (mask is None):
                continue
            for part in range(4):
                out.append((['src', kind, shape, 'f4', 'mix', mask],
                            ['mid', 'tiny'], part, 4))
    for kind, mask in (('np', 'alt'), ('ortho', 'alt')):
        for part in range(8):
            out.append((['src', kind, [3, 2], 'i2', 'mix', mask],
                        ['small', 'small'], part, 8))
    for shape in ([2, 2, 3], [2, 3, 1]):
        for kind, mask in (('np', 'alt'), ('ortho', 'third')):
            for part in range(4):
                out.append((['src', kind, shape, 'i4', 'mix', mask],
                            ['small', 'tiny0'], part, 4))
    for kind in ('np', 'ortho'):
        for part in range(8):
            out.append((['src', kind, [2, 1, 3, 2], 'i4', 'arange', 'alt'],
                        ['tiny', 'single'], part, 8))
        for part in range(2):
            out.append((['src', kind, [2, 1, 2, 1, 2], 'i4', 'arange', None],
                        ['tiny'], part, 2))
    for dtype, mask in (('?', 'alt'), ('S2', None), ('c8', 'third'),
                        ('f2', 'first'), ('U3', None), ('u1', 'alt')):
        for kind in ('np', 'ortho'):
            out.append((['src', kind, [3], dtype, 'mix', mask],
                        ['mid', 'mid'], 0, 1))
            out.append((['src', kind, [2, 2], dtype, 'mix', mask],
                        ['small', 'tiny'], 0, 1))
    for kind in ('np', 'ortho'):
        for mask in (None, 'all', 'false', 'none'):
            out.append((['src', kind, [], 'i4', 'from1', mask],
                        ['mid', 'mid', 'mid'], 0, 1))
            out.append((['src', kind, [2, 2], 'i4', 'from1', mask],
                        ['small', 'tiny'], 0, 1))
    if tier == 'thorough':
        for kind, mask in itertools.product(('np', 'src', 'ortho'), masks):
            for part in range(16):
                out.append((['src', kind, [3, 3], 'f4', 'mix', mask],
                            ['mid', 'mid'], part, 16))
            for part in range(32):
                out.append((['src', kind, [3, 2, 2], 'f4', 'mix', mask],
                            ['small', 'small'], part, 32))
            for part in range(32):
                out.append((['src', kind, [3, 2], 'f4', 'mix', mask],
                            ['small', 'small', 'small'], part, 32))
            for part in range(16):
                out.append((['src', kind, [2, 3, 1, 2], 'f4', 'mix', mask],
                            ['small'], part, 16))
            for part in range(8):
                out.append((['src', kind, [3], 'f4', 'mix', mask],
                            ['mid', 'mid', 'mid'], part, 8))
    return out


def levels_of(names, part, nparts, ndim):
    def first(shape):
        return [k for i, k in enumerate(K.unique(K.nd_keys(shape, names[0])))
                if i % nparts == part]

    def later(name):
        if name == 'tiny0':
            return lambda shape: K.nd_keys(shape, 'tiny', newaxis=False,
                                           ellipsis=False, partial=False)
        if name == 'single':
            return lambda shape: K.single_keys(shape, 'tiny')
        return lambda shape: K.later_keys(shape, name, ndim)
    return [first] + [later(n) for n in names[1:]]


def run(unit, ctx):
    program, names, part, nparts = unit
    biggus = boot.load()
    R.forget()
    ref = R.Model().eval(program)
    array = R.Builder(biggus).build(program)
    search = chain.Search(ctx, lambda path: [program, list(path)],
                          levels_of(names, part, nparts, array.ndim),
                          allow_unsupported=True)
    search.run(array, ref)
    ctx.add('sources', str(program))
    ctx.sample([program, [['s', 1, None, None], ['t', -1, 0]]])


def replay(case):
    program, path = case
    return chain.replay_chain(boot.load(), program, path, True)
