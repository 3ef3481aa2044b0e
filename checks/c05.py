"""C05: plain aggregations equal NumPy for every shape, axis and limit."""
import itertools

from mc import boot, evals
from mc import ref as R

PROPERTY = 'C05'
COVERAGE = """
Every aggregation (count, min, max, sum, mean, std, var), every shape of 1 to 3
dimensions with extents 0 to 3 (4 and 6 dimensions: one shape each; axes of 7
and 12), inputs of every kind (sources, stacks, mosaics, views, elementwise
expressions, other aggregations), every axis given positively or negatively, every piece limit which
changes how the array is cut, data types and value patterns; evaluated through
the method and through the engine and compared with NumPy on the whole array.
states = (expression, limit) pairs, transitions = evaluations.
"""
ASSUMPTIONS = [
    'NumPy whole-array arithmetic in float64/complex128 is the reference for '
    'mean, std and var, to a relative tolerance of the result type',
    'extents above the bound behave like smaller ones']

FNS = ('count', 'min', 'max', 'sum', 'mean', 'std', 'var')
DTYPES = ('?', 'i1', 'u1', 'i2', 'u2', 'i4', 'u4', 'i8', 'u8', 'f2', 'f4',
          'f8', 'c8', 'c16', '>i4', '>f8')
VALUES = {
    'nan': ['f8', [1.0, 'nan', -2.0, 5.0, 'nan', 3.0, 0.5]],
    'inf': ['f8', [1.0, 'inf', -2.0, '-inf', 4.0, 'inf', 3.0]],
    'nan4': ['f4', ['nan', 1.0, 2.0]],
    'bigi2': ['i2', [32767, 32766, -32768, 32767, 5]],
    'bigi4': ['i4', [2147483647, 2147483646, 2147483647, -5]],
    'bigu1': ['u1', [255, 254, 0, 255, 7]],
    'bigf2': ['f2', [60000.0, 50000.0, 40000.0, 30000.0]],
    'offset': ['f8', [1e6 + 1, 1e6 + 3, 1e6 + 8, 1e6 + 2, 1e6]],
    'neg': ['i4', [-5, -3, -9, -1, -7, -2]],
    'negf': ['f8', [-5.5, -3.25, -9.0, -1.0, -7.0, -2.5]],
    'desc': ['i4', [12, 11, 10, 9, 8, 7, 6, 5, 4, 3, 2, 1]],
    'cnan': ['c16', [[1.0, 2.0], ['nan', 0.0], [3.0, -1.0]]],
}


def src(shape, dtype='i4', pattern='mix', mask=None, kind='np'):
    return ['src', kind, shape, dtype, pattern, mask]


def inputs(mask):
    """Arrays of every kind."""
    def src(shape, dtype='i4', pattern='mix', kind='np'):
        return ['src', kind, shape, dtype, pattern, mask]
    A = src([2, 3])
    return [
        ['stack', [A, src([2, 3], pattern='neg'), A], [3], 'C'],
        ['stack', [src([2]), src([2], pattern='neg'), src([2], pattern='mod3'),
                   src([2], pattern='arange')], [2, 2], 'F'],
        ['mosaic', [A, src([2, 2], pattern='neg')], 1],
        ['mosaic', [src([1, 2]), src([2, 2], pattern='neg'), src([1, 2])], 0],
        ['T', src([2, 3, 2], 'f4'), None],
        ['T', src([2, 3, 2]), [1, 0, 2]],
        ['as', src([3, 2]), 'f4'],
        ['idx', src([3, 4]), [['s', None, None, -1], ['s', 1, None, 2]]],
        ['idx', src([3, 4], kind='ortho'), [['t', 2, 0, 2], ['s', 1, None, 2]]],
        ['idx', src([3]), [['n'], ['s', None, None, None], ['n']]],
        ['bc', src([1, 3]), [[0, 3]], [2]],
        ['const', [2, 3], 3, 'i4'],
        ['un', 'negative', src([2, 3], pattern='neg')],
        ['op', '*', A, ['py', 3]],
        ['op', '-', src([2, 3], pattern='neg'), src([3])],
        ['op', '+', src([2, 1]), src([3, 1, 2])],
        ['bin', 'greater', src([2, 3]), src([2, 3], pattern='neg')],
        ['agg', 'sum', src([2, 3, 2]), 0],
        ['agg', 'max', src([2, 3, 2]), 2],
        ['agg', 'mean', src([2, 3, 2]), 1],
        ['agg', 'count', src([2, 3, 2]), 1],
        ['idx', ['agg', 'min', src([3, 3, 2]), 1],
         [['s', None, None, -1], ['s', None, None, None]]],
        ['op', '-', src([2, 3], 'f8'), ['agg', 'mean', src([3, 2, 3]), 0]],
    ]


INPUTS = inputs(None)


def small_shapes(max_extent, dims):
    for nd in dims:
        for shape in itertools.product(range(max_extent + 1), repeat=nd):
            yield list(shape)


def fns_for(dtype):
    return [f for f in FNS if not (f in ('min', 'max') and
                                   dtype.strip('<>')[0] == 'c')]


def units(tier):
    out = []
    thorough = tier == 'thorough'
    shapes = list(small_shapes(3, (1, 3))) + list(small_shapes(4, (2,)))
    shapes += list(small_shapes(2, (4,)))
    if thorough:
        shapes += list(small_shapes(7, (2,))) + list(small_shapes(4, (3,)))
        shapes += list(small_shapes(3, (4,))) + list(small_shapes(2, (5,)))
        shapes += [[n] for n in range(4, 24)]
    shapes += [[7], [12], [5, 2], [2, 5], [4, 4], [2, 3, 2, 2],
               [2, 1, 2, 1, 2, 2], [9, 2]]
    for shape in shapes:
        out.append(('shape', shape, 'f8'))
        if thorough or evals.size_of(shape) <= 8:
            out.append(('shape', shape, 'i4'))
    for dtype in DTYPES:
        for shape in ([5], [2, 3], [2, 2, 3]):
            out.append(('dtype', shape, dtype))
    for name in sorted(VALUES):
        for shape in ([7], [3, 3], [2, 2, 3]):
            out.append(('values', shape, name))
    for i in range(len(INPUTS)):
        out.append(('input', None, i))
    for ddof in (1, 2, 3, 5):
        for shape in ([4], [3, 3], [2, 3, 2]):
            out.append(('ddof', shape, ddof))
    return out


def programs(unit):
    what, shape, arg = unit
    dtype, pattern, fns, kws = 'f8', 'mix', FNS, {}
    if what == 'shape':
        dtype = arg
    elif what == 'dtype':
        dtype = arg
        fns = fns_for(dtype)
    elif what == 'values':
        dtype, pattern = VALUES[arg]
        fns = fns_for(dtype)
        if arg == 'inf':
            # The standard deviation isn't defined.
            fns = [f for f in fns if f not in ('std', 'var')]
        if arg == 'bigf2':
            # The sum overflows at different points, depending on the cuts.
            fns = [f for f in fns if f != 'sum']
    elif what == 'ddof':
        fns, kws = ('std', 'var'), {'ddof': arg}
    if what == 'input':
        program = INPUTS[arg]
        shape = R.Model().eval(program).nd.shape
    else:
        program = src(shape, dtype, pattern)
    for axis in range(len(shape)):
        for fn in fns:
            for ax in {axis, axis - len(shape)}:
                if ax < 0 and fn in ('min', 'std') and what != 'shape':
                    continue
                yield shape[axis], ['agg', fn, program, ax, kws]


def run(unit, ctx):
    biggus = boot.load()
    model = R.Model()
    shape = unit[1]
    if unit[0] == 'input':
        shape = list(model.eval(INPUTS[unit[2]]).nd.shape)
        limits = list(range(1, 2 * evals.size_of(shape) + 1))
    else:
        limits = evals.limits_for(shape, every=False)
    for n, program in programs(unit):
        if program[1] in ('min', 'max') and n == 0:
            continue
        ways = evals.WAYS if unit[0] in ('shape', 'input') else ('e',)
        for limit in limits:
            ctx.count('states')
            ctx.count('transitions', len(ways))
            message = evals.check(biggus, program, limit, model, ctx=ctx,
                                  ma=False, ways=ways)
            if message:
                ctx.fail([program, limit], message)
    ctx.add('shapes', str(shape))
    ctx.sample([program, limits[0]])


def replay(case):
    program, limit = case
    return evals.check(boot.load(), program, limit, R.Model(), ma=False)
