"""C04: elementwise arithmetic agrees with NumPy."""
import itertools

import numpy as np
import numpy.ma as ma

from checks.c05 import src
from mc import boot, evals
from mc import keys as K
from mc import ref as R
from mc import runtime

PROPERTY = 'C04'
COVERAGE = """
Every elementwise function and operator: all data types (pairs of data types),
all pairs of shapes of up to 3 dimensions with extents 0 to 3 which broadcast
(and those which don't, to be refused), every kind of operand on either side
(virtual arrays of all kinds, NumPy arrays, masked arrays, Python and NumPy
numbers), all patterns of missing data of two operands of 4 elements, special
values, every piece limit which changes how the result is cut; evaluated plain
and masked, through the method and the engine, and after indexing with every
key of an alphabet. states = (expression, limit, key) combinations.
"""
ASSUMPTIONS = [
    'the NumPy ufunc and numpy.ma function applied to the whole, realised '
    'operands are the reference',
    'operands of 0 dimensions take part with their full data type (only '
    'Python numbers are weak)']

UNARY = ('negative absolute rint sign conj exp exp2 log log2 log10 expm1 sqrt '
         'square reciprocal sin cos tan arcsin arccos arctan sinh cosh tanh '
         'arcsinh arccosh arctanh deg2rad rad2deg invert logical_not isreal '
         'iscomplex isinf isnan signbit floor ceil trunc').split()
BINARY = ('add sub subtract multiply floor_divide true_divide divide power '
          'arctan2 hypot bitwise_and bitwise_or bitwise_xor left_shift '
          'right_shift greater greater_equal less less_equal not_equal equal '
          'logical_and logical_or logical_xor maximum minimum fmax fmin '
          'copysign nextafter ldexp fmod').split()
OPS = ('+', '-', '*', '/', '//', '**')
DTYPES = ('?', 'i1', 'u1', 'i2', 'i4', 'u4', 'i8', 'f2', 'f4', 'f8', 'c8',
          'c16')
SPECIAL = [0.0, 1.0, -1.0, 0.5, 'nan', 'inf', '-inf', 2.0, -0.0, 3.75, -2.5]
INTS = [0, 1, -1, 5, 3, -4, 7]
POS = [1, 2, 3, 1, 4]


def values_for(name, dtype, second=False):
    kind = np.dtype(dtype).kind
    if kind == '?' or kind == 'b':
        return [0, 1, 1] if not second else [1, 0]
    if kind == 'u':
        return [3, 0, 1, 5, 2] if not second else [1, 2, 0, 3]
    if name in ('power', '**') and kind == 'i' or name in ('left_shift',
                                                           'right_shift'):
        return POS if not second else [2, 0, 1, 3]
    if name == 'reciprocal' and kind == 'i':
        return POS
    if name == 'ldexp' and second:
        return [1, -1, 0, 3]
    if kind == 'i':
        return INTS if not second else [2, -3, 1, 0, 4]
    if kind == 'c':
        return [[1, 2], [0, 0], [-1, 0.5], [0, -1]] if not second else \
            [[2, 0], [1, -1], [0, 0], [0.5, 0.5], [-1, 0]]
    if dtype == 'f2' or name in ('power', '**'):
        return [0.0, 1.0, -1.0, 0.5, 'nan', 2.0] if not second else \
            [2.0, 0.5, 1.0, -1.0, 0.0]
    return SPECIAL if not second else [2.0, 0.0, -1.5, 1.0, 'nan', 0.5, 4.0]


def bases(name, dtype, shape, mask=None, second=False, kind='np'):
    return src(list(shape), dtype, values_for(name, dtype, second), mask,
               kind)


def expression(fn, *operands):
    if fn in OPS:
        return ['op', fn] + list(operands)
    return [('un' if len(operands) == 1 else 'bin'), fn] + list(operands)


def shapes(max_nd, extents):
    for nd in range(max_nd + 1):
        for s in itertools.product(extents, repeat=nd):
            yield list(s)


def units(tier):
    out = []
    for fn in UNARY:
        out.append(('unary', fn))
    for fn in BINARY + list(OPS):
        out.append(('binary', fn))
    everything = list(shapes(2, (0, 1, 2, 3))) + [
        [1, 1, 1], [2, 1, 3], [1, 2, 3], [2, 2, 3], [2, 2, 1], [2, 0, 3],
        [1, 0, 1], [3, 1, 1], [2, 1, 1, 2]]
    if tier == 'thorough':
        everything = list(shapes(3, (0, 1, 2, 3))) + [[2, 1, 1, 2]]
    for s in everything:
        out.append(('shapes', s, everything))
    for fn in OPS + ('greater', 'maximum', 'logical_and', 'arctan2'):
        out.append(('kinds', fn))
    for fn in OPS + ('power', 'maximum', 'greater', 'equal', 'logical_or',
                     'arctan2', 'floor_divide'):
        out.append(('numbers', fn))
    for fn in ('add', 'true_divide', 'multiply', 'maximum', 'log', 'sqrt',
               'negative', 'equal', 'floor_divide', 'power', 'logical_not'):
        for part in range(4):
            out.append(('masks', fn, part, 4))
    for i in range(len(INDEXED)):
        out.append(('index', i))
    return out


INDEXED = [
    ['op', '-', src([2, 3], mask='alt'), src([2, 3], pattern='neg')],
    ['op', '-', src([3, 2]), src([2], mask='first')],
    ['op', '*', src([2, 1]), src([1, 3], mask='third')],
    ['op', '+', src([3]), src([2, 1, 1])],
    ['op', '-', ['py', 5], src([2, 3], mask='alt')],
    ['op', '/', src([2, 3], 'f4'), ['py', 2]],
    ['op', '*', src([3], 'u1'), ['py', 2]],
    ['op', '*', src([], 'f4'), src([2, 2], 'f4', mask='third')],
    ['un', 'sqrt', src([2, 3], 'f8', 'neg', 'third')],
    ['un', 'negative', ['op', '-', src([2, 3]), src([3], kind='ortho')]],
    ['op', '-', ['agg', 'mean', src([2, 3, 2]), 0], src([3, 2])],
    ['op', '+', ['T', src([2, 3], mask='alt'), None], src([3, 2])],
    ['op', '+', ['stack', [src([2]), src([2], pattern='neg')], [2], 'C'],
     ['mosaic', [src([1, 2]), src([1, 2], mask='all')], 0]],
    ['bin', 'greater', src([4], 'f8', 'neg'), ['npa', [4], 'f8', 'mix',
                                               None]],
    ['op', '+', src([2, 3], 'i2'), ['npa', [3], 'i4', 'neg', 'alt']],
    ['op', '*', ['idx', src([3]), [['n'], ['k']]], src([2, 1])],
    ['op', '-', ['bc', src([1, 3]), [[0, 2]], []], src([2, 3])],
]


def run(unit, ctx):
    biggus = boot.load()
    model = R.Model()
    globals()['run_' + unit[0]](ctx, biggus, model, *unit[1:])


def one(ctx, biggus, model, program, limits, keys=None, ways=evals.WAYS):
    """Evaluate a program under several limits; or see it refused."""
    for limit in limits:
        ctx.count('states')
        ctx.count('transitions', len(ways))
        message = verdict(biggus, model, program, limit, keys, ctx, ways)
        if message:
            ctx.fail([program, limit, keys], message)
            return


def has_ma(program):
    tag = program[0]
    name = R.OP_UFUNC[program[1]] if tag == 'op' else program[1]
    if name == 'sub':
        name = 'subtract'
    return name


NO_MASKED = ('isreal iscomplex isinf isnan signbit copysign nextafter ldexp '
             'fmod').split()


def verdict(biggus, model, program, limit, keys, ctx, ways=evals.WAYS):
    """What's wrong with the evaluation of an elementwise program."""
    try:
        ref = model.eval(program)
    except R.Invalid as e:
        return refused(biggus, program)
    except (TypeError, ValueError) as e:
        # NumPy doesn't support the operation for these types.
        return refused(biggus, program)
    message = evals.check(biggus, program, limit, model, ctx=ctx, keys=keys,
                          ways=ways)
    if message is None and ref.ma is None:
        # There's no such operation for masked arrays.
        def go():
            array = R.Builder(biggus).build(program)
            for way in ways:
                try:
                    x = evals.values(biggus, array, True, way)
                except Exception:
                    pass
                else:
                    return 'masked: %s, but NumPy has got no such ' \
                        'operation' % R._s(x)
        message = runtime.result(go)
    return message


def refused(biggus, program):
    def go():
        try:
            array = R.Builder(biggus).build(program)
        except Exception:
            return None
        # Refused no later than evaluation.
        try:
            return 'evaluates to %s, but NumPy refuses the operation' % R._s(
                array.ndarray())
        except Exception:
            return None
    return runtime.result(go)


def run_unary(ctx, biggus, model, fn):
    for dtype in DTYPES:
        for shape in ([7], [2, 3], []):
            limits = [1, 4, 100] if shape else [1]
            for mask in (None, 'third'):
                program = ['un', fn, bases(fn, dtype, shape, mask)]
                one(ctx, biggus, model, program, limits,
                    ways=evals.WAYS if mask else ('e',))
    ctx.sample([['un', fn, bases(fn, 'f8', [7])], 1, None])


COMMON = ('add', 'subtract', 'multiply', 'true_divide', '+', '-', '*', '/',
          '//')


def run_binary(ctx, biggus, model, fn):
    dtypes = DTYPES if ctx.tier == 'thorough' or fn in COMMON else (
        '?', 'u1', 'i2', 'i8', 'f2', 'f8', 'c8')
    for d1, d2 in itertools.product(dtypes, repeat=2):
        for shape, m1, m2, limits, ways in (
                ([5], None, None, [2], 'e'),
                ([7], 'third', 'alt', [100], 'em')):
            program = expression(fn, bases(fn, d1, shape, m1),
                                 bases(fn, d2, shape, m2, True))
            if fn == 'ldexp' and d2 not in ('i2', 'i4', 'i1'):
                continue
            if fn == 'ldexp' and np.dtype(d1).kind not in 'f':
                continue
            one(ctx, biggus, model, program, limits, ways=tuple(ways))
    ctx.sample([expression(fn, bases(fn, 'f8', [5]), bases(fn, 'i4', [5])),
                1, None])


def run_shapes(ctx, biggus, model, shape, everything):
    for other in everything:
        for m1, m2 in ((None, 'alt'), ('third', None)):
            if m1 and evals.size_of(shape) * evals.size_of(other) > 24:
                continue
            program = ['op', '-', src(shape, 'i4', 'mix', m1),
                       src(other, 'i4', 'neg', m2)]
            try:
                limits = evals.limits_for(model.eval(program).nd.shape,
                                          every=False)
            except R.Invalid:
                if m1 is None:
                    message = runtime.result(
                        lambda: refused_at_build(biggus, program))
                    ctx.count('states')
                    ctx.count('refused')
                    if message:
                        ctx.fail([program, 'refused', None], message)
                continue
            if len(limits) > 4 and ctx.tier == 'quick':
                limits = limits[:2] + limits[-2:]
            one(ctx, biggus, model, program, limits, ways=('e',))
        one(ctx, biggus, model, ['bin', 'multiply', src(shape, 'f4'),
                                 src(other, 'i2', 'neg')], [2], ways=('m',))


def refused_at_build(biggus, program):
    try:
        R.Builder(biggus).build(program)
    except Exception:
        return None
    return 'incompatible shapes were accepted'


def operands():
    """Every kind of operand."""
    m = src([2, 3], 'f8', 'mix', 'alt')
    yield src([2, 3], 'i4', 'from1')
    yield src([2, 3], 'f4', 'from1', 'third')
    yield src([3], 'u1', 'from1', None, 'ortho')
    yield src([], 'f4', 'from1')
    for n in (2, -1, 1.5, 0, 3, 255, 1000, 0.1, -2.5, 100000):
        yield ['py', n]
    for dtype, n in (('i4', 2), ('f4', 1.5), ('f8', 0.1), ('u1', 3),
                     ('i8', 2), ('?', 1)):
        yield ['nps', dtype, n]
    yield ['npa', [2, 3], 'i4', 'from1', None]
    yield ['npa', [3], 'f8', 'from1', 'alt']
    yield ['npa', [2, 1], 'u1', 'from1', None]
    yield ['npa', [], 'f8', 'from1', None]
    yield ['T', src([3, 2], 'i4', 'from1', 'first'), None]
    yield ['mosaic', [src([1, 3], 'i4', 'from1'), src([1, 3], 'i4', 'mod3',
                                                      'all')], 0]
    yield ['stack', [src([3], 'i4', 'from1'), src([3], 'i4', 'mod3')], [2],
           'C']
    yield ['const', [2, 3], 3, 'i4']
    yield ['ones', [3], 'f4']
    yield ['bc', src([1, 3], 'i4', 'from1', 'alt'), [[0, 2]], []]
    yield ['agg', 'sum', src([2, 2, 3], 'i4', 'from1', 'alt'), 0]
    yield ['op', '+', m, m]
    yield ['idx', src([4, 3], 'i4', 'from1', None, 'ortho'), [['t', 3, 0]]]
    yield ['as', src([2, 3], 'i4', 'from1', 'third'), 'f4']
    yield ['meq', src([2, 3], 'i4', 'mod3'), 1]


def run_kinds(ctx, biggus, model, fn):
    lefts = [src([2, 3], 'i4', 'from1', 'third'), src([2, 3], 'u1', 'from1'),
             src([2, 3], 'f4', 'from1', 'alt'), src([2, 3], 'i8', 'mix'),
             src([2, 3], 'f8', 'neg', 'first'), src([], 'i2', 'from1'),
             src([2, 3], '?', 'mix')]
    for left in lefts:
        for right in operands():
            for a, b in ((left, right), (right, left)):
                if fn not in OPS and a[0] in ('npa', 'nps', 'py'):
                    # (biggus functions accept these as well.)
                    pass
                if fn in OPS and a[0] in ('npa', 'nps'):
                    # NumPy's own operators get to see these first.
                    continue
                if skip(fn, a, b):
                    continue
                program = expression(fn, a, b)
                one(ctx, biggus, model, program, [2, 100],
                    ways=('e',) if ctx.tier == 'quick' else evals.WAYS)


NUMBERS = [0, 1, 2, 3, 4, -1, -2, 10, 0.0, -0.0, 0.5, 1.0, 2.0, -0.5, -1.0,
           1.0 / 3, 1e10, 1j, True, False, float('inf'), float('nan')]


def run_numbers(ctx, biggus, model, fn):
    """Every number on either side of every data type."""
    for dtype in DTYPES + ('i8', 'u2', 'u8', '>f8', '>i4'):
        for mask in (None, 'third'):
            for values in (values_for('', dtype), values_for(fn, dtype)):
                x = src([len(values)], dtype, values, mask)
                for n in NUMBERS:
                    if fn in ('**', 'power') and (
                            isinstance(n, complex) or
                            np.dtype(dtype).kind == 'c'):
                        # NumPy's complex powers depend on the method.
                        continue
                    for a, b in ((x, ['py', n]), (['py', n], x)):
                        one(ctx, biggus, model, expression(fn, a, b),
                            [4], ways=('e',))
    ctx.sample([expression(fn, src([5]), ['py', 1]), 1, None])


def skip(fn, a, b):
    kinds = [x for x in (a, b)]
    negative = any(x[0] in ('py', 'nps') and x[-1] <= 0 for x in kinds)
    # Integers to negative integer powers; overflow of a Python number.
    if fn in ('**', 'power'):
        if negative or any(x[0] == 'py' and abs(x[1]) > 100 for x in kinds):
            return True
        if any(x[0] == 'src' and x[4] in ('neg', 'mix') for x in kinds):
            return True
    # The result depends on NumPy's treatment of 0-d operands and numbers.
    for x, y in ((a, b), (b, a)):
        if x[0] == 'py' and y[0] == 'src' and y[2] == [] and False:
            return True
    return False


def run_masks(ctx, biggus, model, fn, part, nparts):
    combos = list(itertools.product(range(16), repeat=2))
    if fn in UNARY:
        combos = [(m, 0) for m in range(64)]
    for i, (m1, m2) in enumerate(combos):
        if i % nparts != part:
            continue
        bits1 = [m1 >> j & 1 for j in range(6 if fn in UNARY else 4)]
        bits2 = [m2 >> j & 1 for j in range(4)]
        if fn in UNARY:
            program = ['un', fn, src([6], 'f8', [-1, 0, 2, 5, 0, 1], bits1)]
        else:
            program = ['bin', fn, src([2, 2], 'i4', [4, 0, 3, 2], bits1),
                       src([2, 2], 'i4', [2, 0, 0, 5], bits2)]
        one(ctx, biggus, model, program, [1, 2], ways=('e',))
        one(ctx, biggus, model, program, [100], ways=('m',))


def run_index(ctx, biggus, model, i):
    program = INDEXED[i]
    shape = model.eval(program).nd.shape
    level = {1: 'full' if sum(shape) < 4 else 'mid', 2: 'mid', 3: 'tiny'}[
        len(shape)]
    limits = [1, 2, 100]
    n = 0
    for key in K.unique(K.nd_keys(shape, level)):
        n += 1
        ctx.count('transitions')
        try:
            decoded = R.dec_keys(key)
            model.eval(program).map(lambda v: R.index(v, decoded))
        except R.Invalid:
            continue
        # The method for each; streaming for some.
        message = check_index(biggus, model, program, key,
                              limits[n % 3], ctx,
                              evals.WAYS if n % 5 == 0 else ('m',))
        ctx.count('states')
        if message:
            ctx.fail([program, limits[n % 3], [key]], message)
    # Chains of two.
    second = [['s', None, None, -1]], [['t', 0, 0]], [-1], [['n'], ['k']]
    for key in K.unique(K.nd_keys(shape, 'tiny')):
        for key2 in second:
            ref = model.eval(program).map(
                lambda v: R.index(v, R.dec_keys(key)))
            try:
                ref.map(lambda v: R.index(v, R.dec_keys(key2)))
            except R.Invalid:
                continue
            message = check_index(biggus, model, program, key, 2, ctx,
                                  ('m',), key2)
            ctx.count('states')
            if message:
                ctx.fail([program, 2, [key, key2]], message)


def check_index(biggus, model, program, key, limit, ctx, ways, *more):
    keys = [key] + list(more)

    def go():
        array = R.Builder(biggus).build(program)
        ref = model.eval(program)
        for k in keys:
            decoded = R.dec_keys(k)
            ref = ref.map(lambda v: R.index(v, decoded))
            try:
                array = array[decoded]
            except NotImplementedError as e:
                if any(isinstance(x, list) and x[0] in R.VECTORS for x in k):
                    return None
                return 'raised ' + evals.describe(e)
        return evals.evaluate(biggus, array, ref, ways=ways, ctx=ctx)
    boot.set_limit(limit)
    try:
        return runtime.result(go)
    except Exception as e:
        return 'raised ' + evals.describe(e)
    finally:
        boot.set_limit(boot.DEFAULT_LIMIT)


def replay(case):
    program, limit, keys = case
    biggus = boot.load()
    model = R.Model()
    if limit == 'refused':
        return runtime.result(lambda: refused_at_build(biggus, program))
    if keys:
        return check_index(biggus, model, program, keys[0], limit, None,
                           evals.WAYS, *keys[1:])
    return verdict(biggus, model, program, limit, None, None)
