"""C06: masked aggregations are exact for every pattern of missing data."""
import itertools

from checks import c05
from mc import boot, evals
from mc import ref as R

PROPERTY = 'C06'
COVERAGE = """
Every pattern of missing data (all 2**n masks) over arrays of up to 8 elements
of 1 to 3 dimensions, every axis, every piece limit which changes how the array
is cut, every aggregation, mdtol at, below and above each attainable fraction,
ddof; further shapes, data types, values (NaN, extremes, also beneath the
mask) and inputs of every kind with given masks. Evaluated as masked arrays and
compared with NumPy masked arrays on the whole. states = (expression, mask,
limit) combinations, transitions = evaluations.
"""
ASSUMPTIONS = [
    'the reference aggregates the unmasked values with plain NumPy in '
    'float64/complex128',
    'a standard deviation of ddof or fewer values is masked']

MDTOL = (0, 0.25, 0.3, 1 / 3., 0.34, 0.5, 0.6, 2 / 3., 0.7, 0.75, 0.99, 1,
         1.5)


def variants(n):
    """(function, keywords) for an axis of the given length."""
    out = [(fn, {}) for fn in c05.FNS]
    out += [('std', {'ddof': 1}), ('var', {'ddof': 2})]
    # The tolerances which may matter, as there are n + 1 possible fractions.
    seen = set()
    for tol in MDTOL:
        key = tuple(k / float(n) > tol for k in range(n + 1)) if n else ()
        if key not in seen or tol in (0, 1):
            seen.add(key)
            if tol != 1:
                out.append(('mean', {'mdtol': tol}))
            elif n == 2:
                out.append(('mean', {'mdtol': 1}))
    return out


ALL_MASKS = [[1], [2], [3], [4], [5], [2, 2], [2, 3], [3, 2], [1, 4], [4, 1],
             [2, 1, 2], [2, 2, 2], [4, 2]]
MORE_MASKS = [[6], [7], [8], [2, 4], [3, 3], [2, 5], [5, 2], [1, 3, 2],
              [2, 2, 1, 2], [9], [3, 1, 3]]


def units(tier):
    out = []
    for shape in ALL_MASKS + (MORE_MASKS if tier == 'thorough' else
                              [[6]]):
        n = evals.size_of(shape)
        total = 2 ** n
        step = max(1, total // 32)
        for start in range(0, total, step):
            out.append(('masks', shape, [start, min(total, start + step)]))
    for shape in ([7], [12], [5, 2], [3, 4], [2, 3, 2], [3, 2, 3],
                  [2, 2, 2, 2], [0], [2, 0], [0, 3], [2, 0, 2]):
        for mask in ('third', 'alt', 'all', 'first', 'false', 'none', None,
                     [0, 0, 0, 1, 1], [1, 1, 1, 1, 0, 0, 0],
                     [1, 1, 0, 0, 0, 0, 0, 0, 1, 1, 1, 1]):
            out.append(('shape', shape, mask))
    for dtype in c05.DTYPES:
        for shape in ([5], [3, 4], [2, 2, 3]):
            out.append(('dtype', shape, dtype))
    for name in sorted(c05.VALUES):
        for shape in ([7], [3, 4], [2, 2, 3]):
            out.append(('values', shape, name))
    for mask in ('third', 'alt', 'first', [1, 1, 1, 0, 0]):
        for i in range(len(c05.INPUTS)):
            out.append(('input', mask, i))
    for i in range(len(MIXED)):
        out.append(('mixed', None, i))
    return out


def _mixed():
    """Arrays of which some pieces have got masks, and others haven't."""
    src = c05.src
    m = src([2, 2], mask='alt')
    a = src([2, 2], mask='all')
    f = src([2, 2], mask='first')
    p = src([2, 2])
    n = src([2, 2], mask='none')
    out = []
    for combo in itertools.product((m, a, p, n), repeat=2):
        out.append(['stack', list(combo), [2], 'C'])
        out.append(['mosaic', list(combo), 0])
    for combo in ((p, a, p), (a, a, f), (f, n, a), (p, m, a)):
        out.append(['stack', list(combo), [3], 'C'])
        out.append(['mosaic', list(combo), 1])
    out.append(['meq', src([3, 3], pattern='mod3'), 1])
    out.append(['meq', src([3, 3], pattern='mod3', mask='alt'), 2])
    out.append(['op', '/', src([2, 3], 'f8', 'mod3', 'third'),
                src([3], 'f8', 'mod3')])
    out.append(['un', 'log', src([2, 3], 'f8', 'neg')])
    return out


MIXED = _mixed()


def run(unit, ctx):
    biggus = boot.load()
    model = R.Model()
    what, shape, arg = unit
    full = True
    if what == 'masks':
        n = evals.size_of(shape)
        bases = [c05.src(shape, 'f8' if n % 2 else 'i4', 'mix',
                         [bits >> i & 1 for i in range(n)])
                 for bits in range(*arg)]
        full = n < 8 or ctx.tier == 'thorough'
    elif what == 'shape':
        bases = [c05.src(shape, 'f8', 'neg', arg)]
    elif what == 'dtype':
        bases = [c05.src(shape, arg, 'mix', mask)
                 for mask in ('third', [1, 1, 0, 0, 0, 1])]
        full = False
    elif what == 'values':
        dtype, pattern = c05.VALUES[arg]
        bases = [c05.src(shape, dtype, pattern, mask)
                 for mask in ('alt', 'third', 'first', [0, 1, 1, 0, 1, 1])]
        full = False
    elif what == 'input':
        bases = [c05.inputs(shape)[arg]]
        full = False
    else:
        bases = [MIXED[arg]]
    for base in bases:
        ref = model.eval(base)
        for axis in range(ref.nd.ndim):
            explore(ctx, biggus, model, what, arg, base, axis, full)
    ctx.sample([base, 1])


def explore(ctx, biggus, model, what, arg, base, axis, full):
    x = model.eval(base).nd
    n = x.shape[axis]
    limits = evals.limits_for(x.shape, every=False)
    if what == 'input':
        limits = sorted(set(limits) | set(range(1, x.size * 2, 2)))
    fns = c05.fns_for(x.dtype.str.strip('|'))
    if arg in ('inf', 'nan', 'nan4', 'cnan'):
        # NumPy masks values which aren't finite in some cases only.
        fns = [f for f in fns if f not in ('std', 'var', 'mean')]
    if arg == 'bigf2':
        fns = [f for f in fns if f != 'sum']
    for fn, kws in variants(n):
        if fn not in fns or fn in ('min', 'max') and n == 0:
            continue
        if not full and kws not in ({}, {'mdtol': 0.5}):
            continue
        program = ['agg', fn, base, axis - (x.ndim if fn == 'sum' else 0),
                   kws]
        for limit in limits:
            ctx.count('states')
            ctx.count('transitions')
            message = evals.check(biggus, program, limit, model, ctx=ctx,
                                  nd=False, ways=('e',))
            if message:
                ctx.fail([program, limit], message)


def replay(case):
    program, limit = case
    return evals.check(boot.load(), program, limit, R.Model(), nd=False)
