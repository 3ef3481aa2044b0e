"""C07: composed expressions have the reference value, and can be indexed."""
from mc import boot, evals, progs
from mc import ref as R
from mc import runtime

PROPERTY = 'C07'
COVERAGE = """
All expression trees of the stated depth over an alphabet of about 40
operations (views, selections, elementwise operations with numbers, with
itself, with other arrays, stacks, mosaics, all aggregations along all axes)
on sources of 1 to 3 dimensions; each is evaluated for representative piece
limits, plain (sources without missing data) and masked (with missing data),
through the method and the engine; and for each key of an alphabet, indexed
before evaluation. states = (tree, limit, key) combinations, transitions =
operations in those trees.
"""
ASSUMPTIONS = [
    'the composition of NumPy operations on whole arrays is the reference; '
    'operations which make rounding errors visible (comparing or truncating '
    'computed floating point values) are left out',
    'trees deeper than the bound behave like shallower ones']

LEAVES = [
    ('np', [2, 3], 'i4'), ('ortho', [2, 2, 3], 'f8'), ('np', [5], 'f4'),
    ('np', [3, 1], 'i8'), ('np', [1, 2], 'u1'), ('np', [4], 'c16'),
    ('ortho', [3, 2], '?')]


def units(tier):
    out = []
    for i in range(len(LEAVES)):
        for masked in (False, True):
            depth = 2
            parts = {0: 12, 1: 24}.get(i, 6)
            for part in range(parts):
                out.append([i, masked, depth, part, parts, 'trees'])
            out.append([i, masked, 1, 0, 1, 'keys'])
    for i in (0,):
        for masked in (False, True):
            for part in range(24):
                out.append([i, masked, 3, part, 24, 'few'])
    for i, step in ((0, 1), (1, 3), (2, 1)):
        for masked in (False, True):
            for part in range(0, 8 * step, step):
                # The quick tier takes every third tree over leaf 1.
                out.append([i, masked, 2, part, 8 * step, 'keys'])
                if tier == 'thorough':
                    for more in range(1, step):
                        out.append([i, masked, 2, part + more, 8 * step,
                                    'keys'])
    if tier == 'thorough':
        for i in range(1, len(LEAVES)):
            for masked in (False, True):
                for part in range(48):
                    out.append([i, masked, 3, part, 48, 'few'])
        for i in (0, 3, 5):
            for masked in (False, True):
                for part in range(96):
                    out.append([i, masked, 3, part, 96, 'trees'])
    return out


def leaf(i, masked):
    kind, shape, dtype = LEAVES[i]
    return progs.src(shape, dtype, 'mix', 'third' if masked else None, kind)


def programs(model, unit):
    i, masked, depth, part, parts, what = unit
    mask = 'alt' if masked else None
    base = leaf(i, masked)
    n = 0
    todo = [(base, 0)]
    rich = depth < 2
    while todo:
        p, d = todo.pop()
        if d == depth:
            if n % parts == part:
                yield p
            n += 1
            continue
        if what == 'few':
            successors = progs.few_steps(p, model.eval(p), mask)
        else:
            successors = progs.steps(p, model.eval(p), rich, mask)
        for q in successors:
            todo.append((q, d + 1))


def keys_for(shape):
    out = []
    nd = len(shape)
    if nd:
        out += [[['s', None, None, -1]], [['s', 1, None, None]],
                [['k'], ['s', 0, 1, None]], [['s', 0, 0, None]]]
        if shape[0]:
            out += [[-1], [['t', 0, -1]],
                    [['b'] + [j % 2 for j in range(shape[0])]],
                    [['n'], 0]]
        if nd > 1 and shape[-1]:
            out += [[['k'], -1], [['k'], ['t', 0, 0]],
                    [0] * nd if all(shape) else [['k']],
                    [['s', None, None, 2], ['n'], ['s', None, None, -1]]]
    else:
        out += [[['n']], [['k']]]
    return out


def size(p):
    return 1 + sum(size(q) for q in p if isinstance(q, list) and q and
                   isinstance(q[0], str))


def run(unit, ctx):
    i, masked, depth, part, parts, what = unit
    biggus = boot.load()
    model = R.Model()
    leafsize = evals.size_of(LEAVES[i][1])
    count = 0
    for p in programs(model, unit):
        if len(model.cache) > 5000:
            model.cache.clear()
        count += 1
        ref = model.eval(p)
        if what == 'keys':
            for key in keys_for(ref.nd.shape):
                explore(ctx, biggus, model, p, 2, [key], masked,
                        ('m', 'e') if depth == 1 else ('e',))
            continue
        limits = [1, max(2, leafsize // 2)]
        if ctx.tier == 'thorough':
            limits = sorted(set(limits + [2, 3, leafsize]))
        for limit in limits:
            explore(ctx, biggus, model, p, limit, None, masked, ('e',))
        if what == 'trees':
            explore(ctx, biggus, model, p, 2 * leafsize, None, masked, ('m',))
        ctx.sample([p, 2, None])


def explore(ctx, biggus, model, p, limit, keys, masked, ways):
    ctx.count('states')
    ctx.count('transitions', size(p))
    message = check(biggus, model, p, limit, keys, masked, ctx, ways)
    if message:
        ctx.fail([p, limit, keys, masked], message)


def check(biggus, model, p, limit, keys, masked, ctx, ways):
    try:
        model.eval(p)
        for k in keys or ():
            model.eval(['idx', p, k])
    except R.Invalid:
        return None
    ref = model.eval(p)
    for k in keys or ():
        ref = model.eval(['idx', p, k])

    def go():
        array = R.Builder(biggus).build(p)
        for k in keys or ():
            try:
                array = array[R.dec_keys(k)]
            except NotImplementedError:
                if any(isinstance(x, list) and x[0] in R.VECTORS
                       for x in k):
                    return None
                raise
        return evals.evaluate(biggus, array, ref, nd=not masked, ma=masked,
                              ways=ways, ctx=ctx)
    boot.set_limit(limit)
    try:
        return runtime.result(go)
    except NotImplementedError as e:
        # A vector key within p, applied to a broadcast axis.
        if vector_key(p):
            return None
        return 'raised ' + evals.describe(e)
    except Exception as e:
        return 'raised ' + evals.describe(e)
    finally:
        boot.set_limit(boot.DEFAULT_LIMIT)


def vector_key(p):
    text = repr(p)
    return "['t'" in text or "['a'" in text


def replay(case):
    p, limit, keys, masked = case
    return check(boot.load(), R.Model(), p, limit, keys, masked, None,
                 evals.WAYS)
