"""C12: nothing is read before evaluation, then every needed element once."""
import itertools

import numpy as np

from mc import boot, evals, keys as K, progs, rec
from mc import ref as R
from mc import runtime

PROPERTY = 'C12'
COVERAGE = """
(a) All expression trees of the stated depth over an alphabet of about 40
operations on recording sources of 1 to 3 dimensions: built and, after every
step, inspected, with no read allowed; then evaluated (method, engine, plain,
masked, saved) for several piece limits, comparing how often each element of
each occurrence of a source is read with a symbolic dependency computation.
(b) All index histories of length two (three in the thorough tier) on both
adapters. (c) All batches of up to three (four) members of two families of
expressions which share sources through elementwise operations and
aggregations along one axis, for all limits; and batches of up to 48 members.
states = evaluations checked,
transitions = operations.
"""
ASSUMPTIONS = [
    'the dependency computation (sets of source elements, propagated through '
    'the operations) defines which elements are needed',
    'the fancy-indexing adapter may read whole axes which have an index vector']

LEAVES = [('ortho', [2, 3], 'i4'), ('np', [2, 3], 'f4'),
          ('ortho', [2, 1, 3], 'f8'), ('np', [4], 'i8'),
          ('ortho', [3, 2, 2], 'i2')]


def units(tier):
    out = []
    for i in range(len(LEAVES)):
        for masked in (False, True):
            out.append(['trees', i, masked, 1, 0, 1])
            if i in (0, 2) or not masked or tier == 'thorough':
                for part in range(8):
                    out.append(['trees', i, masked, 2, part, 8])
    for shape in ([3], [2, 3], [2, 1, 3], []):
        for kind in ('np', 'ortho'):
            for part in range(8):
                out.append(['chains', kind, shape, 2, part, 8])
                if tier == 'thorough':
                    out.append(['chains', kind, shape, 3, part, 8])
    for family in ('rows', 'columns', 'deep'):
        for masked in (False, True):
            for first in range(len(shared(family, masked))):
                out.append(['batches', family, masked, first])
    for family in ('rows', 'columns', 'deep'):
        for masked in (False, True):
            out.append(['many', family, masked])
    if tier == 'thorough':
        for i in (0, 2):
            for masked in (False, True):
                for part in range(64):
                    out.append(['few', i, masked, 3, part, 64])
    return out


def run(unit, ctx):
    globals()['run_' + unit[0]](unit, ctx)


def tree_programs(model, unit):
    what, i, masked, depth, part, parts = unit
    kind, shape, dtype = LEAVES[i]
    mask = 'third' if masked else None
    base = progs.src(shape, dtype, 'mix', mask, kind)
    n = 0
    todo = [(base, 0)]
    while todo:
        p, d = todo.pop()
        if d == depth:
            if n % parts == part:
                yield p
            n += 1
            continue
        more = progs.few_steps(p, model.eval(p), mask) if what == 'few' else \
            progs.steps(p, model.eval(p), depth < 2, mask)
        for q in more:
            todo.append((q, d + 1))


def run_trees(unit, ctx):
    model = R.Model()
    masked = unit[2]
    for p in tree_programs(model, unit):
        full = unit[3] == 1 or ctx.tier == 'thorough'
        for limit, way in ((1, 'e'), (2, 'm'), (4, 's'), (4, 'e'),
                           (None, 'e')) if full else ((2, 'e'), (4, 's')):
            explore(ctx, [p], limit, masked, way, 'alone')
        ctx.sample([[p], 2, masked, 'e', 'alone'])


run_few = run_trees


def explore(ctx, ps, limit, masked, way, what):
    ctx.count('states')
    ctx.count('transitions', repr(ps).count('[\''))
    message = check(ps, limit, masked, way, what)
    if message is None:
        ctx.count('traces_validated_against_impl')
    else:
        ctx.fail([ps, limit, masked, way, what], message)


def inspect(array):
    if isinstance(array, np.ndarray) or not hasattr(array, 'masked_array'):
        return
    array.shape, array.dtype, array.ndim, array.nbytes
    str(array), repr(array)
    getattr(array, 'fill_value', None)


class InspectingBuilder(R.Builder):
    def _build(self, p):
        x = R.Builder._build(self, p)
        inspect(x)
        for s in self.made:
            if s.reads:
                raise ReadEarly(p)
        return x


class ReadEarly(Exception):
    pass


def check(ps, limit, masked, way, what):
    biggus = boot.load()
    model = R.Model()
    made = []

    def factory(p, data):
        s = rec.RecSource(data, p[1] == 'ortho')
        made.append(s)
        return s

    def go():
        builder = InspectingBuilder(biggus, share=(what == 'shared'),
                                    source_factory=factory)
        builder.made = made
        try:
            arrays = [builder.build(p) for p in ps]
        except ReadEarly as e:
            return 'building or inspecting %s read data' % (e.args[0],)
        for a in arrays:
            inspect(a)
        copies = [a[...] for a in arrays]
        for a in arrays:
            if a.ndim:
                a[::-1], a[:1], a[..., np.newaxis]
        for s in made:
            if s.reads:
                return 'data was read before the evaluation'
        try:
            if way == 'm':
                for a in arrays:
                    a.masked_array() if masked else a.ndarray()
            elif way == 's':
                for a in arrays:
                    biggus.save([a], [rec.RecTarget(a.shape, a.dtype,
                                                    masked)], masked)
            elif masked:
                biggus.masked_arrays(arrays)
            else:
                biggus.ndarrays(arrays)
        except Exception as e:
            return None     # not this property's business
        return compare(ps, made, model, what, way)
    boot.set_limit(limit or boot.DEFAULT_LIMIT)
    try:
        return runtime.result(go)
    except (NotImplementedError, runtime.MCDeadlock):
        return None
    finally:
        boot.set_limit(boot.DEFAULT_LIMIT)


def compare(ps, made, model, what, way):
    if what == 'shared':
        # Every source is needed in full.
        for s in made:
            counts = s.counts()
            if not (counts == 1).all():
                return 'times each element of the shared source %s was ' \
                    'read: %s' % (s.name, counts.reshape(s.shape).tolist())
        return
    deps = rec.Deps(model)
    total = []
    for p in ps:
        deps.leaves = []
        total += deps.needed(p)
    if len(total) != len(made):
        return None
    for (leaf, needed, rep), s in zip(total, made):
        counts = s.counts()
        # A source which only supports NumPy indexing may be read in full
        # along axes with index vectors (also those made from slices by
        # mosaics and new axes).
        loose = leaf[1] == 'np' and not all(rec.single_reads(p, way)
                                            for p in ps)
        for i, n in enumerate(counts):
            if i in needed:
                if n == 0:
                    return 'needed element %d of %s was never read' % (i,
                                                                       leaf)
                if n > 1 and not rep and not loose:
                    return 'element %d of %s was read %d times' % (i, leaf,
                                                                   n)
            elif n and not loose:
                return 'element %d of %s was read but is not needed' % (
                    i, leaf)


# -- Index histories ----------------------------------------------------------
def keys_of(shape, d, tier):
    if d == 0:
        return K.nd_keys(shape, 'tiny')
    if tier == 'thorough' and d == 1:
        return K.single_keys(shape, 'small')
    return K.single_keys(shape, 'tiny')


def run_chains(unit, ctx):
    what, kind, shape, depth, part, parts = unit
    base = progs.src(shape, 'i4', 'mix', None, kind)
    todo = [(['idx', base, k], 1)
            for n, k in enumerate(keys_of(shape, 0, ctx.tier))
            if n % parts == part]
    while todo:
        p, d = todo.pop()
        try:
            model = R.Model()
            sh = model.eval(p).nd.shape
        except R.Invalid:
            continue
        explore(ctx, [p], 2, False, 'm', 'alone')
        if d == 1:
            explore(ctx, [p], 2, True, 'e', 'alone')
            ctx.sample([[p], 2, True, 'e', 'alone'])
        if d < depth:
            for k in keys_of(sh, d, ctx.tier):
                todo.append((['idx', p, k], d + 1))


# -- Sharing ------------------------------------------------------------------
def shared(family, masked):
    """Expressions which need every element of their sources."""
    mask = 'third' if masked else None
    if family == 'deep':
        a = progs.src([2, 2, 3], 'i4', 'mix', mask, 'ortho')
        b = progs.src([2, 2, 3], 'f4', 'neg', mask, 'np')
        axis = 1
    else:
        a = progs.src([3, 4], 'i4', 'mix', mask, 'ortho')
        b = progs.src([3, 4], 'f4', 'neg', mask, 'np')
        axis = 1 if family == 'rows' else 0
    s = ['op', '+', a, b]
    out = [['agg', 'sum', a, axis], ['agg', 'mean', a, axis],
           ['agg', 'max', s, axis], ['agg', 'sum', ['op', '*', a, a], axis],
           ['agg', 'count', b, axis],
           ['op', '-', ['agg', 'sum', a, axis], ['agg', 'min', b, axis]],
           ['agg', 'std', s, axis],
           ['agg', 'var', ['un', 'negative', ['op', '*', s, b]], axis],
           ['un', 'absolute', ['agg', 'sum', s, axis]]]
    if family == 'rows':
        # Elementwise operations need the same traversal as aggregating the
        # last axis.
        out += [a, s, ['op', '*', a, ['py', 2]], ['op', '-', s, a]]
    return out


def run_batches(unit, ctx):
    what, family, masked, first = unit
    exprs = shared(family, masked)
    size = 3 if ctx.tier != 'thorough' else 4
    limits = (1, 2, 3, 5, 8, 12) if family != 'deep' else (1, 3, 6, 12)
    for n in range(0, size):
        for rest in itertools.combinations(exprs[first + 1:], n):
            batch = [exprs[first]] + list(rest)
            for limit in limits if n < 2 else limits[:3]:
                explore(ctx, batch, limit, masked, 'e', 'shared')
            if len(batch) > 1 and n < 2:
                explore(ctx, batch[::-1] + batch[:1], 2, masked, 'e',
                        'shared')
    ctx.sample([[exprs[first], exprs[0]], 2, masked, 'e', 'shared'])


def run_many(unit, ctx):
    """Batches of many members."""
    what, family, masked = unit
    exprs = shared(family, masked)
    n = len(exprs)
    sizes = (4, 5, 6, 8, 9, 12, 16, 17, 24, 33, 48)
    if ctx.tier == 'thorough':
        sizes += tuple(range(40, 140, 7))
    for size in sizes:
        for step in (1, 2, 3):
            batch = [exprs[i * step % n] for i in range(size)]
            # Distinct, but with the same sources.
            batch = [p if i < n or p[0] != 'agg' else
                     p[:2] + [['op', '*', p[2], ['py', i]]] + p[3:]
                     for i, p in enumerate(batch)]
            limit = 3 if size < 20 else 6
            explore(ctx, batch, limit, masked, 'e', 'shared')
    ctx.sample([batch, limit, masked, 'e', 'shared'])


def replay(case):
    return check(*case)
