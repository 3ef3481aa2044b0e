"""C17: the dask engine agrees with the default one, in any task order."""
import bisect
import itertools
import json
import math

import numpy as np
import numpy.ma as ma

from mc import boot, evals, progs
from mc import ref as R
from mc import runtime

PROPERTY = 'C17'
COVERAGE = """
(a) All expression trees of the stated depth (alphabet of about 40 operations)
and all pairs from a family of expressions which share sources, plain and
masked, for representative piece limits, through the dask engine: the tasks
are run in every order the graph allows if there are at most 12 orders (120 in
the thorough tier), otherwise in the first, last and reverse order and in every
order which runs one task as early or as late as possible; the results are
compared with the default engine's. (b) All families of up to three interval
partitions (written in every way slices can be written) of one dimension, and
products of partitions in two and three dimensions, for the key grouping; and
partitions of long dimensions into thousands of pieces.
states = task orders and grouping inputs, transitions = tasks run.
"""
ASSUMPTIONS = [
    'a task is atomic; tasks communicate through their results only '
    '(different orders are nevertheless run for real)',
    'fewer than 9999 pieces along a dimension (documented limit of the '
    'grouping)']

LEAVES = [('np', [2, 3], 'i4'), ('ortho', [2, 2, 3], 'f8'), ('np', [5], 'f4'),
          ('np', [3, 3], 'f8'), ('np', [1, 2], 'u1')]


def units(tier):
    out = []
    for i in range(len(LEAVES)):
        for masked in (False, True):
            out.append(['trees', i, masked, 1, 0, 1])
            for part in range(8):
                # (The quick tier takes every other tree over leaf 1.)
                out.append(['trees', i, masked, 2, part,
                            16 if i == 1 and tier != 'thorough' else 8])
            if tier == 'thorough' and i < 3:
                for part in range(32):
                    out.append(['few', i, masked, 3, part, 32])
    for masked in (False, True):
        n = len(family(masked))
        for i in range(n):
            out.append(['pairs', masked, i])
    for n in range(1, 6):
        for part in range(4 if n == 5 else 1):
            out.append(['group1', n, part, 4 if n == 5 else 1])
    if tier == 'thorough':
        for part in range(16):
            out.append(['group1', 6, part, 16])
    for shape in ([2, 3], [3, 3], [2, 2, 2], [1, 4], [4, 2], [1], [1, 1]):
        for k in (1, 2):
            out.append(['groupn', shape, k])
    out.append(['groupn', [2, 2], 3])
    out.append(['groupn', [2, 3], 3])
    for n in (101, 257, 1025, 3000) + ((7000, 9990) if tier == 'thorough'
                                       else ()):
        out.append(['groupmany', n])
    return out


def run(unit, ctx):
    globals()['run_' + unit[0]](unit, ctx)


# -- The engine ---------------------------------------------------------------
class Getter(object):
    """
    A dask scheduler which runs the tasks in the order given by `choose`.
    """
    def __init__(self, choose):
        self.choose = choose
        self.n_tasks = 0

    def __call__(self, dsk, ids, **kwargs):
        deps = {k: self.dependencies(dsk, v) for k, v in dsk.items()}
        keys = list(dsk)
        index = {k: i for i, k in enumerate(keys)}
        graph = [sorted(index[d] for d in deps[k]) for k in keys]
        self.n_tasks = len(keys)
        order = self.choose(graph)
        done = {}
        for i in order:
            k = keys[i]
            done[k] = self.execute(dsk[k], done)
        if isinstance(ids, list):
            return [done[i] for i in ids]
        return done[ids]

    @staticmethod
    def is_key(arg, dsk):
        try:
            return arg in dsk
        except TypeError:
            return False

    @classmethod
    def dependencies(cls, dsk, task):
        out = set()
        if isinstance(task, tuple) and task and callable(task[0]):
            for arg in task[1:]:
                if isinstance(arg, str) and cls.is_key(arg, dsk):
                    out.add(arg)
                elif isinstance(arg, list):
                    out.update(a for a in arg if isinstance(a, str) and
                               cls.is_key(a, dsk))
                elif isinstance(arg, tuple):
                    out |= cls.dependencies(dsk, arg)
        elif isinstance(task, str) and cls.is_key(task, dsk):
            out.add(task)
        return out

    @classmethod
    def execute(cls, task, done):
        if isinstance(task, tuple) and task and callable(task[0]):
            return task[0](*[cls.execute(a, done) for a in task[1:]])
        if isinstance(task, list):
            return [cls.execute(a, done) for a in task]
        if isinstance(task, str) and task in done:
            return done[task]
        return task


def in_order(graph, rank):
    """The topological order which always runs the task of lowest rank."""
    left = set(range(len(graph)))
    done = set()
    out = []
    while left:
        ready = [i for i in left if all(d in done for d in graph[i])]
        i = min(ready, key=lambda i: rank[i])
        left.remove(i)
        done.add(i)
        out.append(i)
    return out


def all_orders(graph, cap):
    """All topological orders, or None if there are more than cap."""
    out = []
    n = len(graph)

    def go(done, order):
        if len(out) > cap:
            return
        if len(order) == n:
            out.append(list(order))
            return
        for i in range(n):
            if i not in done and all(d in done for d in graph[i]):
                done.add(i)
                order.append(i)
                go(done, order)
                order.pop()
                done.discard(i)
    go(set(), [])
    return out if len(out) <= cap else None


def some_orders(graph, thorough):
    n = len(graph)
    base = list(range(n))
    out = [in_order(graph, base), in_order(graph, base[::-1])]
    # Producers first, in both directions: breadth first.
    depth = [0] * n
    for i in in_order(graph, base):
        depth[i] = 1 + max([depth[d] for d in graph[i]] or [0])
    out.append(in_order(graph, [depth[i] * n + i for i in base]))
    out.append(in_order(graph, [depth[i] * n - i for i in base]))
    # Depth first towards each of the tasks.
    for i in range(n) if thorough else range(0, n, max(1, n // 3)):
        rank = list(base)
        need = [i]
        while need:
            j = need.pop()
            rank[j] -= 2 * n
            need += graph[j]
        out.append(in_order(graph, rank))
        rank = list(base)
        rank[i] = 3 * n
        out.append(in_order(graph, rank))
    seen = []
    for order in out:
        if order not in seen:
            seen.append(order)
    return seen


def dask_values(biggus, ps, masked, choose):
    from biggus.experimental.dask_engine import DaskEngine

    def go():
        builder = R.Builder(biggus)
        arrays = [builder.build(p) for p in ps]
        getter = Getter(choose)
        engine = DaskEngine(getter)
        f = engine.masked_arrays if masked else engine.ndarrays
        return f(*arrays), getter.n_tasks
    return runtime.result(go)


def default_values(biggus, ps, masked):
    def go():
        builder = R.Builder(biggus)
        arrays = [builder.build(p) for p in ps]
        f = biggus.masked_arrays if masked else biggus.ndarrays
        return f(arrays)
    return runtime.result(go)


def check(ps, limit, masked, order=None, ctx=None):
    """order: a fixed order, or None for all (of the bounded set)."""
    biggus = boot.load()
    boot.set_limit(limit)
    model = R.Model()
    tier = ctx.tier if ctx else 'quick'
    try:
        try:
            want = default_values(biggus, ps, masked)
        except Exception:
            return None     # not evaluable by the default engine
        refs = []
        for p, w in zip(ps, want):
            rough = model.eval(p).rough
            refs.append(R.Ref(None if masked else w, w if masked else None,
                              rough))
        seen = []

        def first(graph):
            seen.append(graph)
            return in_order(graph, list(range(len(graph))))

        def compare(choose, text):
            try:
                got, n = dask_values(biggus, ps, masked, choose)
            except Exception as e:
                return 'raised %s (order %s)' % (evals.describe(e), text)
            if ctx is not None:
                ctx.count('transitions', n)
                ctx.count('traces_validated_against_impl')
                ctx.count('states')
                ctx.maximum('tasks', n)
            for i, (x, ref) in enumerate(zip(got, refs)):
                message = (R.diff_masked if masked else R.diff_plain)(x, ref)
                if message:
                    return 'result %d: %s (expected: default engine; ' \
                        'order %s)' % (i, message, text)
        if order is not None:
            return compare(lambda graph: order if sorted(order) == list(
                range(len(graph))) else first(graph), order)
        message = compare(first, 'first')
        if message:
            return message
        graph = seen[0]
        if len(graph) > 1:
            thorough = tier == 'thorough'
            orders = all_orders(graph, 120 if thorough else 12)
            if orders is None:
                orders = some_orders(graph, thorough)
                if ctx:
                    ctx.count('graphs_with_bounded_orders')
            elif ctx:
                ctx.count('graphs_with_all_orders')
            for o in orders[1:]:
                message = compare(lambda graph: o, o)
                if message:
                    return message
    finally:
        boot.set_limit(boot.DEFAULT_LIMIT)


def explore(ctx, ps, limit, masked):
    message = check(ps, limit, masked, None, ctx)
    if message:
        ctx.fail(['dask', ps, limit, masked], message)


def run_trees(unit, ctx):
    what, i, masked, depth, part, parts = unit
    kind, shape, dtype = LEAVES[i]
    mask = 'third' if masked else None
    base = progs.src(shape, dtype, 'mix', mask, kind)
    model = R.Model()
    todo = [(base, 0)]
    n = 0
    while todo:
        p, d = todo.pop()
        ref = model.eval(p)
        if d == depth:
            n += 1
            if n % parts != part or not supported(model, p):
                continue
            for limit in (1, 2, 3, 6, 100) if depth == 1 else \
                    ((2, 3) if ctx.tier == 'thorough' else
                     (2 + n // parts % 2,)):
                explore(ctx, [p], limit, masked)
            ctx.sample(['dask', [p], 2, masked])
            continue
        for q in (progs.few_steps(p, ref, mask) if what == 'few' else
                  progs.steps(p, ref, depth < 2, mask)):
            todo.append((q, d + 1))


run_few = run_trees


def supported(model, p):
    return True


def family(masked):
    mask = 'third' if masked else None
    a = progs.src([3, 3], 'i4', 'mix', mask)
    b = progs.src([3, 3], 'f8', 'neg', 'alt' if masked else None, 'ortho')
    s = ['op', '+', a, b]
    return [a, s, ['agg', 'sum', a, 0], ['agg', 'sum', a, 1],
            ['agg', 'mean', s, 0], ['agg', 'max', s, 1],
            ['agg', 'std', a, 0], ['T', s, None],
            ['op', '-', a, ['agg', 'mean', a, 0]],
            ['agg', 'sum', ['op', '*', s, ['agg', 'sum', b, 1]], 0],
            ['agg', 'count', b, 1], ['stack', [a, a], [2], 'C'],
            ['idx', s, [['s', None, None, -1]]],
            ['agg', 'sum', ['agg', 'mean', a, 0], 0]]


def run_pairs(unit, ctx):
    what, masked, i = unit
    ps = family(masked)
    for q in ps:
        for limit in (1, 2, 4, 9):
            explore(ctx, [ps[i], q], limit, masked)


# -- The grouping -------------------------------------------------------------
def cuts(n):
    """All partitions of range(n) into intervals, as lists of (start, stop)."""
    out = []
    for bits in range(1 << max(0, n - 1)):
        edges = [0] + [j + 1 for j in range(n - 1) if bits >> j & 1] + [n]
        out.append(list(zip(edges[:-1], edges[1:])))
    return out


def write(interval, n, style):
    """A slice for the interval, in one of the ways to write it."""
    start, stop = interval
    if style == 0:
        return slice(start, stop)
    if style == 1:
        return slice(start or None, stop if stop < n else None)
    if style == 2:
        return slice(start, stop, 1)
    if style == 3:
        return slice(start - n if start else 0, stop if stop < n else None)
    if style == 4:
        return slice(start or None, stop if stop < n else None, 1)


def run_group1(unit, ctx):
    what, n, part, parts = unit
    allcuts = cuts(n)
    for k in (1, 2, 3):
        for j, family in enumerate(itertools.product(allcuts, repeat=k)):
            if j % parts != part:
                continue
            if k == 3 and n > 4 and ctx.tier != 'thorough' and j % 3:
                continue
            for style in range(5):
                ctx.count('states')
                message = check_group([n], [list(map(lambda i: [i], c))
                                            for c in family], style)
                if message:
                    ctx.fail(['group', [n], [[[i] for i in c]
                                             for c in family], style],
                             message)
                ctx.count('transitions', k)
                ctx.count('traces_validated_against_impl')


def run_groupn(unit, ctx):
    what, shape, k = unit
    per_input = [list(map(list, itertools.product(*combo)))
                 for combo in itertools.product(*[cuts(n) for n in shape])]
    for family in itertools.product(per_input, repeat=k):
        for style in range(5) if k < 3 else (1,):
            for repeat in (1, 2) if k < 3 else (1,):
                fam = [list(f) * repeat for f in family]
                ctx.count('states')
                message = check_group(shape, fam, style)
                if message:
                    ctx.fail(['group', shape, fam, style], message)
                ctx.count('transitions', k)
                ctx.count('traces_validated_against_impl')
    ctx.sample(['group', shape, fam, style])


def many(n):
    """Families of partitions of a long dimension."""
    ones = [(i, i + 1) for i in range(n)]
    twos = [(i, min(i + 2, n)) for i in range(0, n, 2)]
    most = [(0, n // 2)] + ones[n // 2:]
    tens = [(i, min(i + 10, n)) for i in range(0, n, 10)]
    odd = [(0, 1)] + [(i, min(i + 2, n)) for i in range(1, n, 2)]
    whole = [(0, n)]
    return [[ones], [ones, ones], [ones, twos], [twos, tens], [most, ones],
            [most, tens, twos], [ones, whole], [odd, twos], [whole, whole],
            [tens, ones, most[::-1]]]


def run_groupmany(unit, ctx):
    what, n = unit
    for j in range(len(many(n))):
        message = check_many(n, j)
        ctx.count('states')
        ctx.count('transitions', len(many(n)[j]))
        if message:
            ctx.fail(['many', n, j], message[:500])
        else:
            ctx.count('traces_validated_against_impl')
    ctx.sample(['many', n, 0])


def check_many(n, j):
    return check_group([n], [[[i] for i in c] for c in many(n)[j]], 0)


def check_group(shape, family, style):
    """family: for each input, its pieces; each a list of (start, stop)."""
    boot.load()
    import biggus.experimental.key_grouper as kg
    inputs = [[tuple(write(i, n, (style + j) % 5 if j else style)
                     for j, (i, n) in enumerate(zip(piece, shape)))
               for piece in pieces] for pieces in family]
    given = [list(keys) for keys in inputs]
    try:
        groups = kg.group_keys(tuple(shape), *inputs)
    except Exception as e:
        return 'raised ' + evals.describe(e)
    # The common boundaries of all inputs, for each dimension.
    expected = []
    sorted_family = [sorted(tuple(map(tuple, piece)) for piece in pieces)
                     for pieces in family]
    for dim, n in enumerate(shape):
        edges = None
        for pieces in family:
            e = set()
            for piece in pieces:
                e.update(piece[dim])
            edges = e if edges is None else edges & e
        edges = sorted(edges)
        expected.append(list(zip(edges[:-1], edges[1:])))
    want = {}
    for combo in itertools.product(*expected):
        want[combo] = []
        for pieces in sorted_family:
            if len(shape) == 1:
                # (Only those which start within the interval.)
                (a, b), = combo
                inside = pieces[bisect.bisect_left(pieces, ((a, 0),)):
                                bisect.bisect_left(pieces, ((b, 0),))]
            else:
                inside = pieces
            inside = [piece for piece in inside
                      if all(a <= s and t <= b for (s, t), (a, b) in
                             zip(piece, combo))]
            want[combo].append(inside)
    got = {}
    for slice_tuples, members in groups.items():
        combo = tuple(slice(*t).indices(n)[:2]
                      for t, n in zip(slice_tuples, shape))
        if combo in got:
            return 'group %s occurs twice' % (combo,)
        got[combo] = [sorted(tuple(k.indices(n)[:2]
                                   for k, n in zip(keys, shape))
                             for keys in member) for member in members]
    if set(got) != set(want):
        return 'groups %s, expected %s' % (sorted(got), sorted(want))
    for combo in want:
        if [sorted(set(g)) for g in got[combo]] != \
                [sorted(set(g)) for g in want[combo]]:
            return 'group %s has %s, expected %s' % (combo, got[combo],
                                                     want[combo])
    return None


def replay(case):
    if case[0] == 'many':
        return check_many(*case[1:])
    if case[0] == 'group':
        return check_group(*case[1:])
    return check(case[1], case[2], case[3])
