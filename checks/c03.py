"""C03: lazy views are exact, in any nesting, and however they're indexed."""
import itertools
import json

import numpy as np

from checks.c05 import src
from checks import c02
from mc import boot, chain, evals
from mc import keys as K
from mc import ref as R
from mc import runtime

PROPERTY = 'C03'
COVERAGE = """
All sequences, up to the depth bound, of lazy operations (index, new axes,
transpose by every permutation, cast, mask a value, broadcast) on sources,
constants, stacks, mosaics and computed arrays; breadth first, merging
structurally identical arrays. Each distinct array reached is realised plain
and masked and compared with NumPy; those of depth one also through the engine
under every piece limit. states = distinct virtual arrays, transitions =
operations applied.
"""
ASSUMPTIONS = [
    'NumPy transpose/astype/reshape/concatenate/indexing are the reference',
    'two virtual arrays with equal classes and (recursively) equal attributes '
    'behave alike',
    'vector keys for inserted or broadcast axes may be refused with '
    'NotImplementedError']

MAX_NDIM = 5


def perms(nd):
    out = [None]
    for p in itertools.permutations(range(nd)):
        out.append(list(p))
    if nd > 1:
        out.append([i - nd for i in range(nd)][::-1])
        out.append([-1] + list(range(nd - 1)))
    return out


# Values near to, and unlike, those which are masked.
NEAR = [3.0, 3.000002, 'nan', 3.0000000000000004, 'inf', -3.0, 0.0, -0.0, 5.0,
        2.9999999]


def again(shape, dtype, last):
    """
    More operations of the same kind as the last one (which an implementation
    might combine with it).
    """
    nd = len(shape)
    text = dtype.kind in 'SU'
    if last == 'T' and nd <= 4:
        for p in perms(nd):
            yield ['T', None, p]
    elif last == 'as' and not text:
        for d in ('f8', 'f4', 'f2', 'i8', 'i2', 'i1', 'u1', 'u4', '?', 'c8',
                  'c16', None):
            if dtype.kind != 'c' or np.dtype(d).kind == 'c':
                yield ['as', None, d]
    elif last == 'meq' and not text and dtype.kind != 'b':
        for value in (0, 1, 2, 3, 5, 2.5, -3, 201):
            yield ['meq', None, value]
    elif last == 'bc':
        for axis in range(nd):
            if shape[axis] == 1:
                yield ['bc', None, [[axis, 4]], []]
        yield ['bc', None, [], [3]]
        yield ['bc', None, [], [1]]
        yield ['bc', None, [], [0]]


def operations(shape, dtype, level, last=None):
    """The operations (program fragments, with None for the operand)."""
    seen = []
    for op in _operations(shape, dtype, level):
        seen.append(op)
        yield op
    for op in again(shape, dtype, last):
        if op not in seen:
            yield op


def _operations(shape, dtype, level):
    nd = len(shape)
    text = dtype.kind in 'SU'
    if level == 'big':
        keys = K.nd_keys(shape, 'small' if nd < 3 else 'tiny')
        if nd <= 1:
            keys = K.nd_keys(shape, 'full' if sum(shape) <= 3 else 'mid')
    elif level == 'mid':
        keys = K.nd_keys(shape, 'small') if nd <= 1 else (
            K.nd_keys(shape, 'tiny') if nd == 2 else
            K.single_keys(shape, 'small'))
    else:
        keys = K.single_keys(shape, 'tiny')
    for k in K.unique(keys):
        yield ['idx', None, k]
    if nd < MAX_NDIM:
        yield ['idx', None, [['n'], ['k']]]
        yield ['idx', None, [['k'], ['n']]]
        if nd:
            yield ['idx', None, [['s', None, None, None], ['n']]]
    ps = perms(nd)
    if nd > 3 or level == 'small':
        ps = ps[:1] + ps[-2:]
    for p in ps:
        yield ['T', None, p]
    if not text:
        for d in ('f8', 'i2', '?'):
            if dtype.kind != 'c' and (level != 'small' or d == 'i2'):
                yield ['as', None, d]
        yield ['as', None, 'c16']
    if not text and dtype.kind != 'b':
        yield ['meq', None, 3]
        if level == 'big':
            yield ['meq', None, 5]
            yield ['meq', None, 2.5]
            yield ['meq', None, 201]
    ones = [i for i, n in enumerate(shape) if n == 1]
    if nd < MAX_NDIM:
        yield ['bc', None, [], [2]]
        if level != 'small':
            yield ['bc', None, [], [2, 1]]
    for axis in ones[:3]:
        for length in (2, 3, 0, 1) if level != 'small' else (2,):
            yield ['bc', None, [[axis, length]], []]
        if nd < MAX_NDIM and level != 'small':
            yield ['bc', None, [[axis, 2]], [3]]
    if len(ones) > 1:
        yield ['bc', None, [[ones[0], 2], [ones[1], 3]], []]


def bases(tier):
    """(program, levels per depth)."""
    d3 = ['big', 'mid', 'small'] if tier == 'thorough' else [
        'big', 'small']
    d2 = ['big', 'mid']
    out = []
    for kind, mask in (('np', 'third'), ('ortho', None), ('src', 'alt')):
        for shape in ([3], [1], [], [0]):
            out.append((src(shape, 'i4', 'mod3' if kind == 'src' else 'mix',
                            mask, kind), d2))
        for shape in ([2, 3], [1, 2], [3, 1], [1, 1], [2, 0]):
            out.append((src(shape, 'f8' if kind == 'np' else 'i4', 'mix',
                            mask, kind), d3))
        out.append((src([2, 1, 3], 'i4', 'mix', mask, kind), d3))
    out.append((src([2, 2, 1, 2], 'i4', 'mix', 'alt'), ['mid', 'small']))
    for dtype in ('u1', '?', 'c8', 'S2', 'f4'):
        out.append((src([1, 2], dtype, 'mix', 'first'), ['mid', 'small']))
    for dtype, kind, mask in (('f8', 'np', None), ('f8', 'ortho', 'third'),
                              ('f4', 'src', 'alt'), ('c16', 'np', 'first')):
        out.append((src([11], dtype, NEAR, mask, kind), ['mid', 'small']))
    out.append((src([1, 3], 'i1', [-1, 3, 100], 'first'), ['mid', 'small']))
    # Constants.
    for value, dtype in ((3, 'i4'), (2.5, 'f8'), (7, 'u1'), (1, '?'),
                         (-3, None)):
        for shape in ([], [3], [1], [0], 2, [2, 3], [2, 1, 2]):
            nd = len(shape) if isinstance(shape, list) else 1
            levels = d2 if nd <= 1 and dtype == 'i4' else ['mid', 'small']
            if nd > 1 and dtype not in ('i4', '?'):
                continue
            out.append((['const', shape, value, dtype], levels))
    for tag in ('zeros', 'ones'):
        for shape in ([2], [2, 3], 4, []):
            for dtype in ('f8', 'i2', '?'):
                out.append(([tag, shape, dtype], ['mid', 'small']))
    # Views of combined and computed arrays.
    m = c02.mosaic([[1, 2], [2, 2]], 0, 'mixed')
    s = ['stack', c02.items(2, [1], 'mixed'), [2], 'C']
    for program in (m, s, ['T', m, None], ['as', m, 'f4'], ['meq', m, 201],
                    ['idx', m, [['n'], ['k']]],
                    ['op', '+', src([2, 1], mask='alt'), src([2])],
                    ['un', 'negative', src([2, 2], mask='alt')],
                    ['op', '*', src([2], 'f4'), ['py', 2]],
                    ['agg', 'sum', src([2, 1, 2], mask='first'), 0],
                    ['agg', 'max', src([2, 3]), 1]):
        out.append((program, ['mid', 'small']))
    return out


def units(tier):
    out = []
    for program, levels in bases(tier):
        nd = 1
        if program[0] == 'src':
            nd = len(program[2])
        parts = 4 if levels[0] == 'big' else 1
        if tier == 'thorough' and nd > 1:
            parts = 16
        for part in range(parts):
            out.append([program, levels, part, parts])
    return out


def apply_op(biggus, array, op):
    """The operation applied to a virtual array."""
    builder = R.Builder(biggus, share=False)
    builder.build = lambda p: array if p is None else builder._build(p)
    return builder._build(op)


def has_insert(program):
    text = json.dumps(program)
    return any(tag in text for tag in chain._INSERTS)


def has_leading(program):
    text = json.dumps(program)
    return '"bc"' in text or '"op"' in text or '"bin"' in text


def vector_key(op):
    return op[0] == 'idx' and any(
        isinstance(k, list) and k[0] in R.VECTORS for k in op[2])


class Views(object):
    def __init__(self, ctx, biggus):
        self.ctx = ctx
        self.biggus = biggus
        self.visited = {}

    def eval_op(self, op, ref):
        """The reference value."""
        model = R.Model()
        model.eval = lambda p: ref if p is None else R.Model.eval(model, p)
        return model._eval(op)

    def run(self, base, levels, part, nparts):
        ref = R.Model().eval(base)
        array = R.Builder(self.biggus).build(base)
        self.visit(base, [], array, ref)
        frontier = [([], array, ref)]
        for depth, level in enumerate(levels):
            nxt = []
            for path, array, ref in frontier:
                ops = operations(ref.nd.shape, ref.nd.dtype, level,
                                 path[-1][0] if path else None)
                for i, op in enumerate(ops):
                    if op[0] == 'bc' and op[2] and has_leading([base, path]):
                        # The constructor numbers the axes of an array which
                        # has been broadcast already in its own way.
                        continue
                    if depth == 0 and i % nparts != part:
                        continue
                    item = self.step(base, path, array, ref, op)
                    if item is not None and depth + 1 < len(levels):
                        nxt.append(item)
            frontier = nxt

    def step(self, base, path, array, ref, op):
        ctx = self.ctx
        ctx.count('transitions')
        new_path = path + [op]
        try:
            new_array = apply_op(self.biggus, array, op)
        except NotImplementedError as e:
            if vector_key(op) and has_insert([base, path]):
                ctx.count('refused_as_unsupported')
            else:
                ctx.fail([base, new_path, None],
                         'raised ' + evals.describe(e))
            return None
        except Exception as e:
            ctx.fail([base, new_path, None], 'raised ' + evals.describe(e))
            return None
        new_ref = self.eval_op(op, ref)
        return self.visit(base, new_path, new_array, new_ref)

    def visit(self, base, path, array, ref):
        ctx = self.ctx
        key = R.struct(array)
        seen = self.visited.get(key)
        if seen is not None:
            if R.diff_plain(seen.nd, ref) or R.diff_masked(seen.ma, ref):
                ctx.fail([base, path, None],
                         'the same array results from an operation which '
                         'gives other values')
            return None
        self.visited[key] = ref
        ctx.count('states')
        message = evals.evaluate(self.biggus, array, ref, ways=('m',),
                                 ctx=ctx)
        if message:
            ctx.fail([base, path, None], message)
            return None
        if len(path) <= 1:
            for limit in (1, 2, 3):
                boot.set_limit(limit)
                message = evals.evaluate(self.biggus, array, ref,
                                         ways=('e',), ctx=ctx)
                boot.set_limit(boot.DEFAULT_LIMIT)
                if message:
                    ctx.fail([base, path, limit], message)
                    return None
        return path, array, ref


def run(unit, ctx):
    base, levels, part, nparts = unit
    biggus = boot.load()
    R.forget()
    views = Views(ctx, biggus)
    runtime.result(lambda: views.run(base, levels, part, nparts),
                   horizon=10 ** 9)
    ctx.sample([base, [['T', None, None]], None])


def replay(case):
    base, path, limit = case
    biggus = boot.load()
    views = Views(None, biggus)

    def go():
        boot.set_limit(limit or boot.DEFAULT_LIMIT)
        ref = R.Model().eval(base)
        array = R.Builder(biggus).build(base)
        before = []
        for op in path:
            try:
                array = apply_op(biggus, array, op)
            except NotImplementedError as e:
                if vector_key(op) and has_insert([base, before]):
                    return None
                return 'raised ' + evals.describe(e)
            except Exception as e:
                return 'raised ' + evals.describe(e)
            ref = views.eval_op(op, ref)
            before.append(op)
        return evals.evaluate(biggus, array, ref)
    return runtime.result(go)
