"""C08: evaluating a batch equals evaluating each of its members alone."""
import itertools
import json

import numpy as np

from mc import boot, evals, progs
from mc import ref as R
from mc import runtime

PROPERTY = 'C08'
COVERAGE = """
All ordered pairs (from alphabets of 30 to 40 expressions) and all
triples (from alphabets of 12 to 18; in two orders, in the thorough tier all
orders) over shared sources of 1 to 3 dimensions
- sources themselves, views, elementwise operations, operands of different
rank, aggregations along every axis, expressions of aggregations, stacks and
mosaics - evaluated as one batch, plain and masked, for piece limits from one
element to everything; compared with evaluating each member alone under the
same limit. Identical sub-expressions are the same objects. states = (batch,
limit, plain or masked), transitions = members evaluated.
"""
ASSUMPTIONS = [
    'each member evaluated alone is the reference; that those values are right '
    'is C01 to C07',
    'larger batches behave like batches of up to three']


def alphabet(family, masked, small=False):
    mask = 'third' if masked else None
    out = []
    if family == '2d':
        a = progs.src([2, 3], 'i4', 'mix', mask)
        b = progs.src([2, 3], 'i4', 'neg', 'alt' if masked else None, 'ortho')
        c = progs.src([3], 'f8', 'from1', mask)
        s = ['op', '+', a, b]
        rev = ['idx', a, [['s', None, None, -1]]]
        mean0, mean1 = ['agg', 'mean', a, 0], ['agg', 'mean', a, 1]
        out = [a, ['agg', 'sum', a, 0], ['agg', 'sum', a, 1], mean0, s,
               ['agg', 'sum', s, 0], ['agg', 'max', s, 1],
               ['op', '-', a, mean0], ['agg', 'sum', ['op', '*', a, c], 1],
               ['T', a, None], ['agg', 'sum', rev, 0],
               ['agg', 'sum', ['stack', [a, b], [2], 'C'], 0],
               ['agg', 'count', a, 1], ['op', '*', a, c]]
        if small:
            return out
        out += [b, c, mean1, ['agg', 'min', b, 0], ['agg', 'std', a, 0],
                ['agg', 'var', a, 1], ['agg', 'mean', s, 1],
                ['op', '-', mean0, c], ['un', 'negative', a],
                ['agg', 'mean', ['un', 'negative', a], 0],
                ['agg', 'sum', ['T', a, None], 0],
                ['agg', 'sum', ['T', a, None], 1],
                ['idx', s, [0]], ['idx', s, [['k'], -1]],
                ['op', '+', a, rev],
                ['agg', 'max', ['mosaic', [a, b], 0], 0],
                ['agg', 'max', ['mosaic', [a, b], 0], 1],
                ['agg', 'sum', mean0, 0], ['agg', 'sum', mean1, 0],
                ['idx', a, [['t', 1, 0, 1]]],
                ['agg', 'mean', a, 0, {'mdtol': 0.2}], ['as', a, 'f4'],
                ['op', '+', ['agg', 'sum', a, 0], ['agg', 'sum', b, 0]],
                ['op', '-', ['op', '+', a, b], ['op', '*', a, b]]]
    elif family == '3d':
        a = progs.src([2, 2, 3], 'i4', 'mix', mask, 'ortho')
        d = ['op', '*', a, ['py', 3]]
        t = ['T', a, [2, 0, 1]]
        p = progs.src([2, 3], 'i4', 'neg', mask)
        out = [['agg', 'sum', a, 0], ['agg', 'sum', a, 1],
               ['agg', 'sum', a, 2], ['agg', 'sum', d, 0],
               ['agg', 'max', d, 1], ['agg', 'sum', d, 2], d,
               ['agg', 'sum', t, 1], ['agg', 'sum', ['agg', 'sum', a, 0], 1],
               ['agg', 'mean', ['op', '-', a, p], 1], a,
               ['op', '-', a, ['agg', 'min', a, 0]]]
        if small:
            return out
        out += [['agg', 'mean', a, 2], ['agg', 'count', a, 0],
                ['agg', 'std', a, 1], ['agg', 'std', a, 2],
                ['agg', 'max', ['agg', 'sum', a, 2], 1],
                ['agg', 'max', ['agg', 'sum', a, 1], 1],
                ['idx', a, [['k'], ['n'], 1]], t, p,
                ['agg', 'sum', p, 0], ['agg', 'sum', ['op', '-', a, p], 0],
                ['agg', 'sum', ['op', '-', p, a], 2],
                ['idx', d, [1]], ['agg', 'sum', ['idx', d, [1]], 0],
                ['agg', 'sum', ['stack', [a, d], [2], 'C'], 3],
                ['mosaic', [a, d], 1],
                ['agg', 'var', ['mosaic', [a, d], 1], 1],
                ['op', '+', ['agg', 'sum', a, 0], ['agg', 'sum', d, 0]]]
    elif family == '1d':
        a = progs.src([4], 'f4', 'mix', mask)
        b = progs.src([1], 'i4', 'from1', None)
        z = progs.src([0, 2], 'i4', 'from1', mask)
        out = [a, ['agg', 'sum', a, 0], ['agg', 'mean', a, 0],
               ['op', '+', a, b], ['agg', 'max', ['op', '+', a, b], 0],
               ['op', '*', a, ['agg', 'max', a, 0]], z,
               ['agg', 'sum', z, 0], ['agg', 'sum', z, 1],
               ['idx', a, [2]], ['un', 'negative', ['idx', a, [2]]],
               ['un', 'negative', a], ['agg', 'std', a, 0],
               ['const', [3], 2, 'i4'], ['agg', 'count', a, 0],
               ['op', '-', ['agg', 'sum', a, 0], ['agg', 'count', a, 0]]]
        if small:
            return out[:12]
    return out


LIMITS = {'2d': [1, 2, 3, 12], '3d': [1, 2, 3, 6, 24], '1d': [1, 2, 3, 8]}
SPLIT = 6


def units(tier):
    out = []
    for family in ('3d', '2d', '1d'):
        for masked in (False, True):
            n = len(alphabet(family, masked))
            for i in range(n):
                out.append([family, masked, 'pairs', i])
            n = len(alphabet(family, masked, True))
            for i in range(n):
                out.append([family, masked, 'triples', i])
    if tier == 'thorough':
        for family in ('3d', '2d', '1d'):
            for masked in (False, True):
                n = len(alphabet(family, masked))
                for i, j in itertools.product(range(n), range(n)):
                    out.append([family, masked, 'all triples', [i, j]])
    return out


def run(unit, ctx):
    family, masked, what, first = unit
    biggus = boot.load()
    limits = LIMITS[family]
    solo = Solo(biggus, masked)
    if what == 'pairs':
        exprs = alphabet(family, masked)
        batches = [[exprs[first], q] for q in exprs]
        if first == 0:
            batches += [[p] for p in exprs] + [[]]
            batches += [[p, p, p, p] for p in exprs]
    elif what == 'triples':
        exprs = alphabet(family, masked, True)
        rests = itertools.product(exprs, repeat=2)
        if ctx.tier != 'thorough':
            limits = [limits[0], limits[2]]
            # Each set of three, in two (of six) orders.
            rests = itertools.combinations_with_replacement(
                exprs[first:], 2)
        batches = [[exprs[first]] + list(rest) for rest in rests]
        if ctx.tier != 'thorough':
            batches += [b[::-1] for b in batches]
    else:
        exprs = alphabet(family, masked)
        batches = [[exprs[first[0]], exprs[first[1]], r] for r in exprs]
        limits = [1, 3]
    for batch in batches:
        for limit in limits:
            ctx.count('states')
            ctx.count('transitions', len(batch))
            ctx.add('distinct_batches', repr(batch))
            message = check(solo, batch, limit, masked)
            if message is None:
                ctx.count('traces_validated_against_impl')
            else:
                ctx.fail([batch, limit, masked], message)
        ctx.sample([batch, limits, masked])


class Solo(object):
    """Evaluates single expressions, and remembers."""

    def __init__(self, biggus, masked):
        self.biggus = biggus
        self.masked = masked
        self.model = R.Model()
        self.cache = {}

    def get(self, p, limit):
        key = (json.dumps(p), limit)
        if key not in self.cache:
            def go():
                array = R.Builder(self.biggus).build(p)
                if self.masked:
                    return array.masked_array()
                return array.ndarray()
            try:
                v = runtime.result(go)
                rough = self.model.eval(p).rough
                self.cache[key] = R.Ref(None if self.masked else v,
                                        v if self.masked else None, rough)
            except Exception as e:
                self.cache[key] = None
        return self.cache[key]


def check(solo, batch, limit, masked):
    biggus = solo.biggus
    boot.set_limit(limit)
    try:
        refs = [solo.get(p, limit) for p in batch]
        if any(r is None for r in refs):
            return None     # not evaluable on its own

        def go():
            builder = R.Builder(biggus)
            arrays = [builder.build(p) for p in batch]
            f = biggus.masked_arrays if masked else biggus.ndarrays
            return f(arrays)
        try:
            values = runtime.result(go)
        except Exception as e:
            return 'raised ' + evals.describe(e)
        if len(values) != len(batch):
            return '%d results' % len(values)
        for i, (v, ref) in enumerate(zip(values, refs)):
            message = (R.diff_masked if masked else R.diff_plain)(v, ref)
            if message:
                return 'member %d: %s (expected: alone)' % (i, message)
    finally:
        boot.set_limit(boot.DEFAULT_LIMIT)


def replay(case):
    batch, limit, masked = case
    return check(Solo(boot.load(), masked), batch, limit, masked)
