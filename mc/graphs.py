"""Batches of expressions whose evaluations have different thread graphs."""
import numpy as np

from mc import explore, progs
from mc import ref as R


def A(shape, kind='np', dtype='i4', pattern='mix', mask=None):
    return progs.src(shape, dtype, pattern, mask, kind)


def family(few=True, mask=None, n=None):
    """
    {name: [programs, piece limit]}; with few, each array is cut into 2 to 4
    pieces, otherwise into enough to fill the queues (or into at least n).
    """
    m = n or (2 if few else 3)
    n = n or (3 if few else 6)

    def a1(kind='np', pattern='mix', dtype='i4'):
        return A([n], kind, dtype, pattern, mask)

    def a2(kind='np', pattern='mix', dtype='i4'):
        return A([2, m], kind, dtype, pattern, mask)
    add = ['op', '+', a1(), a1('ortho', 'neg')]
    add2 = ['op', '+', a2(), a2('ortho', 'neg')]
    f1 = a1('np', 'mix', 'f8')
    twice = ['op', '+', f1, f1]
    inner = ['idx', ['agg', 'sum', a2('np', 'mix', 'f8'), 0], [['n'], ['k']]]
    g = {
        'inner': [[['op', '+', twice, f1], ['op', '*', twice, f1]], 1],
        'inner-un': [[['op', '-', f1, twice], ['un', 'negative', twice],
                      twice], 1],
        'view-of-agg': [[['op', '+', inner, inner]], 2],
        'source': [[a1()], 1],
        'agg': [[['agg', 'mean', a1(), 0]], 1],
        'agg-keep': [[['agg', 'mean', a2(), 1]], 1],
        'un': [[['un', 'negative', a1()]], 1],
        'un2': [[['un', 'negative', ['un', 'absolute', a1()]]], 1],
        'add': [[add], 1],
        'add-self': [[['op', '*', a1(), a1()]], 1],
        'number': [[['op', '-', ['py', 7], a1()]], 1],
        'broadcast': [[['op', '+', a2(), A([m], 'ortho', mask=mask)]], 1],
        'diamond': [[['op', '+', a1(), ['un', 'negative', a1()]]], 1],
        'diamond2': [[['op', '+', ['un', 'absolute', a1()],
                       ['un', 'negative', a1()]]], 1],
        'fan': [[['agg', 'std', a1(), 0], ['agg', 'max', a1(), 0]], 1],
        'fan-source': [[['agg', 'sum', a1(), 0], a1()], 1],
        'twice': [[['un', 'negative', a1()], ['un', 'negative', a1()]], 1],
        'fan-un': [[['un', 'negative', a1()],
                    ['agg', 'sum', ['un', 'negative', a1()], 0]], 1],
        'separate': [[['agg', 'min', a1(), 0],
                      ['agg', 'var', a1('ortho'), 0]], 1],
        'agg-diamond': [[['op', '+', ['agg', 'mean', a2(), 1],
                          ['agg', 'max', a2(), 1]]], 1],
        'agg-of-add': [[['agg', 'count', add2, 0]], 1],
        'misaligned': [[['op', '+', ['agg', 'sum', a2(), 1], ['py', 1]]], 1],
        'misaligned2': [[['op', '+', ['agg', 'sum', a2(), 1],
                          A([2], 'np', 'i4', 'neg', mask)]], 1],
        'agg-agg': [[['agg', 'max', ['agg', 'sum', a2(), 1], 0]], 1],
        'stack': [[['agg', 'mean', ['stack', [a1(), a1('ortho')],
                                    [2], 'C'], 0]], 1],
        'mosaic': [[['un', 'negative', ['mosaic', [a1(), a1()], 0]]], 1],
        'view': [[['agg', 'min', ['T', a2(), None], 0]], 1],
        'empty': [[['agg', 'sum', A([0, 2], mask=mask), 1],
                   ['un', 'negative', A([0, 2], mask=mask)]], 1],
        'scalar': [[['un', 'negative', A([], mask=mask)],
                    ['op', '+', A([], mask=mask), ['py', 2]]], 1],
        'uneven': [[['agg', 'max', A([n if m == n else 3 if few else 5],
                                     mask=mask), 0]], 2],
        'whole': [[add, ['agg', 'mean', add2, 0]], 1000],
    }
    return g


def large(few=True, mask=None, n=None):
    """Graphs with more threads."""
    m = n or (2 if few else 3)

    def a2(kind='np', pattern='mix', shape=None):
        return A(shape or [2, m], kind, 'i4', pattern, mask)
    inner = ['agg', 'sum', a2(), 0]
    return {
        'axes': [[['agg', 'mean', a2(), 0], ['agg', 'max', a2(), 1]], 1],
        'three': [[['agg', 'mean', a2(), 1], ['agg', 'max', a2(), 1],
                   ['un', 'negative', a2()]], 2],
        'nested': [[['un', 'negative', ['mosaic', [inner, inner], 0]]], 1],
        'nested2': [[['agg', 'sum', ['stack', [inner, inner], [2], 'C'],
                      1]], 1],
        'wide': [[['op', '+', ['op', '*', a2(), a2('ortho')],
                   ['op', '-', a2(), a2('ortho', 'neg')]]], 2],
    }


def crowd(n, mask=None):
    """Batches which need about n threads."""
    a = A([3], 'np', 'f8', 'mix', mask)
    b = A([2, 3], 'ortho', 'i4', 'neg', mask)
    deep = a
    for i in range(n):
        deep = ['un', 'negative', deep]
    wide = a
    for i in range(n // 2):
        wide = ['op', '+', wide, ['op', '*', a, ['py', i]]]
    return {
        'un': [[['op', '+', a, ['py', i]] for i in range(n // 3)], 2],
        'agg': [[['agg', 'max', ['op', '*', b, ['py', i]], 1]
                 for i in range(n // 3)], 3],
        'same': [[['agg', 'mean', a, 0]] * (n // 2), 2],
        'deep': [[deep], 2],
        'wide': [[wide, a], 1],
    }


def snapshot(results):
    """
    Copies of the results, as they are when they're returned (even if threads
    which are still running should change them later).
    """
    return explore.observe([
        x.copy() if isinstance(x, np.ndarray) and x is not np.ma.masked
        else x for x in results])


class Case(object):
    """A batch built from sources (shared by equal programs)."""

    def __init__(self, biggus, ps, model, factory=None, keep_ortho=True):
        self.biggus = biggus
        self.builder = R.Builder(biggus, source_factory=factory)
        self.arrays = [self.builder.build(p) for p in ps]
        self.sources = self.builder.sources
        self.want = [model.eval(p) for p in ps]

    def evaluate(self, masked):
        if masked:
            return snapshot(self.biggus.masked_arrays(self.arrays))
        return snapshot(self.biggus.ndarrays(self.arrays))

    def compare(self, results, masked):
        if len(results) != len(self.want):
            return '%d results for %d arrays' % (len(results),
                                                 len(self.want))
        for i, (x, want) in enumerate(zip(results, self.want)):
            message = (R.diff_masked if masked else R.diff_plain)(x, want)
            if message:
                return 'member %d: %s' % (i, message)
