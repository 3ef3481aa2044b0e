"""Alphabets of expressions."""
import itertools


def src(shape, dtype='i4', pattern='mix', mask=None, kind='np'):
    return ['src', kind, shape, dtype, pattern, mask]


FNS = ('count', 'min', 'max', 'sum', 'mean', 'std', 'var')
FULL = ['s', None, None, None]


def steps(p, ref, rich=True, mask=None):
    """The programs which apply one more operation to p (with value ref)."""
    x = ref.nd
    nd = x.ndim
    kind = x.dtype.kind
    real = kind != 'c'
    exact = not ref.rough
    shape = list(x.shape)
    out = []
    if nd > 1:
        out.append(['T', p, None])
        if nd > 2:
            out.append(['T', p, [1, 2, 0][:nd] + list(range(3, nd))])
    if nd:
        out.append(['idx', p, [['s', None, None, -1]]])
        n = shape[0]
        if n:
            out.append(['idx', p, [n - 1]])
            out.append(['idx', p, [['t', n - 1, 0, 0]]])
        if n > 1:
            out.append(['idx', p, [['s', 1, None, None]]])
        if nd > 1 and shape[-1] > 1:
            out.append(['idx', p, [['k'], ['s', None, None, 2]]])
            out.append(['idx', p, [['k'], ['a', 1, 0]]])
    if nd < 4:
        out.append(['idx', p, [['n'], ['k']]])
        out.append(['idx', p, [['k'], ['n']]])
        out.append(['bc', ['idx', p, [['n'], ['k']]], [[0, 2]], []])
    if kind != 'b':
        out.append(['un', 'negative', p])
        if kind != 'c':
            out.append(['un', 'absolute', p])
    out.append(['op', '*', p, ['py', 2]])
    out.append(['op', '-', ['py', 1], p])
    if exact and real:
        out.append(['bin', 'greater', p, ['py', 3]])
        out.append(['as', p, 'f4'])
        out.append(['meq', p, 3])
    elif real:
        out.append(['as', p, 'f4'])
    # With itself, and with something of its own shape.
    out.append(['op', '+', p, p])
    if nd:
        out.append(['op', '+' if kind == 'b' else '-', p,
                    ['idx', p, [['s', None, None, -1]]]])
        other = src(shape[1:] if nd > 1 else shape, 'i4', 'neg', mask)
        out.append(['op', '-', p, other])
        out.append(['op', '+', other, p])
    same = src(shape, x.dtype.str.strip('|<'), 'arange', mask)
    if nd < 4:
        out.append(['stack', [p, same], [2], 'C'])
    if nd:
        out.append(['mosaic', [same, p], 0])
        out.append(['mosaic', [p, p], nd - 1])
    for axis in range(nd):
        for fn in FNS:
            if not real and fn in ('min', 'max'):
                continue
            if shape[axis] == 0 and fn in ('min', 'max', 'mean', 'std',
                                           'var'):
                continue
            if fn in ('std', 'var') and shape[axis] < 2:
                continue
            if not rich and fn in ('min', 'var'):
                continue
            out.append(['agg', fn, p, axis])
            if rich and fn == 'mean':
                out.append(['agg', fn, p, axis, {'mdtol': 0.5}])
            if rich and fn == 'std' and shape[axis] > 2:
                out.append(['agg', fn, p, axis, {'ddof': 1}])
    return out


def trees(model, leaves, depth, rich=True, mask=None, keep=None):
    """All programs of the given depth over the leaves."""
    level = list(leaves)
    for d in range(depth):
        nxt = []
        for p in level:
            nxt += steps(p, model.eval(p), rich, mask)
        level = nxt
    return level


def few_steps(p, ref, mask=None):
    """A smaller alphabet, for deeper trees."""
    x = ref.nd
    nd = x.ndim
    shape = list(x.shape)
    out = []
    if nd > 1:
        out.append(['T', p, None])
    if nd:
        out.append(['idx', p, [['s', None, None, -1]]])
        if shape[0] > 1:
            out.append(['idx', p, [['t', shape[0] - 1, 0]]])
    if nd < 3:
        out.append(['idx', p, [['k'], ['n']]])
        out.append(['stack', [p, p], [2], 'C'])
    out.append(['un', 'negative', p])
    out.append(['op', '*', p, ['py', 2]])
    if nd:
        other = src(shape[1:] if nd > 1 else shape, 'i4', 'neg', mask)
        out.append(['op', '-', p, other])
        out.append(['op', '+', ['idx', p, [['s', None, None, -1]]], p])
        out.append(['mosaic', [p, ['un', 'negative', p]], nd - 1])
    for axis in range(nd):
        if not shape[axis]:
            continue
        out.append(['agg', 'sum', p, axis])
        if axis == 0:
            out.append(['agg', 'max', p, axis])
            out.append(['agg', 'count', p, axis])
        else:
            out.append(['agg', 'mean', p, axis])
    return out
