"""Alphabets of index keys (in the encoding of mc.ref)."""
import itertools

FULL = ['s', None, None, None]


def slices(n, steps=(None, 1, 2, 3, -1, -2, -3)):
    ends = [None] + list(range(-n - 1, n + 2))
    return [['s', a, b, c] for c in steps for a in ends for b in ends]


def full(n):
    """Everything, for an axis of length n."""
    out = [i for i in range(-n, n)]
    out += [['I', i] for i in range(-n, n)]
    out += [['J', i] for i in (0, n - 1, -1) if -n <= i < n]
    out += slices(n)
    idx = range(-n, n)
    for length in range(0, 4):
        if length == 3 and n > 3:
            continue
        for t in itertools.product(idx, repeat=length):
            out.append(['t'] + list(t))
    for length in range(0, 3):
        for t in itertools.product(idx, repeat=length):
            out.append(['a'] + list(t))
    for t in itertools.product(range(n), repeat=2):
        out.append(['as'] + list(t))
    for bits in itertools.product((0, 1), repeat=n):
        out.append(['b'] + list(bits))
    out += [['l'], ['g'], ['r', 0, n, 1], ['r', n - 1, -1, -1]]
    if n:
        out += [['l', i] for i in idx] + [['g', i] for i in idx]
        out += [['l', n - 1, 0, -1], ['g', 0, -1, 0], ['g', n - 1, -n]]
        out.append(['t'] + [i % n for i in range(5)])
        out.append(['a'] + [-1 - i % n for i in range(6)])
    return out


def mid(n):
    """A representative of each kind of key."""
    out = [FULL, ['s', None, None, -1], ['s', 1, None, None],
           ['s', None, -1, None], ['s', None, None, 2],
           ['s', -1, None, -2], ['s', -n - 2, n + 3, None],
           ['s', 0, 0, None], ['s', n, None, None], ['s', 0, 1, None], ['t']]
    if n:
        out += [0, -1, ['I', n - 1], ['t', n - 1], ['t', -1, 0],
                ['t', 0, 0, n // 2], ['a', n - 1, 0],
                ['b'] + [1 - i % 2 for i in range(n)],
                ['b'] + [1] * n, ['b'] + [0] * n, ['a', -1],
                ['l', n - 1, 0], ['g', -1]]
        if n > 2:
            out += [['s', 1, -1, None], ['s', n - 2, 0, -1], ['t', 1, 2, 1],
                    n - 2, ['a', -n, 1]]
    else:
        out += [['b']]
    return out


def small(n):
    out = [FULL, ['s', None, None, -1], ['s', 1, None, None]]
    if n:
        out += [-1, ['t', n - 1, 0], ['b'] + [i % 2 == 0 and 1 or 0
                                             for i in range(n)],
                ['s', 0, 1, None]]
        if n > 1:
            out += [['a', 1, 1, 0], ['l', 1, 0]]
        if n > 2:
            out += [['s', None, None, 2]]
    else:
        out += [['t']]
    return out


def tiny(n):
    out = [FULL, ['s', None, None, -1]]
    if n:
        out += [n - 1, ['t', -1, 0]]
    return out


LEVELS = dict(full=full, mid=mid, small=small, tiny=tiny)


def single_keys(shape, level):
    """Keys which select from one dimension only, or from all alike."""
    fn = LEVELS[level]
    for axis, n in enumerate(shape):
        for key in fn(n):
            yield [FULL] * axis + [key] + [FULL] * (len(shape) - axis - 1)
    for keys in zip(*[tiny(n) for n in shape]):
        yield list(keys)


def later_keys(shape, level, ndim):
    """
    The keys to use for an array which results from having indexed an array
    of ndim dimensions, for which the level would be the given one.
    """
    extra = len(shape) - max(1, ndim)
    if extra <= 0:
        return nd_keys(shape, level)
    if extra == 1:
        return nd_keys(shape, 'tiny')
    return single_keys(shape, 'tiny')


def nd_keys(shape, level, newaxis=True, ellipsis=True, partial=True):
    """
    Keys for all dimensions: the product of the alphabets per axis; and, with
    a few of those, omitted dimensions, ellipsis and new axes everywhere.
    """
    fn = LEVELS[level]
    per_axis = [fn(n) for n in shape]
    for combo in itertools.product(*per_axis):
        yield list(combo)
    few = [tiny(n) for n in shape]
    nd = len(shape)
    if partial:
        for k in range(nd):
            for combo in itertools.product(*few[:k]):
                yield list(combo)
        if nd:
            for key in fn(shape[0]):
                # (A bare tuple is the key of several dimensions.)
                if not (isinstance(key, list) and key[0] == 't'):
                    yield ['1', key]
    if ellipsis:
        yield ['1', ['k']]
        for left in range(nd + 1):
            for right in range(nd - left + 1):
                for combo in itertools.product(
                        *[few[i][1:] for i in list(range(left)) +
                          list(range(nd - right, nd))]):
                    combo = list(combo)
                    yield combo[:left] + [['k']] + combo[left:]
    if newaxis:
        yield ['1', ['n']]
        for pos in range(nd + 1):
            for combo in itertools.product(*few):
                combo = list(combo)
                yield combo[:pos] + [['n']] + combo[pos:]
        for combo in ([['n'], ['k']], [['k'], ['n']],
                      [['n'], ['k'], ['n'], ['n']]):
            yield combo


def unique(keys):
    seen = set()
    for k in keys:
        text = repr(k)
        if text not in seen:
            seen.add(text)
            yield k
