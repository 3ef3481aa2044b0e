"""C13: streamed work is cut into in-limit, disjoint, covering pieces."""
import itertools

import numpy as np

from mc import boot, evals, progs, rec
from mc import ref as R
from mc import runtime

PROPERTY = 'C13'
COVERAGE = """
All shapes of 1 to 4 dimensions with small extents (including zero and one) x
all piece limits from one element to more than the whole array x every way of
streaming (elementwise operation, aggregation along every axis, saving; plain
and masked), on a recording source or, for some shapes, through a view, stack
or mosaic; and some larger shapes with all limits; and saving shapes of up to more than
2 ** 64 elements with limits which lead to at most 200 pieces. Every region read from a
source, or written to a target, is compared with the bounds, the limit and the
regions before. states = (shape, limit, way) combinations, transitions =
pieces.
"""
ASSUMPTIONS = [
    'the limit is the number of elements biggus._init.MAX_CHUNK_SIZE, which '
    'the documentation describes as the maximum size of a piece',
    'shapes with larger extents behave like those enumerated']


def shapes(tier):
    big = tier == 'thorough'
    out = [[n] for n in range(0, 14)]
    out += [list(s) for s in itertools.product(range(6), repeat=2)]
    out += [list(s) for s in itertools.product(range(5 if big else 4),
                                               repeat=3)]
    out += [list(s) for s in itertools.product(range(4 if big else 3),
                                               repeat=4)]
    out += [[], [7, 3], [3, 7], [2, 9, 2], [1, 1, 11], [13, 1], [4, 4, 3],
            [5, 1, 1, 4], [2, 3, 4], [2, 1, 3, 3]]
    if big:
        out += [list(s) for s in itertools.product((1, 2), repeat=5)]
        out += [[40], [17, 5], [6, 7, 8], [9, 8, 3]]
    return out


VIEWS = ['plain', 'T', 'n', 'slice', 'neg', 'mosaic', 'stack', 'as', 'meq']


def units(tier):
    out = []
    for shape in shapes(tier):
        if evals.size_of(shape) > 40:
            for part in range(4):
                out.append([shape, ['plain'], part, 4])
        else:
            out.append([shape, ['plain'], 0, 1])
    for shape in ([2, 3], [3, 2, 2], [5], [4, 3]):
        for view in VIEWS[1:]:
            out.append([shape, [view], 0, 1])
    out.sort(key=lambda u: -evals.size_of(u[0]))
    for i in range(len(GIANT)):
        out.append([GIANT[i], ['giant'], i, len(GIANT)])
    return out


def view_of(view, shape):
    """The expression to stream, of about the given shape."""
    a = progs.src(shape, 'i4', 'mix', 'third', 'ortho')
    if view == 'plain':
        return a
    if view == 'T':
        return ['T', a, None]
    if view == 'n':
        return ['idx', a, [['k'], ['n'], ['s', None, None, None]]]
    if view == 'slice':
        return ['idx', progs.src([shape[0] + 2] + shape[1:], 'i4', 'mix',
                                 'third', 'ortho'), [['s', 1, -1, None]]]
    if view == 'neg':
        return ['idx', a, [['s', None, None, -1]]]
    if view == 'mosaic':
        return ['mosaic', [a, progs.src([2] + shape[1:], 'i4', 'neg',
                                        'alt', 'ortho')], 0]
    if view == 'stack':
        return ['stack', [a, progs.src(shape, 'i4', 'neg', None, 'ortho')],
                [2], 'C']
    if view == 'as':
        return ['as', a, 'f8']
    if view == 'meq':
        return ['meq', a, 3]


def ways(nd, tier='quick'):
    out = [('un', None, True), ('un', None, False), ('save', None, False),
           ('save', None, True), ('nested', None, False)]
    for axis in range(nd):
        out.append(('sum', axis, True))
        out.append(('mean', axis, False))
        if tier == 'thorough':
            out += [(fn, axis, m) for fn in ('count', 'max', 'std')
                    for m in (False, True)]
    return out


# Shapes whose numbers of elements don't fit into 32, 53 or 64 bits.
GIANT = [[2 ** 31, 3], [3, 2 ** 31], [2 ** 16, 2 ** 16, 5], [2 ** 33],
         [2 ** 53 + 1, 2], [5, 2 ** 53 + 1], [2 ** 62, 3], [7, 2 ** 62],
         [3, 2 ** 32, 2 ** 32], [2 ** 32, 2 ** 32, 3], [4, 2 ** 40, 2 ** 40],
         [2 ** 61, 8, 3], [2, 2 ** 31, 2 ** 31, 2 ** 31],
         [3, 5, 2 ** 40, 2 ** 30, 2], [2 ** 62 - 1, 2]]


class Giant(object):
    """A source of any size; it remembers the boxes which have been read."""
    dtype = np.dtype('u1')
    fill_value = None

    def __init__(self, shape):
        self.shape = tuple(shape)
        self.ndim = len(shape)
        self.boxes = []
        self.problem = None

    def box(self, keys):
        keys = keys if isinstance(keys, tuple) else (keys,)
        keys += (slice(None),) * (self.ndim - len(keys))
        out = []
        for key, n in zip(keys, self.shape):
            if isinstance(key, slice):
                start, stop, step = key.indices(n)
                if step != 1 and stop - start > 1:
                    self.problem = 'a region with step %r' % (step,)
                out.append((start, max(start, stop)))
            else:
                key = int(key)
                if not -n <= key < n:
                    raise IndexError(key)
                out.append((key % n, key % n + 1))
        return keys, out

    def __getitem__(self, keys):
        keys, box = self.box(keys)
        self.boxes.append(box)
        shape = tuple(b - a for (a, b), k in zip(box, keys)
                      if isinstance(k, slice))
        return np.broadcast_to(np.zeros((), 'u1'), shape)


class GiantTarget(Giant):
    def __setitem__(self, keys, value):
        self.boxes.append(self.box(keys)[1])


def giant_limits(shape):
    """Limits with which there are few pieces, but as odd as possible."""
    total = 1
    for n in shape:
        total *= n
    out = []
    for pieces in (1, 2, 3, 5, 12, 40):
        for d in (-1, 0, 1):
            out.append(total // pieces + d)
    for bits in (31, 32, 53, 62, 63, 64):
        for d in (-1, 0, 1):
            out.append(2 ** bits + d)
    return sorted(set(m for m in out if total // 200 < m < 2 ** 63))


def run_giant(shape, ctx):
    for limit in giant_limits(shape):
        ctx.count('states')
        message = check_giant(shape, limit, ctx)
        if message:
            ctx.fail(['giant', shape, limit], message)
        else:
            ctx.count('traces_validated_against_impl')


def check_giant(shape, limit, ctx=None):
    biggus = boot.load()
    source, target = Giant(shape), GiantTarget(shape)
    boot.set_limit(limit)
    try:
        runtime.result(lambda: biggus.save(
            [biggus.OrthoArrayAdapter(source)], [target]))
    except Exception as e:
        return 'raised ' + evals.describe(e)
    finally:
        boot.set_limit(boot.DEFAULT_LIMIT)
    for x, what in ((source, 'read'), (target, 'written')):
        if x.problem:
            return x.problem
        total = 0
        for i, box in enumerate(x.boxes):
            if ctx:
                ctx.count('transitions')
            volume = 1
            for a, b in box:
                volume *= b - a
            if volume > limit:
                return 'a region of %d elements was %s (limit %d)' % (
                    volume, what, limit)
            total += volume
            for other in x.boxes[:i]:
                if volume and all(max(a, c) < min(b, d)
                                  for (a, b), (c, d) in zip(box, other)):
                    return 'overlapping regions were ' + what
        want = 1
        for n in shape:
            want *= n
        if total != want:
            return '%d of %d elements were %s' % (total, want, what)


def run(unit, ctx):
    shape, (view,), part, parts = unit
    if view == 'giant':
        return run_giant(shape, ctx)
    base = view_of(view, shape)
    model = R.Model()
    ref = model.eval(base)
    n = ref.nd.size
    limits = list(range(1, n + 2)) if n <= 150 else \
        sorted(set(list(range(1, 40)) + list(range(40, n + 2, 7))))
    for limit in limits[part::parts]:
        for way in ways(ref.nd.ndim, ctx.tier):
            if way[0] in ('max', 'mean', 'std') and not ref.nd.shape[way[1]]:
                continue
            ctx.count('states')
            message = check(base, limit, way, model, ctx)
            if message is None:
                ctx.count('traces_validated_against_impl')
            else:
                ctx.fail([base, limit, way], message)
    ctx.sample([base, limits[-1], ways(ref.nd.ndim)[-1]])


def check(base, limit, way, model, ctx=None):
    biggus = boot.load()
    ref = model.eval(base)
    what, axis, masked = way
    made = []

    def go():
        array = rec.recording_builder(biggus, False, made).build(base)
        target = None
        if what == 'save':
            target = rec.RecTarget(array.shape, array.dtype, masked)
            biggus.save([array], [target], masked)
        else:
            if what == 'un':
                array = biggus.negative(array)
            elif what == 'nested':
                array = biggus.add(biggus.negative(array), 1)
            else:
                array = getattr(biggus, what)(array, axis)
            array.masked_array() if masked else array.ndarray()
        return target
    boot.set_limit(limit)
    try:
        target = runtime.result(go)
    except Exception as e:
        return 'raised ' + evals.describe(e)
    finally:
        boot.set_limit(boot.DEFAULT_LIMIT)
    if target is not None:
        message = regions(target.writes, target.pos.size, limit,
                          'written to the target', ctx)
        if message:
            return message
    deps = rec.Deps(model).needed(base)
    for (leaf, needed, rep), s in zip(deps, made):
        message = regions(s.reads, s.pos.size, limit,
                          'read from the source %s' % leaf, ctx, needed)
        if message:
            return message


def regions(found, size, limit, what, ctx, needed=None):
    seen = np.zeros(size, dtype=int)
    for r in found:
        if ctx is not None:
            ctx.count('transitions')
        if r.size > limit:
            return 'a region of %d elements was %s (limit %d)' % (
                r.size, what, limit)
        np.add.at(seen, r.ravel(), 1)
    want = np.ones(size, dtype=int)
    if needed is not None:
        want[:] = 0
        want[sorted(needed)] = 1
    if not (seen == want).all():
        i = int(np.nonzero(seen != want)[0][0])
        return 'element %d was %s %d times' % (i, what, seen[i])


def replay(case):
    if case[0] == 'giant':
        return check_giant(*case[1:])
    base, limit, way = case
    return check(base, limit, tuple(way), R.Model())
