"""C21: replacing the items of stacks, and what has been made from them."""
import copy

import numpy as np
import numpy.ma as ma

from mc import boot, evals
from mc import ref as R
from mc import runtime

PROPERTY = 'C21'
COVERAGE = """
Worlds which start from one stack (one- and two-dimensional, nested in another
stack, with an item used twice, built in C and Fortran order): all histories up
to the depth bound of: replacing an item (every position, also counted from the
end, in every stack of the world, by every array of a pool, also by an array
made from the stack itself), requests to replace which are to be refused,
indexing, deep copying, transposing, stacking, tiling, negating and aggregating
any array of the world. After each history (in a second run: after each
operation) every array of the world is evaluated, plain and masked, alone and
all in one batch, and compared with a model of objects and references. states =
histories, transitions = operations.
"""
ASSUMPTIONS = [
    'an effect which shows only after more operations than the depth bound '
    'is not found',
    'shallow copies, and changes to the object array which a stack was built '
    'from, are not covered']


# -- The model: objects and references --------------------------------------
class Leaf(object):
    def __init__(self, value):
        self._value = value

    def value(self):
        return self._value


class Stack(object):
    def __init__(self, items, shape):
        self.items = list(items)
        self.shape = tuple(shape)

    def value(self):
        v = [i.value() for i in self.items]
        return ma.stack(v).reshape(self.shape + v[0].shape)


class View(object):
    def __init__(self, kids, f):
        self.kids = kids
        self.f = f

    def value(self):
        return self.f(*[k.value() for k in self.kids])


def snapshot(node, keys):
    """The model of having indexed a node."""
    if isinstance(node, Stack):
        n = len(node.shape)
        full = R.expand(keys, node.value().ndim)
        if not any(k is None for k in full):
            order = R.index(np.arange(len(node.items)).reshape(node.shape),
                            tuple(full[:n]))
            if order.size:
                items = [snapshot(node.items[i], tuple(full[n:]))
                         for i in order.flat]
                if not order.ndim:
                    return items[0]
                return Stack(items, order.shape)
    return Leaf(R.index(node.value(), keys))


def duplicate(node, memo):
    if id(node) not in memo:
        if isinstance(node, Stack):
            new = Stack([duplicate(i, memo) for i in node.items], node.shape)
        elif isinstance(node, View):
            new = View([duplicate(k, memo) for k in node.kids], node.f)
        else:
            new = node
        memo[id(node)] = new
    return memo[id(node)]


def data(i, masked):
    x = np.arange(2 * i, 2 * i + 2, dtype='i4') + 10 * i
    return ma.array(x, mask=[i % 2 == 1, False] if masked else None)


class World(object):
    """The real arrays and the model of each, and what happened to them."""

    def __init__(self, g, start):
        self.g = g
        self.masked = start in ('twice', 'fortran')
        sources = [data(i, self.masked) for i in range(6)]
        pool = [g.NumpyArrayAdapter(s) for s in sources]
        leaves = [Leaf(s) for s in sources]
        self.pool = list(zip(pool[4:], leaves[4:]))
        multi = g.ArrayStack.multidim_array_stack
        self.all = []
        if start == 'line':
            pairs = [(multi(pool[:2], (2,)), Stack(leaves[:2], (2,)))]
        elif start == 'twice':
            pairs = [(multi([pool[1], pool[1]], (2,)),
                      Stack([leaves[1], leaves[1]], (2,)))]
        elif start == 'square':
            x = np.empty(4, dtype=object)
            x[:] = pool[:4]
            pairs = [(g.ArrayStack(x.reshape(2, 2)),
                      Stack(leaves[:4], (2, 2)))]
        elif start == 'fortran':
            pairs = [(multi(pool[:4], (2, 2), order='F'),
                      Stack([Stack([leaves[0], leaves[2]], (2,)),
                             Stack([leaves[1], leaves[3]], (2,))], (2,)))]
        elif start == 'object':
            x = np.empty(2, dtype=object)
            x[:] = pool[:2]
            pairs = [(g.ArrayStack(x), Stack(leaves[:2], (2,)))]
        elif start == 'nested':
            inner = multi(pool[:2], (2,))
            node = Stack(leaves[:2], (2,))
            other = multi(pool[2:4], (2,))
            two = Stack(leaves[2:4], (2,))
            pairs = [(inner, node),
                     (multi([inner, other], (2,)), Stack([node, two], (2,)))]
        for real, node in pairs:
            self.add(real, node)

    def add(self, real, node):
        self.all.append((real, node))

    def operations(self):
        """What can be done next."""
        out = []
        for i, (real, node) in enumerate(self.all):
            value = node.value()
            if isinstance(node, Stack):
                positions = [list(p) for p in np.ndindex(*node.shape)]
                positions.append([-1] * len(node.shape))
                inner = node.items[0].value().shape
                for pos in positions:
                    for j, (_, other) in enumerate(self.pool):
                        if inner == (2,) and (j == 0 or
                                              pos == positions[0]):
                            out.append(['set', i, pos, 'pool', j])
                for j, (_, other) in enumerate(self.all):
                    if j != i and other.value().shape == inner and \
                            not reaches(other, node):
                        out.append(['set', i, positions[0], 'all', j])
                for what in ('shape', 'dtype', 'range', 'few', 'array'):
                    out.append(['refuse', i, what])
            if not value.ndim:
                out += [['copy', i], ['neg', i]]
                continue
            out += [['copy', i], ['T', i], ['neg', i], ['pair', i],
                    ['tile', i]]
            if i == 0:
                out.append(['sum', i])
            keys = [[['s', None, None, None]], [0], [['t', 1, 0]],
                    [['n'], ['k']]]
            if value.shape[0] < 2:
                keys = keys[:2]
            for k in keys:
                out.append(['idx', i, k])
        return out

    def do(self, op):
        g = self.g
        name, i = op[:2]
        real, node = self.all[i]
        if name == 'set':
            _, _, pos, where, j = op
            new, other = getattr(self, where)[j]
            real[tuple(pos)] = new
            at = int(np.arange(len(node.items)).reshape(node.shape)[
                tuple(pos)])
            node.items[at] = other
        elif name == 'refuse':
            return self.refuse(real, node, op[2])
        elif name == 'copy':
            self.add(copy.deepcopy(real), duplicate(node, {}))
        elif name == 'T':
            self.add(real.transpose(), View([node], lambda x: x.T))
        elif name == 'neg':
            self.add(g.negative(real), View([node], lambda x: -x))
        elif name == 'pair':
            self.add(g.ArrayStack.multidim_array_stack([real, real], (2,)),
                     Stack([node, node], (2,)))
        elif name == 'tile':
            self.add(g.LinearMosaic([real, real], 0),
                     View([node], lambda x: ma.concatenate([x, x])))
        elif name == 'sum':
            self.add(g.sum(real, 0), View([node], lambda x: ma.sum(
                x.astype('i4'), 0, dtype='i4')))
        elif name == 'idx':
            keys = R.dec_keys(op[2])
            self.add(real[keys], snapshot(node, keys))
        else:
            raise ValueError(name)

    def refuse(self, real, node, what):
        g = self.g
        inner = node.items[0].value()
        good = g.ConstantArray(inner.shape, 7, inner.dtype)
        pos = (0,) * len(node.shape)
        if what == 'shape':
            good = g.ConstantArray(inner.shape + (1,), 7, inner.dtype)
        elif what == 'dtype':
            good = g.ConstantArray(inner.shape, 7, 'f8')
        elif what == 'array':
            good = np.zeros(inner.shape, inner.dtype)
        elif what == 'range':
            pos = (2,) + pos[1:]
        elif what == 'few':
            pos = pos[1:] if len(pos) > 1 else pos + (0,)
        try:
            real[pos] = good
        except Exception:
            return
        return 'not refused'

    def judge(self, batch=True):
        """None, or what's wrong with some array of the world."""
        for i, (real, node) in enumerate(self.all):
            want = node.value()
            for masked in (True, False)[:1 if self.masked else 2]:
                x = real.masked_array() if masked else real.ndarray()
                message = self.differs(x, want, masked)
                if message:
                    return 'array %d: %s' % (i, message)
        if batch:
            results = self.g.masked_arrays([r for r, _ in self.all])
            for i, x in enumerate(results):
                message = self.differs(x, self.all[i][1].value(), True)
                if message:
                    return 'batch: array %d: %s' % (i, message)

    def differs(self, x, want, masked):
        want = ma.asarray(want)
        m = ma.getmaskarray(want)
        if x.shape != want.shape:
            return 'shape %r, expected %r' % (x.shape, want.shape)
        if masked:
            if not (ma.getmaskarray(x) == m).all() or \
                    not (x.data[~m] == want.data[~m]).all():
                return 'masked: %s, expected %s' % (R._s(x), R._s(want))
        elif not (x == want.data).all():
            return 'plain: %s, expected %s' % (R._s(x), R._s(want))


def reaches(node, target):
    if node is target:
        return True
    kids = getattr(node, 'items', None) or getattr(node, 'kids', ())
    return any(reaches(k, target) for k in kids)


STARTS = ('line', 'twice', 'square', 'fortran', 'object', 'nested')


def depth_of(tier, start):
    if tier == 'thorough':
        return 4 if start in ('line', 'nested') else 3
    return 3 if start in ('line', 'nested') else 2


def units(tier):
    out = []
    for start in STARTS:
        n = 32 if depth_of(tier, start) > 2 else 2
        if tier == 'thorough':
            n *= 8
        out += [[start, part, n] for part in range(n)]
    return out


def perform(g, start, history, each, ctx=None):
    def go():
        world = World(g, start)
        for k, op in enumerate(history):
            try:
                message = world.do(op)
            except Exception as e:
                message = 'raised ' + evals.describe(e)
            if not message and each and k < len(history) - 1:
                message = world.judge(False)
            if message:
                return 'operation %d: %s' % (k, message), []
        if ctx is not None:
            ctx.count('transitions', len(history))
            ctx.count('traces_validated_against_impl')
        try:
            return world.judge(), world.operations()
        except Exception as e:
            return 'raised ' + evals.describe(e), []
    try:
        return runtime.result(go)
    except Exception as e:
        return 'raised ' + evals.describe(e), []


def run(unit, ctx):
    start, part, parts = unit
    g = boot.load()
    depth = depth_of(ctx.tier, start)
    n = 0
    todo = [[]]
    while todo:
        history = todo.pop()
        if len(history) == 2 or len(history) == depth and depth < 2:
            n += 1
            if n % parts != part:
                continue
        elif len(history) < 2 and part:
            # (Just to find what follows; judged in part 0.)
            message, following = perform(g, start, history, False)
            todo += [history + [op] for op in following]
            continue
        ctx.count('states')
        message, following = perform(g, start, history, False, ctx)
        if message:
            ctx.fail([start, history, False], message)
            continue
        if history and history[-1][0] in ('set', 'refuse'):
            message, _ = perform(g, start, history, True, ctx)
            if message:
                ctx.fail([start, history, True], message)
                continue
        if len(history) < depth:
            last = len(history) == depth - 1 and depth > 2
            todo += [history + [op] for op in following
                     if not last or op[0] == 'set']
    ctx.sample([start, history, True])


def replay(case):
    start, history, each = case
    return perform(boot.load(), start, history, each)[0]
