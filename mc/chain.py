"""
Exhaustive search over the histories of index operations on a virtual array:
breadth first, merging histories which lead to structurally identical arrays,
and comparing every distinct array reached with the reference model.
"""
import json

import numpy as np
import numpy.ma as ma

from mc import ref as R
from mc import runtime


class Positions(object):
    """
    The result of a chain of index operations, as the positions in the
    original array of the elements selected.
    """
    def __init__(self, ref):
        nd = ref.nd
        self.flat = nd.reshape(-1)
        self.mask = None if ref.ma is None else ma.getmaskarray(
            ref.ma).reshape(-1)
        self.data = None if ref.ma is None else ref.ma.data.reshape(-1)
        self.rough = ref.rough
        self.start = np.arange(nd.size).reshape(nd.shape)

    def ref(self, pos):
        m = None
        if self.mask is not None:
            m = ma.array(self.take(self.data, pos),
                         mask=self.take(self.mask, pos))
        return R.Ref(self.take(self.flat, pos), m, self.rough)

    def same(self, pos1, pos2):
        """Whether two selections have the same shape and values."""
        if pos1.shape != pos2.shape:
            return False
        if pos1.tobytes() == pos2.tobytes():
            return True
        a, b = self.ref(pos1), self.ref(pos2)
        return R.diff_plain(a.nd, b) is None and (
            a.ma is None or R.diff_masked(a.ma, b) is None)

    @staticmethod
    def take(values, pos):
        return values[pos.reshape(-1)].reshape(pos.shape)


def evaluate(array, ref, metadata=True):
    """
    Compare the array's shape, plain and masked values with the reference.
    Returns None or a message.
    """
    shape = array.shape
    if tuple(shape) != ref.nd.shape:
        return 'shape %r, expected %r' % (shape, ref.nd.shape)
    if not isinstance(shape, tuple):
        return 'shape is not a tuple: %r' % (shape,)
    if array.ndim != ref.nd.ndim:
        return 'ndim %r, expected %r' % (array.ndim, ref.nd.ndim)
    if np.dtype(array.dtype) != ref.nd.dtype:
        return 'dtype %r, expected %r' % (array.dtype, ref.nd.dtype)
    message = R.diff_plain(array.ndarray(), ref)
    if message is None and ref.ma is not None:
        message = R.diff_masked(array.masked_array(), ref)
    return message


def describe(e):
    return '%s: %s' % (type(e).__name__, e)


_INSERTS = ('"n"', '"bc"', '"op"', '"bin"')


def may_be_unsupported(keys, program=None, path=()):
    """
    Whether a NotImplementedError is acceptable: vector keys applied to
    broadcast or inserted axes are documented as unsupported.
    """
    text = json.dumps([program, path, keys])
    if not any(tag in text for tag in _INSERTS):
        return False
    return any(isinstance(k, list) and k[0] in R.VECTORS
               for k in keys if isinstance(k, list))


class Search(object):
    """
    levels: for each depth, a function shape -> iterable of encoded keys.
    """

    def __init__(self, ctx, case_of, levels, allow_unsupported=False,
                 limit=None):
        self.ctx = ctx
        self.case_of = case_of
        self.levels = levels
        self.allow_unsupported = allow_unsupported
        self.visited = {}

    def run(self, array, ref):
        return runtime.result(lambda: self._run(array, ref))

    def _run(self, array, ref):
        self.base = Positions(ref)
        pos = self.base.start
        frontier = [((), array, pos)]
        self.visit((), array, pos)
        for level in self.levels:
            nxt = []
            for path, array, pos in frontier:
                for keys in level(pos.shape):
                    item = self.step(path, array, pos, keys)
                    if item is not None:
                        nxt.append(item)
            frontier = nxt

    def step(self, path, array, pos, keys):
        ctx = self.ctx
        decoded = R.dec_keys(keys)
        new_pos = R.index(pos, decoded)
        ctx.count('transitions')
        try:
            new_array = array[decoded]
        except NotImplementedError as e:
            if self.allow_unsupported and may_be_unsupported(
                    keys, self.case_of(path)):
                ctx.count('refused_as_unsupported')
                return None
            ctx.fail(self.case_of(path + (keys,)),
                     'indexing raised ' + describe(e))
            return None
        except Exception as e:
            ctx.fail(self.case_of(path + (keys,)),
                     'indexing raised ' + describe(e))
            return None
        return self.visit(path, new_array, new_pos, keys)

    def visit(self, path, array, pos, keys=None):
        """Returns the item for the frontier if this array is new."""
        ctx = self.ctx
        key = R.struct(array)
        seen = self.visited.get(key)
        if seen is not None:
            if not self.base.same(seen, pos):
                ctx.fail(self.case_of(path + (keys,)),
                         'the same array results from an operation which '
                         'selects other values')
            return None
        if keys is not None:
            path = path + (keys,)
        self.visited[key] = pos
        ctx.count('states')
        try:
            message = evaluate(array, self.base.ref(pos))
        except Exception as e:
            message = 'evaluation raised ' + describe(e)
        ctx.count('traces_validated_against_impl')
        if message:
            ctx.fail(self.case_of(path), message)
            return None
        return (path, array, pos)


def replay_chain(biggus, program, path, allow_unsupported=False):
    """Re-run a chain of index operations."""
    def go():
        ref = R.Model().eval(program)
        array = R.Builder(biggus).build(program)
        message = evaluate(array, ref)
        for keys in path:
            decoded = R.dec_keys(keys)
            ref = ref.map(lambda v: R.index(v, decoded))
            array = array[decoded]
            message = message or evaluate(array, ref)
        return message
    try:
        return runtime.result(go)
    except NotImplementedError as e:
        if allow_unsupported and path and may_be_unsupported(
                path[-1], program, path):
            return None
        return 'raised ' + describe(e)
    except Exception as e:
        return 'raised ' + describe(e)
