"""Evaluate programs on the real code, and compare with the reference."""
import numpy as np

from mc import boot
from mc import ref as R
from mc import runtime

# The ways to evaluate an array: a method of it, or the engine.
WAYS = ('m', 'e')


def describe(e):
    return '%s: %s' % (type(e).__name__, str(e)[:300])


def values(biggus, array, masked, way):
    if way == 'm':
        return array.masked_array() if masked else array.ndarray()
    if masked:
        return biggus.masked_arrays([array])[0]
    return biggus.ndarrays([array])[0]


def evaluate(biggus, array, ref, nd=True, ma=True, ways=WAYS, dtype=True,
             ctx=None):
    """None, or what's wrong. (Within a controlled execution.)"""
    if tuple(array.shape) != ref.nd.shape:
        return 'shape %r, expected %r' % (array.shape, ref.nd.shape)
    for way in ways:
        for masked in (False, True):
            if masked and (not ma or ref.ma is None) or \
                    not masked and not nd:
                continue
            name = '%s %s: ' % ({'m': 'method', 'e': 'engine'}[way],
                                'masked' if masked else 'plain')
            try:
                x = values(biggus, array, masked, way)
            except Exception as e:
                return name + 'raised ' + describe(e)
            if ctx is not None:
                ctx.count('traces_validated_against_impl')
            diff = R.diff_masked if masked else R.diff_plain
            message = diff(x, ref, dtype)
            if message:
                return name + message


def check(biggus, program, limit, model, ctx=None, keys=None, **kwargs):
    """
    Build the program, index it (keys is a list of index operations),
    evaluate it under the given piece limit.
    """
    ref = model.eval(program)
    for k in keys or ():
        decoded = R.dec_keys(k)
        ref = ref.map(lambda v: R.index(v, decoded))

    def go():
        array = R.Builder(biggus).build(program)
        for k in keys or ():
            array = array[R.dec_keys(k)]
        return evaluate(biggus, array, ref, ctx=ctx, **kwargs)
    boot.set_limit(limit or boot.DEFAULT_LIMIT)
    try:
        return runtime.result(go)
    except Exception as e:
        return 'raised ' + describe(e)
    finally:
        boot.set_limit(boot.DEFAULT_LIMIT)


def size_of(shape):
    n = 1
    for s in shape:
        n *= s
    return n


def limits_for(shape, every=True):
    """
    The piece limits which can make a difference for an array of the given
    shape: all up to its size, or a representative of each way to cut it.
    """
    n = size_of(shape)
    if every:
        return list(range(1, max(1, n) + 1))
    seen = set()
    out = []
    for limit in range(1, max(1, n) + 1):
        cuts = cuts_of(shape, limit)
        if cuts not in seen:
            seen.add(cuts)
            out.append(limit)
    return out


def cuts_of(shape, limit):
    """How the documented algorithm cuts a shape (to pick limits only)."""
    n = 1
    out = []
    for size in reversed(shape):
        if size * n <= limit:
            out.append(0)
        elif n > limit:
            out.append(1)
        else:
            step = limit // n
            out.append(step)
        n *= size
    return tuple(out)
