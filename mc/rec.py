"""Recording sources and targets, and what an expression depends on."""
import numpy as np
import numpy.ma as ma

from mc import ref as R


class BadRequest(Exception):
    pass


def positions(shape):
    n = 1
    for s in shape:
        n *= s
    return np.arange(n).reshape(shape)


class RecSource(R.Source):
    """Records the positions of the elements of each read."""

    def __init__(self, data, ortho, name=''):
        R.Source.__init__(self, data, ortho, name)
        self.reads = []
        self.pos = positions(data.shape)
        self.on_read = None

    def __getitem__(self, keys):
        if self.on_read is not None:
            self.on_read(self, keys)
        if self.ortho:
            k = keys if isinstance(keys, tuple) else (keys,)
            k = tuple(np.array(x) if isinstance(x, list) else x for x in k)
            try:
                self.reads.append(R.index(self.pos, k))
            except R.Invalid as e:
                raise IndexError(str(e))
        else:
            self.reads.append(np.asarray(self.pos[keys]))
        return R.Source.__getitem__(self, keys)

    def counts(self):
        """How many times each element has been read."""
        out = np.zeros(self.pos.size, dtype=int)
        for r in self.reads:
            np.add.at(out, r.ravel(), 1)
        return out


class RecTarget(object):
    """Records what is assigned to each of its elements, and how often."""

    def __init__(self, shape, dtype, masked):
        self.shape = shape
        self.dtype = dtype
        self.pos = positions(shape)
        self.data = np.zeros(self.pos.size, dtype=dtype)
        self.mask = np.zeros(self.pos.size, dtype=bool)
        self.times = np.zeros(self.pos.size, dtype=int)
        self.writes = []
        self.kinds = set()
        self.on_write = None
        self.masked = masked

    def __setitem__(self, keys, value):
        if self.on_write is not None:
            self.on_write(self, keys)
        where = np.asarray(self.pos[keys])
        self.writes.append(where)
        self.kinds.add('masked' if ma.isMaskedArray(value) else
                       'plain' if type(value) is np.ndarray else
                       type(value).__name__)
        if np.shape(value) != where.shape:
            raise BadRequest('a value of shape %r for a region of shape %r'
                             % (np.shape(value), where.shape))
        self.data[where.ravel()] = ma.getdata(value).ravel()
        self.mask[where.ravel()] = ma.getmaskarray(value).ravel()
        np.add.at(self.times, where.ravel(), 1)


# -- Dependencies -------------------------------------------------------------
NONE = frozenset()


class Deps(object):
    """
    The elements of each source occurrence (numbered in the order in which a
    Builder without sharing makes them) an expression depends on.
    """

    def __init__(self, model):
        self.model = model
        self.leaves = []      # [program, repeated]

    def of(self, p):
        """An object array of frozensets of (leaf, position)."""
        return self._of(p, False)

    def _of(self, p, rep):
        tag = p[0]
        if tag == 'src':
            k = len(self.leaves)
            self.leaves.append([p, rep])
            pos = positions(tuple(p[2]))
            out = np.empty(pos.shape, dtype=object)
            for i in np.ndindex(*pos.shape):
                out[i] = frozenset([(k, int(pos[i]))])
            return out
        if tag in ('const', 'zeros', 'ones', 'npa', 'nps'):
            return self._none(self.model.eval(p).nd.shape)
        if tag == 'py':
            return self._none(())
        if tag == 'idx':
            keys = R.dec_keys(p[2])
            return R.index(self._of(p[1], rep or repeats(p[2])), keys)
        if tag == 'T':
            return self._of(p[1], rep).transpose(p[2])
        if tag in ('as', 'meq'):
            return self._of(p[1], rep)
        if tag == 'bc':
            v = self._of(p[1], True)
            for axis, length in p[2]:
                v = v[(slice(None),) * axis +
                      (np.zeros(length, dtype=int),)]
            for length in list(p[3])[::-1]:
                v = v.reshape((1,) + v.shape)[np.zeros(length, dtype=int)]
            return v
        if tag in ('stack', 'ostack'):
            xs = [self._of(q, rep) for q in p[1]]
            shape = tuple(p[2])
            order = np.arange(len(xs)).reshape(
                shape, order=p[3] if tag == 'stack' else 'C')
            out = np.empty(shape + xs[0].shape, dtype=object)
            for pos in np.ndindex(*shape):
                for i in np.ndindex(*xs[0].shape):
                    out[pos + i] = xs[order[pos]][i]
            return out
        if tag == 'mosaic':
            return np.concatenate([self._of(q, rep) for q in p[1]],
                                  axis=p[2])
        if tag == 'un':
            return self._of(p[2], rep)
        if tag in ('bin', 'op'):
            shape = self.model.eval(p).nd.shape
            xs = []
            for q in p[2:4]:
                qshape = () if q[0] == 'py' else self.model.eval(q).nd.shape
                xs.append(self._of(q, rep or qshape != shape))
            a, b = np.broadcast_arrays(*xs)
            out = np.empty(a.shape, dtype=object)
            for i in np.ndindex(*a.shape):
                out[i] = a[i] | b[i]
            return out
        if tag == 'agg':
            x = self._of(p[2], rep)
            axis = p[3] % x.ndim
            out = np.empty(x.shape[:axis] + x.shape[axis + 1:], dtype=object)
            for i in np.ndindex(*out.shape):
                out[i] = NONE.union(*x[i[:axis] + (slice(None),) + i[axis:]])
            return out
        raise ValueError(p)

    @staticmethod
    def _none(shape):
        out = np.empty(shape, dtype=object)
        for i in np.ndindex(*shape):
            out[i] = NONE
        return out

    def needed(self, p):
        """For each leaf occurrence: (program, needed positions, repeated)."""
        total = NONE.union(*self.of(p).ravel())
        out = [[leaf, set(), rep] for leaf, rep in self.leaves]
        for k, pos in total:
            out[k][1].add(pos)
        return out


def repeats(keys):
    if keys and keys[0] == '1':
        keys = [keys[1]]
    for k in keys:
        if isinstance(k, list) and k[0] in ('t', 'a', 'as', 'l', 'g'):
            if len(set(k[1:])) != len(k) - 1 or min(k[1:] or [0]) < 0:
                return True
    return False


def tags(p, out=None):
    """The tags of the operations and keys of a program, with repeats."""
    if out is None:
        out = []
    if isinstance(p, list):
        if p and isinstance(p[0], str):
            out.append(p[0])
        for q in p:
            tags(q, out)
    return out


def single_reads(p, way):
    """
    Whether evaluating the program reads precisely the elements needed even
    of sources which only support NumPy indexing. (They are read in full along
    axes with index vectors, and indexing several times, as well as stacks,
    mosaics etc., may represent slices as index vectors.)
    """
    if way == 's':
        return False
    if p[0] == 'idx':
        return way == 'm' and p[1][0] == 'src' and \
            not set(tags(p[2])) & {'n'}.union(R.VECTORS)
    return _streams(p)


def _streams(p):
    if p[0] in ('T', 'as', 'meq'):
        return p[1][0] == 'src'
    if p[0] in ('src', 'py'):
        return True
    if p[0] in ('agg', 'un'):
        return _streams(p[2])
    if p[0] in ('op', 'bin'):
        return 'agg' not in tags(p[2:4]) and all(map(_streams, p[2:4]))
    return False


def recording_builder(biggus, share, made):
    def factory(p, data):
        s = RecSource(data, p[1] in ('ortho', 'npo'))
        made.append(s)
        return s
    return R.Builder(biggus, share=share, source_factory=factory)
