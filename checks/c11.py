"""C11: read-ahead is bounded."""
import gc
import weakref

import numpy as np
import numpy.ma as ma

from mc import boot, explore, graphs, progs
from mc import ref as R
from mc import runtime

PROPERTY = 'C11'
COVERAGE = """
For about 30 batches with different thread graphs, plain and masked, cut into
increasing numbers of pieces: each thread is stopped for ever after each of its
steps (synchronisation operations), while all the others (which may give up
waiting, if they have set a time limit) run on (according to
three base schedules, in thorough) until none can. (reads) Where no stage can
get ahead of the others, the number of reads which each source still sees, and
(memory) the number of arrays in memory which have been read, handed over or
derived from what has been read, must not grow with the number of pieces. (save) The same for
the arrays in memory at the writes while saving expressions piece by piece.
To be reported, the numbers have to grow up to 240 pieces, so any reasonable
constant bound is accepted. states = executions, transitions = steps.
"""
ASSUMPTIONS = [
    'a bound on the read-ahead of more than 100 pieces is not distinguished '
    'from none',
    'arrays derived from what has been read are recognised by being of (or a '
    'view on) a subclass of ndarray, which NumPy passes on, or by being '
    'handed over in a queue']

# No stage can get ahead of the others.
LOCKSTEP = ('source', 'un', 'un2', 'add', 'add-self', 'number', 'broadcast',
            'diamond', 'diamond2', 'twice', 'mosaic', 'agg-of-add', 'nested',
            'wide')
# Those which quick also explores masked.
MASKED = ('source', 'add', 'fan', 'separate', 'stack', 'un', 'fan-source')
# Those which quick doesn't explore.
SIMILAR = ('add-self', 'number', 'un2', 'diamond2', 'nested2', 'misaligned',
           'agg-diamond', 'twice')
# The number of pieces doesn't grow.
FIXED = ('empty', 'scalar', 'whole')
NESTED = ('nested', 'nested2')


def sizes(name, tier):
    """Two sizes, and two more for when the second one needs more."""
    if name in NESTED:
        return (6, 12), (30, 60)
    if tier == 'thorough':
        return (40, 80), (160, 320)
    return (20, 40), (120, 240)


def units(tier):
    out = []
    thorough = tier == 'thorough'
    for mask in (None, 'third'):
        for which, g in (('family', graphs.family(True, mask)),
                         ('large', graphs.large(True, mask))):
            for name in sorted(g):
                if name in FIXED:
                    continue
                if mask and not thorough and name not in MASKED:
                    continue
                for base in sorted(explore.BASES) if thorough else ['stay']:
                    if thorough or name not in SIMILAR:
                        out.append(['memory', which, mask, name, base])
                    if name not in LOCKSTEP:
                        continue
                    if mask and not thorough:
                        continue
                    for part in range(4):
                        out.append(['reads', which, mask, name, base, part,
                                    4])
    for mask in (None, 'third'):
        for name in sorted(save_programs(mask, 4)):
            out.append(['save', mask, name])
    out.sort(key=lambda u: (u[1] != 'large', u[0] != 'reads'))
    return out


def run(unit, ctx):
    message = judge(unit, ctx)
    if message:
        ctx.fail(unit, message)
    else:
        ctx.count('traces_validated_against_impl')
        ctx.sample(unit)


def judge(unit, ctx=None, tier=None):
    tier = tier or (ctx.tier if ctx is not None else 'quick')
    name = unit[2] if unit[0] == 'save' else unit[3]
    first, more = sizes(name, tier)
    measure = globals()['measure_' + unit[0]]
    a = measure(unit, first[0], ctx, False)
    b = measure(unit, first[1], ctx, False)
    if ctx is not None:
        for what in b:
            ctx.maximum(unit[0], b[what][0])
    if all(b[k][0] <= a[k][0] for k in b):
        return None
    # Is it only a large bound?
    c = measure(unit, more[0], ctx, True)
    d = measure(unit, more[1], ctx, True)
    for k in b:
        if a[k][0] < b[k][0] < c[k][0] < d[k][0] and \
                d[k][0] - c[k][0] > 0.4 * (more[1] - more[0]):
            return '%s: %s (%d pieces), %s (%d), %s (%d), %s (%d)' % (
                k, a[k][0], first[0], b[k], first[1], c[k], more[0], d[k],
                more[1])
    return None


def graph_of(which, mask, name, n):
    return getattr(graphs, which)(True, mask, n)[name]


class Setting(object):
    def __init__(self, unit, n, factory):
        which, mask, name = unit[1:4]
        ps, limit = graph_of(which, mask, name, n)
        self.biggus = boot.load()
        self.case = graphs.Case(self.biggus, ps, R.Model(), factory)
        self.masked = mask is not None
        boot.set_limit(limit)

    def body(self):
        self.case.evaluate(self.masked)


def stalled(setting, base, task, step, hook=None):
    """
    Run until no task but the given one (which stops after `step` steps) can
    go on. hook is called when it stops.
    """
    choice = explore.BASES[base]
    called = [hook is None]

    def chooser(s, cands, last):
        ready, waiting = [], []
        for i, t in enumerate(cands):
            if t.id == task and t.steps >= step:
                if not called[0]:
                    called[0] = True
                    hook()
            elif i < s.n_ready and s.n_ready <= len(cands):
                ready.append(t)
            else:
                waiting.append(t)
        if ready:
            return choice(ready, last)
        # Nothing but time passes.
        late[0] += 1
        if not waiting or late[0] > 1000:
            return None
        return waiting[late[0] % len(waiting)]
    late = [0]
    s = runtime.Sched(chooser, horizon=1000000)
    s.branch_timeouts = 10 ** 9
    s.run(setting.body)
    return s


def steps_of(setting, base):
    """The number of steps of each task of the undisturbed execution."""
    s = stalled(setting, base, None, 0)
    return [(t.id, t.steps) for t in s.tasks]


# -- Reads --------------------------------------------------------------------
class CountingSource(R.Source):
    n = 0

    def __getitem__(self, keys):
        self.n += 1
        return R.Source.__getitem__(self, keys)


def measure_reads(unit, n, ctx, few):
    base = unit[4]
    made = []

    def factory(p, data):
        s = CountingSource(data, p[1] == 'ortho')
        made.append(s)
        return s
    setting = Setting(unit, n, factory)
    worst = {}
    try:
        k = 0
        for task, total in steps_of(setting, base):
            if task == '0':
                continue
            for step in range(total):
                k += 1
                if not few and k % unit[6] != unit[5] or \
                        few and step > 30:
                    continue
                for s in made:
                    s.n = 0
                before = []
                s = stalled(setting, base, task, step,
                            lambda: before.extend(s.n for s in made))
                if ctx is not None:
                    ctx.count('states')
                    ctx.count('executions')
                    ctx.count('transitions', s.steps)
                if not before:
                    continue
                for i, source in enumerate(made):
                    extra = source.n - before[i]
                    what = 'further reads of source %d' % i
                    if extra > worst.get(what, (-1,))[0]:
                        worst[what] = (extra, task, step)
    finally:
        boot.set_limit(boot.DEFAULT_LIMIT)
    return worst


# -- Arrays in memory ---------------------------------------------------------
REFS = []


class Tracked(np.ndarray):
    def __array_finalize__(self, obj):
        REFS.append(weakref.ref(self))


class TrackedSource(R.Source):
    """What it returns, and all that NumPy derives from it, is registered."""

    def __getitem__(self, keys):
        out = R.Source.__getitem__(self, keys)
        if isinstance(out, ma.MaskedArray):
            return ma.array(np.array(out.data).view(Tracked), mask=out.mask)
        return np.array(out).view(Tracked)


def tracked_factory(p, data):
    return TrackedSource(data, p[1] == 'ortho')


class Register(object):
    """Registers the arrays which are handed over between threads."""

    def put(self, queue, item):
        if isinstance(item, tuple):
            for x in item:
                if isinstance(x, np.ndarray) and not isinstance(x, Tracked):
                    REFS.append(weakref.ref(x))

    def get(self, queue, item):
        pass


def alive():
    # It takes several collections for all to be gone.
    for i in range(5):
        gc.collect()
    return sum(r() is not None for r in REFS)


def measure_memory(unit, n, ctx, few):
    base = unit[4]
    setting = Setting(unit, n, tracked_factory)
    worst = {}
    what = 'arrays in memory'
    saved, runtime.MONITOR = runtime.MONITOR, Register()
    try:
        tasks = steps_of(setting, base)
        if len(tasks) > 40:
            # Nested evaluations.
            tasks = [t for t in tasks if t[0].count('.') < 2] + \
                tasks[len(tasks) // 2:][:4] + tasks[-4:]
        for task, total in tasks:
            k = 4 if few or ctx is None or ctx.tier == 'quick' else 16
            at = {total * i // k for i in range(k)} | {1, total - 1}
            for step in sorted(at):
                if not 0 <= step < total:
                    continue
                del REFS[:]
                s = stalled(setting, base, task, step)
                count = alive()
                if ctx is not None:
                    ctx.count('states')
                    ctx.count('executions')
                    ctx.count('transitions', s.steps)
                if count > worst.get(what, (-1,))[0]:
                    worst[what] = (count, task, step)
                del s
    finally:
        runtime.MONITOR = saved
        boot.set_limit(boot.DEFAULT_LIMIT)
    return worst


# -- Saving -------------------------------------------------------------------
def save_programs(mask, n):
    def a(kind='np', shape=None):
        return progs.src(shape or [n], 'i4', 'mix', mask, kind)
    two = a('ortho', [n, 2])
    return {
        'source': a(),
        'un': ['un', 'negative', a()],
        'add': ['op', '+', a(), a('ortho')],
        'agg': ['agg', 'mean', two, 1],
        'view': ['idx', a(), [['s', None, None, -1]]],
        'astype': ['as', a(), 'f4'],
        'transposed': ['T', two, [1, 0]],
        'mosaic': ['mosaic', [a(), a('ortho')], 0],
        'stack': ['stack', [a(), a('ortho')], [2], 'C'],
        'misaligned': ['op', '*', ['agg', 'sum', two, 1], a()],
        'broadcast': ['op', '-', two, a('np', [2])],
    }


class SaveTarget(object):
    def __init__(self, every):
        self.n = 0
        self.every = every
        self.most = (0,)

    def __setitem__(self, keys, value):
        self.n += 1
        if self.n % self.every == 0:
            count = alive()
            if count > self.most[0]:
                self.most = (count, 'write', self.n)


def measure_save(unit, n, ctx, few):
    what, mask, name = unit
    biggus = boot.load()
    builder = R.Builder(biggus, source_factory=tracked_factory)
    array = builder.build(save_programs(mask, n)[name])
    target = SaveTarget(max(1, n // 6))
    boot.set_limit(1)
    del REFS[:]
    saved, runtime.MONITOR = runtime.MONITOR, Register()
    try:
        runtime.result(lambda: biggus.save([array], [target],
                                           masked=mask is not None))
        if ctx is not None:
            ctx.count('states')
            ctx.count('transitions', target.n)
    finally:
        runtime.MONITOR = saved
        boot.set_limit(boot.DEFAULT_LIMIT)
    return {'arrays in memory at a write': target.most}


def replay(unit):
    return judge(unit, tier='quick')
