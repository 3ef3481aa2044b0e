"""C14: saving stores exactly the array's values in the target."""
import copy
import itertools

import numpy as np
import numpy.ma as ma

from mc import boot, evals, progs, rec
from mc import explore as schedules
from mc import ref as R
from mc import runtime

PROPERTY = 'C14'
COVERAGE = """
Every expression of an alphabet of about 40 operations, alone and (in part)
applied twice, on sources of 0 to 4 dimensions (including empty ones), saved
plain and masked for all piece limits to a recording target, a NumPy array and
a masked array; compared with the reference values, each position having to be
assigned exactly once; plus every failing read of a source and every failing
write to the target, with several kinds of exception, which all must be raised
to the caller; and saving some expressions under all schedules which deviate
once (twice, in thorough) from three base schedules. states = saves, transitions = pieces written.
"""
ASSUMPTIONS = ['expressions nested deeper than two operations are saved like '
               'those enumerated']

LEAVES = [
    ('np', [], 'i4'), ('ortho', [5], 'f4'), ('np', [2, 3], 'i4'),
    ('ortho', [3, 2, 2], 'f8'), ('np', [2, 1, 2, 2], 'i2'),
    ('np', [0], 'i4'), ('ortho', [2, 0], 'f4'), ('np', [0, 3], 'u1'),
    ('ortho', [1, 4], '?'), ('np', [3], 'c16'), ('np', [2, 2], 'S3'),
    ('np', [1, 1, 1], 'f8'), ('np', [3, 5], 'u2')]


class Boom(Exception):
    pass


class Fatal(BaseException):
    pass


ERRORS = [Boom, IndexError, StopIteration, KeyError, MemoryError, Fatal,
          GeneratorExit]


def units(tier):
    out = []
    for i in range(len(LEAVES)):
        for masked in (False, True):
            out.append(['values', i, masked, 0, 0, 1])
            if LEAVES[i][2] in ('S3',):
                continue
            for part in range(3):
                out.append(['values', i, masked, 1, part, 3])
            if i in (1, 2) or tier == 'thorough':
                for part in range(16):
                    out.append(['values', i, masked, 2, part, 16])
    for masked in (False, True):
        for name in sorted(scheduled(masked)):
            out.append(['sched', masked, name])
    for i in (1, 2, 3):
        for masked in (False, True):
            for error in range(len(ERRORS)):
                out.append(['faults', i, masked, error])
    return out


def run(unit, ctx):
    globals()['run_' + unit[0]](unit, ctx)


def base_of(i, masked):
    kind, shape, dtype = LEAVES[i]
    return progs.src(shape, dtype, 'mix', 'third' if masked else None, kind)


def run_values(unit, ctx):
    what, i, masked, depth, part, parts = unit
    base = base_of(i, masked)
    mask = 'alt' if masked else None
    model = R.Model()
    todo = [(base, 0)]
    n = 0
    while todo:
        p, d = todo.pop()
        ref = model.eval(p)
        if d == depth:
            n += 1
            if n % parts != part:
                continue
            size = ref.nd.size
            limits = range(1, size + 2) if depth < 2 or \
                ctx.tier == 'thorough' else (1, max(2, size // 2))
            if size > 12 and ctx.tier != 'thorough':
                limits = [m for m in limits if m < 8 or m % 5 == 0]
            for limit in limits:
                explore(ctx, p, limit, masked, 'rec')
            if depth < 2:
                for kind in ('array', 'masked', 'other'):
                    explore(ctx, p, max(1, size // 2), masked, kind)
            ctx.sample([p, 1, masked, 'rec'])
            continue
        for q in progs.steps(p, ref, depth < 2, mask):
            todo.append((q, d + 1))


def explore(ctx, p, limit, masked, kind):
    ctx.count('states')
    message = check(p, limit, masked, kind, ctx)
    if message is None:
        ctx.count('traces_validated_against_impl')
    else:
        ctx.fail([p, limit, masked, kind], message)


def check(p, limit, masked, kind, ctx=None):
    biggus = boot.load()
    ref = R.Model().eval(p)
    shape = ref.nd.shape
    dtype = ref.nd.dtype
    if kind == 'rec':
        target = rec.RecTarget(shape, dtype, masked)
    elif kind == 'array':
        if masked and not shape:
            return None     # NumPy may refuse such an assignment
        target = np.zeros(shape, dtype)
    elif kind == 'masked':
        # Everything is masked, or filled, before.
        target = ma.array(np.ones(shape, dtype), mask=np.ones(shape, bool))
    elif dtype.kind == 'S':
        return None
    else:
        target = ma.array(np.ones(shape, 'c16'))   # of another data type

    def go():
        array = R.Builder(biggus).build(p)
        biggus.save([array], [target], masked=masked)
        # What there is at this moment, even if there are other threads.
        return copy.deepcopy(target)
    boot.set_limit(limit)
    try:
        target = runtime.result(go)
    except NotImplementedError as e:
        if _vector(p):
            return None
        return 'raised ' + evals.describe(e)
    except Exception as e:
        return 'raised ' + evals.describe(e)
    finally:
        boot.set_limit(boot.DEFAULT_LIMIT)
    if kind == 'rec':
        if ctx is not None:
            ctx.count('transitions', len(target.writes))
        if not (target.times == 1).all():
            return 'times each position was assigned: %s' % (
                target.times.reshape(shape).tolist(),)
        want = {'masked'} if masked else {'plain'}
        if target.kinds - want:
            return 'values of type %s were assigned' % sorted(target.kinds)
        data = target.data.reshape(shape)
        mask = target.mask.reshape(shape)
    else:
        data = np.asarray(ma.getdata(target))
        mask = ma.getmaskarray(target)
        if kind == 'other':
            data = (data if dtype.kind == 'c' else data.real).astype(dtype)
    if masked:
        if kind == 'array':
            # There's no room for the mask.
            mask = ma.getmaskarray(ref.ma)
        return R.diff_masked(ma.array(data, mask=mask), ref)
    if mask.any():
        return 'masked positions after saving plain values'
    return R.diff_plain(data, ref)


def _vector(p):
    text = repr(p)
    return "['t'" in text or "['a'" in text


# -- Schedules ----------------------------------------------------------------
def scheduled(masked):
    mask = 'third' if masked else None
    a = progs.src([2, 2], 'i4', 'mix', mask, 'np')
    b = progs.src([2, 2], 'i4', 'neg', mask, 'ortho')
    return {'source': a, 'add': ['op', '+', a, b],
            'sum': ['agg', 'sum', a, 0], 'max': ['agg', 'max', b, 1],
            'stack': ['stack', [a, ['un', 'negative', b]], [2], 'C'],
            'view': ['idx', ['agg', 'mean', a, 0], [['s', None, None, -1]]],
            'masked-equal': ['meq', b, 3]}


class Saving(object):
    def __init__(self, masked, name):
        self.biggus = boot.load()
        self.p = scheduled(masked)[name]
        self.masked = masked
        self.ref = R.Model().eval(self.p)
        boot.set_limit(1)

    def body(self):
        array = R.Builder(self.biggus).build(self.p)
        target = rec.RecTarget(self.ref.nd.shape, self.ref.nd.dtype,
                               self.masked)
        self.biggus.save([array], [target], masked=self.masked)
        target = copy.deepcopy(target)
        schedules.observe([target.data, target.mask, target.times])
        return target

    def verdict(self, e):
        if e.problem:
            return e.problem
        if e.main.exc is not None:
            return 'raised %r' % (e.main.exc,)
        target = e.main.value
        shape = self.ref.nd.shape
        if not (target.times == 1).all():
            return 'times each position was assigned: %s' % (
                target.times.reshape(shape).tolist(),)
        if self.masked:
            return R.diff_masked(ma.array(target.data, mask=target.mask)
                                 .reshape(shape), self.ref)
        return R.diff_plain(target.data.reshape(shape), self.ref)


def run_sched(unit, ctx):
    what, masked, name = unit
    saving = Saving(masked, name)
    thorough = ctx.tier == 'thorough'
    for base in sorted(schedules.BASES):
        st = schedules.Stats()
        found = schedules.deviating(saving.body, saving.verdict, st,
                                  2 if thorough else 1, base, line=False,
                                  timeouts=1,
                                  limit=20000 if thorough else 300)
        ctx.count('states', st.executions)
        ctx.count('schedules', st.executions)
        ctx.count('transitions', st.transitions)
        ctx.count('traces_validated_against_impl', st.executions)
        if not st.exhausted:
            ctx.count('capped_units')
        if found:
            ctx.fail(['sched', masked, name, base, found[1]], found[0])
    boot.set_limit(boot.DEFAULT_LIMIT)
    ctx.sample(['sched', masked, name, base, []])


def replay_sched(case):
    what, masked, name, base, deviations = case
    saving = Saving(masked, name)
    try:
        e, points = schedules.run_deviations(
            saving.body, [tuple(d) for d in deviations], base, line=False,
            timeouts=1)
        return saving.verdict(e)
    finally:
        boot.set_limit(boot.DEFAULT_LIMIT)


# -- Faults -------------------------------------------------------------------
def fault_programs(i, masked):
    base = base_of(i, masked)
    mask = 'alt' if masked else None
    shape = LEAVES[i][1]
    other = progs.src(shape, 'i4', 'neg', mask, 'ortho')
    nd = len(shape)
    out = [base, ['un', 'negative', base], ['op', '+', base, other],
           ['stack', [base, progs.src(shape, LEAVES[i][2], 'neg', mask,
                                      'ortho')], [2], 'C'],
           ['mosaic', [base, progs.src(shape, LEAVES[i][2], 'neg', mask,
                                       'np')], 0],
           ['idx', base, [['s', None, None, -1]]], ['as', base, 'f4'],
           ['T', base, None]]
    for axis in range(nd):
        out += [['agg', 'sum', base, axis], ['agg', 'mean', base, axis]]
    return out


def run_faults(unit, ctx):
    what, i, masked, error = unit
    for p in fault_programs(i, masked):
        for limit in (1, 2, 4, 100):
            for side in ('read', 'write'):
                k = 0
                while True:
                    ctx.count('states')
                    hit, message = check_fault(p, limit, masked, side, k,
                                               error)
                    if message:
                        ctx.fail(['fault', p, limit, masked, side, k, error],
                                 message)
                    elif hit:
                        ctx.count('traces_validated_against_impl')
                        ctx.count('faults_injected')
                    if not hit:
                        break
                    ctx.maximum('fault_position', k)
                    k += 1
    ctx.sample(['fault', p, 1, masked, 'read', 0, error])


def check_fault(p, limit, masked, side, k, error):
    """Let the k-th read or write (counted from 0) fail."""
    biggus = boot.load()
    made = []
    state = dict(n=0, hit=False, writes=None)
    target = None

    def on(self, keys):
        if state['n'] == k:
            state['hit'] = True
            state['n'] += 1
            state['writes'] = len(target.writes)
            raise ERRORS[error]('injected')
        state['n'] += 1

    def go():
        array = rec.recording_builder(biggus, True, made).build(p)
        for s in made:
            if side == 'read':
                s.on_read = on
        biggus.save([array], [target], masked)

    ref = R.Model().eval(p)
    target = rec.RecTarget(ref.nd.shape, ref.nd.dtype, masked)
    if side == 'write':
        target.on_write = on
    boot.set_limit(limit)
    try:
        runtime.result(go)
    except runtime.MCDeadlock as e:
        return state['hit'], 'hangs: %s' % e
    except BaseException as e:
        if not state['hit']:
            return False, 'raised ' + evals.describe(e)
        return True, None
    finally:
        boot.set_limit(boot.DEFAULT_LIMIT)
    if state['hit']:
        return True, 'the failure of %s %d (%s) was not raised' % (
            side, k, ERRORS[error].__name__)
    return False, None


def replay(case):
    if case[0] == 'sched':
        return replay_sched(case)
    if case[0] == 'fault':
        return check_fault(*case[1:])[1]
    return check(*case)
