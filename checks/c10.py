"""C10: a failure anywhere in an evaluation is reported."""
import itertools
import queue

import numpy as np
import numpy.ma as ma

from mc import boot, evals, explore, graphs, progs
from mc import ref as R
from mc import runtime

PROPERTY = 'C10'
COVERAGE = """
Failures are injected by the sources: (read) reading any chosen element of any
source fails, always or just the first time; (value) the arithmetic on, or the
conversion of, any chosen element fails, wherever it happens (operators,
accumulation, finalising, storing the result); (set-up) the operation doesn't
exist for masked arrays, or a member isn't an array. Batches of about
30 thread graphs are evaluated, plain and masked. For each single failure,
every interleaving of the synchronisation operations (merging equal states, up
to the given number of executions in quick); with 20 kinds of exception and for
all pairs of failures, three base schedules; for chosen failures, all schedules
with one deviation at any executed statement; one evaluation after another
which has failed, with one deviation at any synchronisation operation; and all
kinds of arrays (alphabet of about 40 operations, up to twice) with every read
failing, through the methods of the array and the engine. Each time, the call
has to raise if a failure has occurred (and otherwise, to be right), no thread
may be left blocked, and afterwards the same arrays have to be evaluated
rightly. states = distinct global states + schedules, transitions = scheduling
decisions.
"""
ASSUMPTIONS = [
    'pre-emption within a statement (with merging: between synchronisation '
    'operations and reads) is not explored']
TIMEOUTS = 0


class Boom(Exception):
    pass


class Fatal(BaseException):
    pass


ERRORS = [Boom, KeyboardInterrupt, SystemExit, GeneratorExit, Fatal,
          StopIteration, MemoryError, queue.Full, queue.Empty, AttributeError,
          TypeError, KeyError, IndexError, AssertionError, OSError,
          NotImplementedError, RecursionError, ZeroDivisionError,
          UnicodeDecodeError, DeprecationWarning]


def make_error(i):
    if ERRORS[i] is UnicodeDecodeError:
        return UnicodeDecodeError('ascii', b'x', 0, 1, 'injected')
    return ERRORS[i]('injected')


# -- Failing reads ------------------------------------------------------------
class Plan(object):
    """Which failures are going to happen: (source, position, mode)."""

    def __init__(self):
        self.faults = []
        self.error = 0
        self.armed = True
        self.point = False
        self.fired = 0

    def reset(self, faults, error):
        self.faults = [tuple(f) for f in faults]
        self.error = error
        self.point = any(f[2] != 'always' for f in self.faults)
        self.start()

    def start(self):
        self.armed = True
        self.fired = 0
        self.seen = set()

    def hit(self):
        self.fired += 1
        s = runtime.CURRENT
        if s is not None:
            s.note('fault')
        raise make_error(self.error)


class FaultSource(R.Source):
    def __init__(self, data, ortho, number, plan):
        R.Source.__init__(self, data, ortho)
        self.number = number
        self.plan = plan
        self.pos = np.arange(data.size).reshape(data.shape)

    def __getitem__(self, keys):
        plan = self.plan
        if plan.armed:
            if plan.point and runtime.CURRENT is not None:
                runtime.CURRENT.point('read', None)
            try:
                k = keys if isinstance(keys, tuple) else (keys,)
                which = set(R.index(self.pos, k).ravel().tolist()) \
                    if self.ortho else \
                    set(np.asarray(self.pos[keys]).ravel().tolist())
            except Exception:
                which = set(self.pos.ravel().tolist())
            for fault in plan.faults:
                number, position, mode = fault
                if number == self.number and (
                        position in which or position == -1):
                    if mode == 'first' and fault in plan.seen:
                        continue
                    plan.seen.add(fault)
                    plan.hit()
        return R.Source.__getitem__(self, keys)


# -- Failing values -----------------------------------------------------------
class Num(object):
    """A number on which (or on what's computed from which) things fail."""
    __slots__ = ('v', 'ids', 'plan')

    def __init__(self, v, ids, plan):
        self.v = v
        self.ids = ids
        self.plan = plan

    def __repr__(self):
        return 'Num(%r)' % (self.v,)

    def check(self, op, other=None):
        plan = self.plan
        if plan.armed and op in plan.ops:
            ids = self.ids
            if isinstance(other, Num):
                ids = ids | other.ids
            if plan.which <= ids:
                plan.hit()


def _value(x):
    return x.v if isinstance(x, Num) else x


def _binary(op, fn, swap=False):
    def method(self, other):
        self.check(op, other)
        ids = self.ids
        if isinstance(other, Num):
            ids = ids | other.ids
        a, b = self.v, _value(other)
        r = fn(b, a) if swap else fn(a, b)
        if isinstance(r, (bool, np.bool_)):
            return r
        return Num(r, ids, self.plan)
    return method


def _unary(op, fn):
    def method(self):
        self.check(op)
        r = fn(self.v)
        if op in ('bool', 'int', 'float'):
            return r
        return Num(r, self.ids, self.plan)
    return method


for _op, _names, _fn in (
        ('add', ('__add__', '__radd__'), lambda a, b: a + b),
        ('sub', ('__sub__', '__rsub__'), lambda a, b: a - b),
        ('mul', ('__mul__', '__rmul__'), lambda a, b: a * b),
        ('div', ('__truediv__', '__rtruediv__'), lambda a, b: a / b),
        ('cmp', ('__lt__',), lambda a, b: a < b),
        ('cmp', ('__le__',), lambda a, b: a <= b),
        ('cmp', ('__gt__',), lambda a, b: a > b),
        ('cmp', ('__ge__',), lambda a, b: a >= b),
        ('cmp', ('__eq__',), lambda a, b: a == b),
        ('cmp', ('__ne__',), lambda a, b: a != b)):
    for _i, _name in enumerate(_names):
        setattr(Num, _name, _binary(_op, _fn, _i == 1))
for _op, _name, _fn in (('neg', '__neg__', lambda a: -a),
                        ('abs', '__abs__', abs),
                        ('int', '__int__', int), ('int', '__index__', int),
                        ('float', '__float__', float),
                        ('bool', '__bool__', bool),
                        ('sqrt', 'sqrt', lambda a: a ** 0.5)):
    setattr(Num, _name, _unary(_op, _fn))
Num.__hash__ = None

VALUE_OPS = ['add', 'sub', 'mul', 'div', 'cmp', 'neg', 'abs', 'int', 'float']


class ValuePlan(Plan):
    def reset(self, which, ops, error):
        self.which = frozenset(which)
        self.ops = frozenset(ops)
        self.error = error
        self.point = False
        self.start()


class NumSource(R.Source):
    """A source of Nums; its data type may be pretended to be another."""

    def __init__(self, data, ortho, number, plan, dtype):
        out = np.empty(data.shape, dtype=object)
        flat = out.reshape(-1)
        for i, v in enumerate(ma.getdata(data).ravel().tolist()):
            flat[i] = Num(v, frozenset([(number, i)]), plan)
        if ma.isMaskedArray(data):
            out = ma.array(out, mask=ma.getmaskarray(data))
        R.Source.__init__(self, out, ortho)
        self.dtype = np.dtype(dtype)
        self.size_ = data.size


def numbers(x):
    """Plain numbers for the Nums of a result."""
    data = ma.getdata(x)
    if data.dtype != object:
        return x
    out = np.array([float(_value(v)) if v is not None else 0.
                    for v in data.ravel()]).reshape(data.shape)
    if ma.isMaskedArray(x):
        return ma.array(out, mask=ma.getmaskarray(x))
    return out


# -- Cases --------------------------------------------------------------------
class Harness(object):
    def __init__(self, ps, limit, masked, kind='read', line=False):
        self.biggus = boot.load(line=True)
        self.masked = masked
        self.limit = limit
        self.kind = kind
        self.plan = Plan() if kind == 'read' else ValuePlan()
        made = self.made = []

        def factory(p, data):
            ortho = p[1] in ('ortho', 'npo')
            if kind == 'read':
                s = FaultSource(data, ortho, len(made), self.plan)
            else:
                s = NumSource(data, ortho, len(made), self.plan,
                              'O' if kind == 'value' else p[3])
            made.append(s)
            return s
        self.case = graphs.Case(self.biggus, ps, R.Model(), factory)
        boot.set_limit(limit)

    def done(self):
        boot.set_limit(boot.DEFAULT_LIMIT)

    def body(self):
        self.plan.start()
        try:
            return self.case.evaluate(self.masked)
        except BaseException as e:
            if isinstance(e, runtime.GreenletKill):
                raise
            return e

    def again(self):
        """A failing evaluation followed by one without failure."""
        first = self.body()
        self.plan.armed = False
        if not isinstance(first, BaseException) and self.plan.fired:
            return first, None
        return first, self.case.evaluate(self.masked)

    def compare(self, results):
        if self.kind == 'read':
            return self.case.compare(results, self.masked)
        for i, (x, want) in enumerate(zip(results, self.case.want)):
            if x.shape != want.nd.shape:
                return 'member %d: shape %r' % (i, x.shape)
            w = want.ma if self.masked else want.nd
            a, b = numbers(x), numbers(w)
            ka, kb = ma.getmaskarray(a), ma.getmaskarray(b)
            if (ka != kb).any() or not np.allclose(
                    ma.getdata(a)[~ka], ma.getdata(b)[~kb]):
                return 'member %d: %s, expected %s' % (i, a, b)

    def verdict(self, e, recover=True):
        if e.problem:
            return e.problem
        if e.main.exc is not None:
            return 'raised %r' % (e.main.exc,)
        value = e.main.value
        message = self.outcome(value)
        if message or not recover:
            return message
        self.plan.armed = False
        out = runtime.call(lambda: self.case.evaluate(self.masked))
        if out.deadlock is not None:
            return 'afterwards: hangs'
        if out.exc is not None:
            return 'afterwards: raised %r' % (out.exc,)
        message = self.compare(out.value)
        return message and 'afterwards: ' + message

    def verdict_again(self, e):
        if e.problem:
            return e.problem
        if e.main.exc is not None:
            return 'the second evaluation raised %r' % (e.main.exc,)
        first, second = e.main.value
        message = self.outcome(first)
        if message is None and second is not None:
            message = self.compare(second)
            message = message and 'second evaluation: ' + message
        return message

    def outcome(self, value):
        if isinstance(value, BaseException):
            if not self.plan.fired:
                return 'raised %r without reason' % (value,)
            return None
        if self.plan.fired:
            return 'returned values although a failure had occurred: %r' % (
                value,)
        return self.compare(value)

    def faults(self, mode='always'):
        for s in self.made:
            for i in range(max(1, s._data.size)):
                yield (s.number, i if s._data.size else -1, mode)


def graph_of(which, few, mask, name):
    if which == 'value':
        return value_graphs(mask)[name]
    return getattr(graphs, which)(few, mask)[name]


def value_graphs(mask=None):
    """Graphs of operations which can be done on objects."""
    def a(shape, pattern='mix', kind='np'):
        return progs.src(shape, 'i4', pattern, mask, kind)
    g = {
        'source': [[a([3])], 1],
        'neg': [[['un', 'negative', a([3])]], 1],
        'neg-neg': [[['un', 'negative', ['un', 'absolute', a([2])]]], 1],
        'add': [[['op', '+', a([2]), a([2], 'neg', 'ortho')]], 1],
        'mul': [[['op', '*', a([2]), a([2], 'neg', 'ortho')]], 1],
        'sum': [[['agg', 'sum', a([3]), 0]], 1],
        'sum1': [[['agg', 'sum', a([2, 2]), 1]], 1],
        'max': [[['agg', 'max', a([3]), 0]], 1],
        'min1': [[['agg', 'min', a([2, 2]), 1]], 1],
        'fan': [[['agg', 'sum', a([3]), 0], ['un', 'negative', a([3])]], 1],
        'fan2': [[['agg', 'max', a([3]), 0], a([3])], 1],
        'diamond': [[['op', '+', a([2]), ['un', 'negative', a([2])]]], 1],
        'separate': [[['agg', 'sum', a([2]), 0],
                      ['un', 'absolute', a([2], 'neg', 'ortho')]], 1],
        'misaligned': [[['op', '-', ['agg', 'sum', a([2, 2]), 1],
                         ['py', 1]]], 1],
        'stack': [[['agg', 'sum', ['stack', [a([2]), a([2], 'neg', 'ortho')],
                                   [2], 'C'], 0]], 2],
    }
    if mask is None:
        g['mean'] = [[['agg', 'mean', a([3]), 0]], 1]
        g['mean1'] = [[['agg', 'mean', a([2, 2]), 1]], 1]
    else:
        # NumPy has no such operations on masked objects.
        for name in ('max', 'min1', 'fan2'):
            del g[name]
    return g


# Those which work even if a source returns objects instead of numbers.
LIES = ('source', 'neg', 'neg-neg', 'add', 'mul', 'diamond')


# -- Units --------------------------------------------------------------------
CHOSEN = ('agg', 'add', 'fan', 'diamond2', 'separate', 'misaligned2')


def units(tier):
    out = []
    thorough = tier == 'thorough'
    for mask in (None, 'third'):
        for few in (True, False):
            names = [('family', n) for n in sorted(graphs.family(few, mask))]
            names += [('large', n) for n in sorted(graphs.large(few, mask))]
            for which, name in names:
                for mode in ('always', 'first'):
                    if few or thorough:
                        if thorough or which == 'family' and mask is None \
                                and (mode == 'always' or name in CHOSEN):
                            out.append(['merged', which, few, mask, name,
                                        mode])
                    out.append(['kinds', which, few, mask, name, mode])
                if few or thorough:
                    out.append(['two', which, few, mask, name])
                if few and mask is None or thorough:
                    out.append(['again', which, few, mask, name])
                if few and (thorough or mask is None and name in CHOSEN):
                    for part in range(4):
                        out.append(['line', which, few, mask, name, part, 4])
        for name in sorted(value_graphs(mask)):
            for kind in ('value', 'lie'):
                if kind == 'lie' and (mask or name not in LIES):
                    continue
                out.append(['values', kind, mask, name])
    for mask in (None, 'third'):
        out.append(['setup', mask])
        for i in range(len(DIRECT)):
            for depth in (0, 1, 2):
                parts = 8 if depth == 2 else 1
                if depth == 2 and not thorough and (i, mask) not in (
                        (1, None), (2, 'third')):
                    continue
                for part in range(parts):
                    out.append(['direct', i, mask, depth, part, parts])
    out.sort(key=lambda u: (u[0] != 'line', u[0] != 'merged', u[1] != 'large',
                            u[0] != 'again', u[0] != 'direct'))
    return out


def run(unit, ctx):
    globals()['run_' + unit[0]](unit, ctx)


def search(ctx, unit, h, faults, error, how, **kwargs):
    """Explore with the given faults; how: 'merged' or 'deviating'."""
    st = explore.Stats()
    if h.kind == 'read':
        h.plan.reset(faults, error)
    else:
        h.plan.reset(*(list(faults) + [error]))
    body, verdict = h.body, h.verdict
    if how == 'again':
        body, verdict, how = h.again, h.verdict_again, 'deviating'
    hits = [0]

    def judge(e):
        if h.plan.fired:
            hits[0] += 1
        return verdict(e)
    found = getattr(explore, how)(body, judge, st, timeouts=TIMEOUTS,
                                  **kwargs)
    ctx.count('states', st.states if how == 'merged' else st.executions)
    ctx.count('transitions', st.transitions)
    ctx.count('traces_validated_against_impl', st.complete)
    ctx.count('executions', st.executions)
    ctx.count('executions_with_failure', hits[0])
    if not st.exhausted:
        ctx.count('capped_searches')
    case = [unit, [list(f) for f in faults] if h.kind == 'read' else
            [sorted(map(list, faults[0])), list(faults[1])], error, how,
            kwargs.get('base'), kwargs.get('line', False)]
    if found:
        ctx.fail(case + [found[1]], found[0])
        return False
    ctx.sample(case + [[]])
    return True


def harness(unit):
    if unit[0] == 'values':
        what, kind, mask, name = unit
        ps, limit = graph_of('value', True, mask, name)
        return Harness(ps, limit, mask is not None, kind)
    which, few, mask, name = unit[1:5]
    ps, limit = graph_of(which, few, mask, name)
    return Harness(ps, limit, mask is not None)


def run_merged(unit, ctx):
    h = harness(unit)
    for fault in h.faults(unit[5]):
        limit = None
        if ctx.tier == 'quick':
            limit = 300 if unit[4] in CHOSEN else 100
        if not search(ctx, unit, h, [fault], 0, 'merged', limit=limit):
            break
    h.done()


def run_kinds(unit, ctx):
    """All kinds of exception, under the base schedules."""
    h = harness(unit)
    few = unit[2]
    for fault in list(h.faults(unit[5])):
        for error in range(len(ERRORS)):
            if not few and ctx.tier == 'quick' and \
                    error != fault[1] % len(ERRORS):
                continue
            for base in explore.BASES:
                if not search(ctx, unit, h, [fault], error, 'deviating',
                              bound=0, base=base, line=False):
                    h.done()
                    return
    h.done()


def run_two(unit, ctx):
    """All pairs of failures."""
    h = harness(unit)
    quick = ctx.tier == 'quick'
    for pair in itertools.combinations(list(h.faults()), 2):
        for base in explore.BASES:
            if not search(ctx, unit, h, pair, 1, 'deviating',
                          bound=0 if quick else 1, base=base, line=False,
                          limit=None):
                h.done()
                return
    h.done()


def run_again(unit, ctx):
    h = harness(unit)
    faults = list(h.faults('first' if unit[2] else 'always'))
    for fault in {faults[0], faults[len(faults) // 2], faults[-1]}:
        if not search(ctx, unit, h, [fault], 0, 'again', bound=1,
                      base='stay', line=False,
                      limit=200 if ctx.tier == 'quick' else None):
            break
    h.done()


def run_line(unit, ctx):
    h = harness(unit)
    faults = list(h.faults())
    if ctx.tier == 'quick':
        faults = sorted({faults[0], faults[len(faults) // 2], faults[-1]})
    for fault in faults:
        if not search(ctx, unit, h, [fault], 1, 'deviating', bound=1,
                      base='stay', line=True, part=unit[5], parts=unit[6]):
            break
    h.done()


def run_values(unit, ctx):
    h = harness(unit)
    every = sorted(set().union(*[
        v.ids for s in h.made for v in ma.getdata(s._data).ravel()]))
    whichs = [[i] for i in every]
    # Failing on what's computed from two or all of them.
    whichs += [[i, j] for i, j in zip(every, every[1:])] + [every]
    quick = ctx.tier == 'quick'
    for which in whichs:
        for op in VALUE_OPS:
            h.plan.reset(which, [op], 0)
            runtime.call(h.body)
            if not h.plan.fired:
                # This operation doesn't happen.
                message = h.verdict(explore.run(
                    h.body, base_chooser))
                if message:
                    ctx.fail([unit, [which, [op]], 0, 'deviating', 'stay',
                              False, []], message)
                continue
            ctx.count('failing_operations')
            ok = search(ctx, unit, h, (which, [op]), 0, 'merged',
                        limit=150 if quick else None)
            for error in range(1, len(ERRORS)):
                if ok:
                    ok = search(ctx, unit, h, (which, [op]), error,
                                'deviating', bound=0,
                                base=sorted(explore.BASES)[error % 3],
                                line=False)
            if not ok:
                h.done()
                return
    h.done()


def base_chooser(s, cands, last):
    return explore.base_choice(cands[:s.n_ready], last)


# -- Failures while setting up ------------------------------------------------
def setup_batches(mask):
    a = progs.src([3], 'i4', 'mix', mask)
    b = progs.src([2, 2], 'i4', 'neg', mask, 'ortho')
    good = [['agg', 'sum', a, 0], ['un', 'negative', a],
            ['op', '*', b, b], a]
    bad = [('no array', ['py', 3])]
    if mask:
        bad += [('masked', ['un', 'square', a]),
                ('masked', ['un', 'sign', a]),
                ('masked', ['agg', 'max', ['un', 'square', b], 0]),
                ('masked', ['op', '+', ['un', 'rint', b], b])]
    for why, p in bad:
        for n in (0, 1, 2):
            for others in itertools.permutations(good, n):
                for at in range(n + 1):
                    yield why, list(others[:at]) + [p] + list(others[at:]), at


def run_setup(unit, ctx):
    for i, (why, ps, at) in enumerate(setup_batches(unit[1])):
        for base in explore.BASES:
            ctx.count('states')
            message = check_setup(unit, i, base)
            if message:
                ctx.fail([unit, i, base], message)
                return
            ctx.count('traces_validated_against_impl')
            ctx.count('executions_with_failure')
    ctx.sample([unit, 0, 'stay'])


def check_setup(unit, i, base):
    why, ps, at = list(setup_batches(unit[1]))[i]
    masked = unit[1] is not None
    biggus = boot.load(line=True)
    builder = R.Builder(biggus)
    arrays = [builder.build(p) for p in ps]
    model = R.Model()
    boot.set_limit(1)

    def go(xs):
        return biggus.masked_arrays(xs) if masked else biggus.ndarrays(xs)
    try:
        e, _ = explore.run_deviations(lambda: go(arrays), (), base, False)
        if e.problem:
            return e.problem
        if e.main.exc is None:
            return 'returned values: %r' % (e.main.value,)
        rest = arrays[:at] + arrays[at + 1:]
        out = runtime.call(lambda: go(rest))
        if out.deadlock is not None or out.exc is not None:
            return 'afterwards: raised %r' % (out.exc,)
        diff = R.diff_masked if masked else R.diff_plain
        for p, x in zip(ps[:at] + ps[at + 1:], out.value):
            message = diff(x, model.eval(p))
            if message:
                return 'afterwards: ' + message
    finally:
        boot.set_limit(boot.DEFAULT_LIMIT)


# -- All kinds of arrays ------------------------------------------------------
DIRECT = [('np', []), ('ortho', [3]), ('np', [2, 2]), ('ortho', [2, 1, 2]),
          ('np', [2, 3])]


def run_direct(unit, ctx):
    what, i, mask, depth, part, parts = unit
    kind, shape = DIRECT[i]
    base = progs.src(shape, 'i4', 'mix', mask, kind)
    model = R.Model()
    ps = progs.trees(model, [base], depth, depth < 2,
                     'alt' if mask else None)[part::parts]
    few = depth == 2 and ctx.tier == 'quick'
    for n, p in enumerate(ps):
        for masked in (False, True):
            if few and masked != (mask is not None):
                continue
            for way in evals.WAYS:
                if few and way != evals.WAYS[n % 2]:
                    continue
                for limit in ((1, 1000) if depth < 2 or
                              ctx.tier == 'thorough' else (1,)):
                    k = 0
                    while True:
                        errors = range(len(ERRORS)) if depth < 1 or \
                            ctx.tier == 'thorough' else (
                                0, 9, (n + k) % len(ERRORS))
                        hit = False
                        if few:
                            errors = (9,)
                        for error in sorted(set(errors)):
                            for mode in (('once', 'on') if error == 0 or
                                         ctx.tier == 'thorough' else
                                         ('once',)):
                                case = [unit, p, masked, way, limit, k,
                                        error, mode]
                                hit, message = direct(*case[1:])
                                ctx.count('states')
                                if message:
                                    ctx.fail(case, message)
                                    return
                                ctx.count('traces_validated_against_impl')
                                if hit:
                                    ctx.count('executions_with_failure')
                        if not hit:
                            break
                        k += 1
        ctx.sample([unit, p, False, 'm', 1, 0, 0, 'once'])


class CountingSource(R.Source):
    def __init__(self, data, ortho, state):
        R.Source.__init__(self, data, ortho)
        self.state = state

    def __getitem__(self, keys):
        st = self.state
        if st['k'] is not None:
            n = st['n']
            st['n'] += 1
            if n == st['k'] or n > st['k'] and st['mode'] == 'on':
                st['hit'] = True
                raise make_error(st['error'])
        return R.Source.__getitem__(self, keys)


def direct(p, masked, way, limit, k, error, mode):
    """Let the k-th read fail (and those which follow, or not)."""
    biggus = boot.load(line=True)
    ref = R.Model().eval(p)
    state = dict(k=k, n=0, hit=False, mode=mode, error=error)
    builder = R.Builder(biggus, source_factory=lambda q, data: CountingSource(
        data, q[1] == 'ortho', state))
    try:
        array = builder.build(p)
    except NotImplementedError:
        # Tuples as keys of some arrays; nothing has been read.
        return False, None
    boot.set_limit(limit)
    try:
        out = runtime.call(lambda: evals.values(biggus, array, masked, way))
        if out.deadlock is not None:
            return True, 'hangs: %s' % (out.deadlock,)
        if out.leaked:
            return True, 'threads are left blocked: %s' % (out.leaked,)
        if state['hit']:
            if out.exc is None:
                return True, 'returned values although a read had failed'
            state['k'] = None
            out = runtime.call(
                lambda: evals.values(biggus, array, masked, way))
            if out.exc is not None or out.deadlock is not None:
                return True, 'afterwards: raised %r' % (out.exc,)
        elif out.exc is not None:
            return False, 'raised %r without reason' % (out.exc,)
        message = (R.diff_masked if masked else R.diff_plain)(out.value, ref)
        return state['hit'], message and 'afterwards: ' + message
    finally:
        boot.set_limit(boot.DEFAULT_LIMIT)


def replay(case):
    unit = case[0]
    if unit[0] == 'setup':
        return check_setup(*case)
    if unit[0] == 'direct':
        return direct(*case[1:])[1]
    unit, faults, error, how, base, line, schedule = case
    h = harness(unit)
    if h.kind == 'read':
        h.plan.reset(faults, error)
    else:
        h.plan.reset([tuple(f) for f in faults[0]], faults[1], error)
    again = unit[0] == 'again'
    body = h.again if again else h.body
    try:
        if how == 'merged':
            e = explore.replay_schedule(body, schedule, timeouts=TIMEOUTS)
        else:
            e, _ = explore.run_deviations(
                body, [tuple(d) for d in schedule], base, line)
        return h.verdict_again(e) if again else h.verdict(e)
    finally:
        h.done()
