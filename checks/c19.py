"""C19: concurrent evaluations of shared arrays don't disturb each other."""
import copy
import itertools
import threading

import numpy as np

from mc import boot, explore, graphs, progs, rec
from mc import ref as R
from mc import runtime

PROPERTY = 'C19'
COVERAGE = """
Two client threads (in thorough, also three) share newly built virtual arrays
of about 25 kinds, and each inspects, indexes, evaluates (plain or masked, by
method or engine), aggregates, combines or saves the shared array or a part of
it: all pairs of these actions
(in quick, five of seven of them). (line) All schedules with one switch (two, for
the shape, and in thorough) between the clients, at any executed
statement of the library, after which the other client and its workers run as
far as they can; (sync) for chosen pairs, all interleavings of the
synchronisation operations, merging equal states (in quick, up to a number of
executions). Each client must get the result it would get alone, and all
threads must end. states = schedules and distinct global states, transitions =
scheduling decisions.
"""
ASSUMPTIONS = ['pre-emption within a statement is not explored',
               'data sources can be read concurrently']


def shared_arrays(tier):
    def a(kind='np', shape=(2, 2), pattern='mix', dtype='i4'):
        return progs.src(list(shape), dtype, pattern, None, kind)

    def m(kind='np'):
        return progs.src([2, 2], 'i4', 'mix', 'third', kind)
    inner = ['agg', 'sum', a(), 0]
    out = {
        'np': a(), 'ortho': a('ortho'), 'masked': m('ortho'),
        'const': ['const', [2, 2], 3, 'i4'],
        'bc': ['bc', ['idx', a(shape=(2,)), [['n']]], [[0, 2]], []],
        'newaxis': ['idx', a(shape=(2,)), [['n'], ['k']]],
        'T': ['T', a(), None],
        'astype': ['as', a(), 'f4'],
        'meq': ['meq', a(), 3],
        'stack': ['stack', [a(shape=(2,)), a('ortho', (2,), 'neg')], [2],
                  'C'],
        'mosaic': ['mosaic', [a(shape=(1, 2)), a('ortho', (1, 2), 'neg')],
                   0],
        'mosaic2': ['mosaic', [['mosaic', [a(shape=(1, 1)),
                                           a(shape=(1, 1), pattern='neg')],
                                1], a('ortho', (1, 2), 'neg')], 0],
        'mosaic3': ['mosaic', [m(), m('ortho')], 1],
        'stack-mosaic': ['stack', [['mosaic', [a(shape=(1,)),
                                               a('ortho', (1,), 'neg')], 0],
                                   a(shape=(2,))], [2], 'C'],
        'neg': ['un', 'negative', a()],
        'add': ['op', '+', a(), a('ortho', pattern='neg')],
        'add-self': ['op', '*', a(), a()],
        'number': ['op', '-', ['py', 1], a()],
        'op-broadcast': ['op', '+', a(), a('ortho', (2,))],
        'nested': ['mosaic', [['idx', inner, [['n']]],
                              ['idx', inner, [['n']]]], 0],
        'view': ['idx', ['un', 'negative', a(shape=(2, 3))],
                 [['k'], ['s', None, None, 2]]],
        'masked-add': ['op', '+', m(), m('ortho')],
    }
    for fn in progs.FNS:
        out[fn] = ['agg', fn, a(shape=(2, 2, 2)), 1]
        if fn in ('mean', 'std'):
            out['masked-' + fn] = ['agg', fn, progs.src(
                [3, 2, 2], 'i4', 'mix', 'third', 'ortho'), 0]
    return out


ACTIONS = {
    'shape': ('shape', None), 'dtype': ('dtype', None),
    'text': ('text', None),
    'nd': ('nd', None), 'ma': ('ma', None), 'engine': ('engine', None),
    'engine-ma': ('engine-ma', None),
    'part': ('engine', lambda p: ['idx', p, [['s', 1, None, None]]]),
    'item': ('nd', lambda p: ['idx', p, [0]]),
    'index-shape': ('shape', lambda p: ['idx', p, [['s', None, None, -1]]]),
    'un': ('engine', lambda p: ['un', 'negative', p]),
    'add': ('engine', lambda p: ['op', '+', p, p]),
    'sum': ('engine', lambda p: ['agg', 'sum', p, 0]),
    'max': ('engine-ma', lambda p: ['agg', 'max', p, 0]),
    'std': ('engine', lambda p: ['agg', 'std', p, 0]),
    'transposed': ('nd', lambda p: ['T', p, None]),
    'save': ('save', None), 'batch': ('batch', lambda p: [
        p, ['un', 'negative', p]]),
}
LIGHT = ('shape', 'dtype', 'text', 'index-shape')
QUICK = [('shape', 'shape'), ('shape', 'index-shape'), ('shape', 'nd'),
         ('item', 'index-shape'), ('engine', 'sum'), ('engine-ma', 'part'),
         ('sum', 'sum')]
SYNC = [('engine', 'engine'), ('engine', 'sum'), ('part', 'un'),
        ('engine', 'save'), ('max', 'std')]


def units(tier):
    out = []
    thorough = tier == 'thorough'
    every = sorted(shared_arrays(tier))
    pairs = QUICK
    if thorough:
        pairs = itertools.combinations_with_replacement(sorted(ACTIONS), 2)
    for k, pair in enumerate(pairs):
        for i, name in enumerate(every):
            # The expensive ones are dealt out between the arrays.
            if thorough or k < 3 or name != 'nested' and (
                    k == 3 + i % 2 or k == 5 + i % 2):
                out.append(['line', name, list(pair)])
    for name in every:
        if thorough or name in ('np', 'add', 'mean', 'mosaic', 'neg', 'max',
                                'std'):
            for pair in SYNC:
                out.append(['sync', name, list(pair)])
        if thorough:
            out.append(['line', name, ['shape', 'nd', 'sum']])
            out.append(['line', name, ['engine', 'engine-ma', 'part']])
    out.sort(key=lambda u: (u[0] != 'sync', all(a in LIGHT for a in u[2])))
    return out


class Scene(object):
    """Clients which each act on a shared array."""

    def __init__(self, name, actions, pieces):
        self.biggus = boot.load(line=True)
        self.shared = shared_arrays(None)[name]
        self.model = R.Model()
        self.todo = []
        for action in actions:
            what, make = ACTIONS[action]
            p = make(self.shared) if make else self.shared
            ps = p if what == 'batch' else [p]
            self.todo.append((what, p, [self.model.eval(q) for q in ps]))
        # Everything in one piece, or as many as possible.
        boot.set_limit(1 if pieces else boot.DEFAULT_LIMIT)

    def done(self):
        boot.set_limit(boot.DEFAULT_LIMIT)

    def body(self):
        first = R.Builder(self.biggus)
        first.build(self.shared)
        results = [None] * len(self.todo)
        threads = []
        for i, (what, p, refs) in enumerate(self.todo):
            builder = R.Builder(self.biggus)
            builder.cache.update(first.cache)
            threads.append(threading.Thread(
                target=self.client, args=(builder, what, p, refs, results,
                                          i)))
        for thread in threads:
            thread.start()
        for thread in threads:
            thread.join()
        return results

    def client(self, builder, what, p, refs, results, i):
        try:
            value = self.act(builder, what, p, refs)
            if what == 'save':
                value = copy.deepcopy(value)
            elif what == 'batch':
                value = graphs.snapshot(value)
            elif isinstance(value, np.ndarray):
                value, = graphs.snapshot([value])
            results[i] = (True, value)
        except Exception as e:
            results[i] = (False, e)

    def act(self, builder, what, p, refs):
        b = self.biggus
        if what == 'batch':
            return b.ndarrays([builder.build(q) for q in p])
        x = builder.build(p)
        if what == 'shape':
            return (x.shape, x.ndim)
        if what == 'dtype':
            return x.dtype
        if what == 'text':
            return (str(x), repr(x))
        if what == 'nd':
            return x.ndarray()
        if what == 'ma':
            return x.masked_array()
        if what == 'engine':
            return b.ndarrays([x])[0]
        if what == 'engine-ma':
            return b.masked_arrays([x])[0]
        if what == 'save':
            target = rec.RecTarget(refs[0].nd.shape, refs[0].nd.dtype, False)
            b.save([x], [target])
            return target
        raise ValueError(what)

    def verdict(self, e):
        if e.problem:
            return e.problem
        if e.main.exc is not None:
            return 'raised %r' % (e.main.exc,)
        for i, (what, p, refs) in enumerate(self.todo):
            ok, value = e.main.value[i]
            if not ok:
                message = 'raised %r' % (value,)
            else:
                message = self.judge(what, value, refs)
            if message:
                return 'client %d: %s' % (i, message)

    @staticmethod
    def judge(what, value, refs):
        ref = refs[0]
        if what == 'shape':
            if value != (ref.nd.shape, ref.nd.ndim):
                return 'shape %r instead of %r' % (value, ref.nd.shape)
        elif what == 'dtype':
            if value != ref.nd.dtype:
                return 'dtype %r instead of %r' % (value, ref.nd.dtype)
        elif what == 'text':
            for text in value:
                if 'shape=(%s)' % ', '.join(map(str, ref.nd.shape)) \
                        not in text:
                    return 'text %r' % (text,)
        elif what in ('nd', 'engine'):
            return R.diff_plain(value, ref)
        elif what in ('ma', 'engine-ma'):
            return R.diff_masked(value, ref)
        elif what == 'batch':
            for x, r in zip(value, refs):
                message = R.diff_plain(x, r)
                if message:
                    return message
        elif what == 'save':
            if not (value.times == 1).all():
                return 'saved %r times' % (value.times,)
            return R.diff_plain(value.data.reshape(ref.nd.shape), ref)


def client_of(task):
    """The client to which a thread belongs (None: the main thread)."""
    parts = task.id.split('.')
    return parts[1] if len(parts) > 1 else None


def same_client(cands, last):
    """The base schedule: stay with the client as long as possible."""
    if last in cands:
        return last
    if last is not None:
        mine = [c for c in cands if client_of(c) == client_of(last)]
        if mine:
            return explore.base_choice(mine, last)
    return cands[0]


def switching(body, verdict, stats, bound, limit=None, line=True):
    """All schedules with up to `bound` switches to another client."""
    stack = [()]
    while stack:
        if limit is not None and stats.executions >= limit:
            stats.exhausted = False
            return None
        todo = stack.pop()
        e, points = run_switches(body, todo, line)
        stats.executions += 1
        stats.complete += 1
        stats.states += e.sched.steps
        stats.transitions += e.sched.steps
        message = verdict(e)
        if message:
            return message, todo
        if len(todo) < bound:
            first = todo[-1][0] + 1 if todo else 0
            for i, others in points:
                if i >= first:
                    for client in others:
                        stack.append(todo + ((i, client),))
    return None


def run_switches(body, todo, line=True):
    todo = dict(todo)
    points = []
    position = [0]

    def chooser(s, cands, last):
        i = position[0]
        position[0] += 1
        ready = cands[:s.n_ready]
        if i in todo:
            mine = [c for c in ready if client_of(c) == todo[i]]
            if mine:
                return mine[0]
        t = same_client(ready, last)
        others = sorted({client_of(c) for c in ready} -
                        {client_of(t), None})
        if others:
            points.append((i, others))
        return t
    e = explore.run(body, chooser, line)
    return e, points


def run(unit, ctx):
    what, name, actions = unit
    quick = ctx.tier == 'quick'
    for pieces in ((True,) if what == 'sync' else
                   (False,) if quick else (False, True)):
        scene = Scene(name, actions, pieces)
        st = explore.Stats()
        if what == 'sync':
            found = explore.merged(scene.body, scene.verdict, st,
                                   limit=400 if quick else 300000)
        else:
            bound = 2 if actions == ['shape', 'shape'] or not quick else 1
            found = switching(scene.body, scene.verdict, st, bound,
                              limit=2000 if quick else 20000)
        scene.done()
        ctx.count('states', st.states if what == 'sync' else st.executions)
        ctx.count('transitions', st.transitions)
        ctx.count('executions', st.executions)
        ctx.count('traces_validated_against_impl', st.complete)
        if not st.exhausted:
            ctx.count('capped_units')
        if found:
            ctx.fail([unit, pieces, found[1]], found[0])
            return
        ctx.sample([unit, pieces, []])


def replay(case):
    (what, name, actions), pieces, schedule = case
    scene = Scene(name, actions, pieces)
    try:
        if what == 'sync':
            e = explore.replay_schedule(scene.body, schedule)
        else:
            e, _ = run_switches(scene.body, [tuple(s) for s in schedule])
        return scene.verdict(e)
    finally:
        scene.done()
