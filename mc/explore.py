"""
Exploration of the schedules of a piece of code.

`merged`: every interleaving of the synchronisation operations (stateless
depth-first search by replay; executions which reach a global state that has
been visited are not continued). The global state is what each task has done
and observed (including the contents, whenever it resumes, of the data it has
been handed), and the state of every synchronisation object.

`deviating`: every schedule which differs from a deterministic base schedule
in at most `bound` places, without merging of states. With instrumented code
(`boot.load(line=True)`), every statement is such a place.
"""
import collections

import numpy as np
import numpy.ma as ma

from mc import runtime


def digest(x):
    if type(x) is tuple or type(x) is list:
        return hash(tuple(digest(y) for y in x))
    if isinstance(x, ma.MaskedArray):
        return hash((x.data.tobytes(), ma.getmaskarray(x).tobytes()))
    if isinstance(x, np.ndarray):
        return hash(x.tobytes()) if x.dtype != object else 0
    return 0


def observe(value):
    """
    Make what the current task has just computed a part of its state.
    """
    s = runtime.CURRENT
    if s is not None:
        s.note('value', digest(value))
    return value


class Holding(object):
    """Remembers which items each task has been handed."""

    def __init__(self, sched):
        self.sched = sched
        self.held = {}

    def put(self, queue, item):
        pass

    def get(self, queue, item):
        if isinstance(item, tuple):
            t = self.sched.current
            if t is not None:
                self.held.setdefault(t.id, []).append(item)


class Stats(object):
    def __init__(self):
        self.states = 0
        self.transitions = 0
        self.executions = 0
        self.complete = 0
        self.diverged = 0
        self.exhausted = True
        self.max_steps = 0


class Execution(object):
    __slots__ = ('sched', 'main', 'schedule')

    @property
    def problem(self):
        """Whether it hangs or leaves threads behind, in words."""
        s = self.sched
        if s.deadlock is not None:
            return '%s: %s' % ('never ends' if s.livelock else 'hangs',
                               _blocked(s.deadlock))
        if s.leaked:
            return 'threads are left blocked: ' + _blocked(s.leaked)


def _blocked(tasks):
    return ', '.join('thread %s in %s' % t for t in tasks)


def run(body, chooser, line=False, horizon=200000, timeouts=0):
    s = runtime.Sched(chooser, line=line, horizon=horizon)
    s.branch_timeouts = timeouts
    e = Execution()
    e.sched = s
    saved, runtime.MONITOR = runtime.MONITOR, Holding(s)
    s.holding = runtime.MONITOR.held
    try:
        e.main = s.run(body)
    finally:
        runtime.MONITOR = saved
    return e


def base_choice(cands, last):
    """The base schedule: stay with the task, then round robin."""
    if last in cands:
        return last
    if last is not None:
        for c in cands:
            if c.index > last.index:
                return c
    return cands[0]


def low_choice(cands, last):
    """Another base schedule: the oldest task which can run."""
    return cands[0]


def high_choice(cands, last):
    """Another base schedule: the youngest task which can run."""
    return cands[-1]


BASES = {'stay': base_choice, 'low': low_choice, 'high': high_choice}


def _held(sched, t):
    held = sched.holding.get(t.id)
    if held:
        t.hist = hash((t.hist, tuple(digest(x) for x in held)))


def merged(body, verdict, stats, limit=None, horizon=20000, timeouts=0):
    """
    Explore all interleavings of synchronisation operations.

    body: called as the main task of each execution.
    verdict: verdict(execution) -> None, or a message (stops the search).

    Returns None or (message, schedule).
    """
    visited = set()
    # A prefix is a linked list (parent, task id).
    stack = [None]
    while stack:
        if limit is not None and stats.executions >= limit:
            stats.exhausted = False
            return None
        prefix = []
        node = stack.pop()
        tail = node
        while node is not None:
            prefix.append(node[1])
            node = node[0]
        prefix.reverse()
        path = [tail]
        n = len(prefix)
        position = [0]

        def chooser(s, cands, last):
            i = position[0]
            position[0] += 1
            if i < n:
                for t in cands:
                    if t.id == prefix[i]:
                        _held(s, t)
                        return t
                stats.diverged += 1
                return None
            key = s.state_key()
            if key in visited:
                return None
            visited.add(key)
            stats.states += 1
            t = base_choice(cands[:s.n_ready], last)
            for c in cands:
                if c is not t:
                    stack.append((path[0], c.id))
                    stats.transitions += 1
            stats.transitions += 1
            path[0] = (path[0], t.id)
            _held(s, t)
            return t
        e = run(body, chooser, horizon=horizon, timeouts=timeouts)
        stats.executions += 1
        if e.sched.pruned:
            continue
        stats.complete += 1
        stats.max_steps = max(stats.max_steps, e.sched.steps)
        message = verdict(e)
        if message:
            return message, schedule_of(path[0])
    return None


def schedule_of(node):
    out = []
    while node is not None:
        out.append(node[1])
        node = node[0]
    return out[::-1]


def replay_schedule(body, schedule, line=False, horizon=200000, timeouts=0):
    """Run with the given schedule of task ids (best effort)."""
    position = [0]

    def chooser(s, cands, last):
        i = position[0]
        position[0] += 1
        if i < len(schedule):
            for t in cands:
                if t.id == schedule[i]:
                    return t
        return base_choice(cands[:s.n_ready], last)
    return run(body, chooser, line, horizon, timeouts)


def deviating(body, verdict, stats, bound=1, base='stay', line=True,
              limit=None, horizon=200000, part=0, parts=1, timeouts=0,
              start=0):
    """
    Explore all schedules with at most `bound` deviations from the base
    schedule. The first deviations are dealt out between `parts` searches.

    Returns None or (message, deviations).
    """
    choice = BASES[base]
    # (Breadth first, so that a limit only affects multiple deviations.)
    todo = collections.deque([()])
    while todo:
        if limit is not None and stats.executions >= limit:
            stats.exhausted = False
            return None
        deviations = todo.popleft()
        e, points = run_deviations(body, deviations, choice, line, horizon,
                                   timeouts)
        stats.executions += 1
        stats.complete += 1
        stats.states += e.sched.steps
        stats.transitions += e.sched.steps
        stats.max_steps = max(stats.max_steps, e.sched.steps)
        if deviations or part == 0:
            message = verdict(e)
            if message:
                return message, deviations
        if len(deviations) < bound:
            first = deviations[-1][0] + 1 if deviations else start
            alternatives = [(i, tid) for i, others in points if i >= first
                            for tid in others]
            if not deviations:
                alternatives = alternatives[part::parts]
            for alternative in alternatives:
                todo.append(deviations + (alternative,))
    return None


def run_deviations(body, deviations, choice=base_choice, line=True,
                   horizon=200000, timeouts=0):
    if isinstance(choice, str):
        choice = BASES[choice]
    todo = dict(deviations)
    points = []
    position = [0]

    def chooser(s, cands, last):
        i = position[0]
        position[0] += 1
        t = choice(cands[:s.n_ready], last)
        if i in todo:
            for c in cands:
                if c.id == todo[i]:
                    return c
            return t
        if len(cands) > 1:
            points.append((i, [c.id for c in cands if c is not t]))
        return t
    e = run(body, chooser, line, horizon, timeouts)
    return e, points
