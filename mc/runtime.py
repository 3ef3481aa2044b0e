"""
A controlled scheduler for the code under test.

`install()` replaces the thread and synchronisation classes of the standard
library (`threading.*`, `queue.*`, `time.sleep`) by cooperative equivalents
which run every "thread" as a greenlet. It must be called before the code under
test is imported. Nothing in the code under test is changed, so whichever way
it builds its concurrency (queues, locks, conditions, events, thread pools),
every synchronisation operation passes through `Sched.point`, where the
scheduler decides who goes next.

Outside of a running `Sched`, the primitives work as long as they don't need
to block.
"""
import collections
import sys
import threading
import time
import queue

from greenlet import greenlet, getcurrent


class MCDeadlock(Exception):
    """Raised in the main task when it can never continue."""


class MCHorizon(Exception):
    """The execution exceeded the horizon (livelock, or far too long)."""


class Pruned(Exception):
    """The explorer has decided not to complete this execution."""


_NOTASK = object()


class Task(object):
    __slots__ = ('id', 'gl', 'pending', 'done', 'exc', 'nchild', 'nobj',
                 'hist', 'thread', 'steps', 'value', 'locals', 'woken',
                 'index')

    def __init__(self, id):
        self.id = id
        self.gl = None
        self.pending = None
        self.done = False
        self.exc = None
        self.nchild = 0
        self.nobj = 0
        self.hist = hash(id)
        self.thread = None
        self.steps = 0
        self.value = None
        self.locals = {}
        self.woken = False
        self.index = 0


class _Op(object):
    __slots__ = ('kind', 'obj', 'ready', 'timed')

    def __init__(self, kind, obj, ready, timed):
        self.kind = kind
        self.obj = obj
        self.ready = ready
        self.timed = timed


CURRENT = None      # the active Sched
EPOCH = 0           # increases with every execution
_GLOBAL_OBJECTS = []


class Sched(object):
    """
    One execution.

    chooser: None for the fast deterministic schedule (keep running the
             current task until it blocks), otherwise a function
             (sched, candidates, last) -> task, where candidates is a list of
             tasks which can take a step, or None to prune.
    line:    whether instrumented statements are scheduling points.
    """

    def __init__(self, chooser=None, line=False, horizon=2000000):
        self.chooser = chooser
        self.line = line
        self.horizon = horizon
        self.tasks = []
        self.alive = []
        self.current = None
        self.hub = None
        self.steps = 0
        self.timeouts = 0
        # How many waits may time out although something else could happen.
        self.branch_timeouts = 0
        self.n_ready = 0
        self.objects = []
        self.thread_excs = []
        self.deadlock = None     # ids of tasks blocked when main can't go on
        self.leaked = []         # ids of tasks blocked for ever at the end
        self.pruned = False
        self.livelock = False
        self.trace = []
        self.dead = False        # execution over: abandoned tasks must stop

    # -- running ----------------------------------------------------------
    def run(self, body):
        """Run `body()` as the main task; return the main Task."""
        global CURRENT, EPOCH
        assert CURRENT is None, 'nested executions are not supported'
        EPOCH += 1
        for obj in _GLOBAL_OBJECTS:
            obj._mc_reset()
        CURRENT = self
        self.hub = getcurrent()
        try:
            main = self._new_task('0', body)
            self._loop(main)
        finally:
            CURRENT = None
            self.dead = True
        return main

    def _new_task(self, id, body):
        task = Task(id)
        task.index = len(self.tasks)

        def entry():
            self.note('begin')
            try:
                task.value = body()
            except GreenletKill:
                pass
            except BaseException as e:
                task.exc = e
            task.done = True
            # Drop out to the hub (the greenlet's parent).
        task.gl = greenlet(entry, parent=self.hub)
        task.pending = _Op('begin', None, None, False)
        self.tasks.append(task)
        self.alive.append(task)
        return task

    def _loop(self, main):
        last = None
        chooser = self.chooser
        while True:
            if last is not None and last.done:
                self.alive.remove(last)
                last.gl = None
            cands = []
            timed = []
            for t in self.alive:
                op = t.pending
                if op.ready is None or op.ready():
                    cands.append(t)
                elif op.timed:
                    timed.append(t)
            if not cands:
                if not timed:
                    blocked = [(t.id, t.pending.kind) for t in self.alive]
                    if not main.done:
                        self.deadlock = blocked
                    else:
                        self.leaked = blocked
                    return
                # Time only passes when nothing else can happen.
                self.timeouts += 1
                if self.timeouts > 200:
                    self.livelock = True
                    blocked = [(t.id, t.pending.kind) for t in self.alive]
                    if not main.done:
                        self.deadlock = blocked
                    else:
                        self.leaked = blocked
                    return
                cands = timed
            self.n_ready = len(cands)
            if self.branch_timeouts and timed and cands is not timed:
                cands = cands + timed
            if chooser is None:
                if last in cands:
                    t = last
                else:
                    # Round robin from the last one, for fairness.
                    t = cands[0]
                    if last is not None:
                        for c in cands:
                            if c.index > last.index:
                                t = c
                                break
            else:
                t = chooser(self, cands, last)
                if t is None:
                    self.pruned = True
                    return
            self.steps += 1
            if self.steps > self.horizon:
                self.livelock = True
                self.deadlock = [(t.id, t.pending.kind) for t in self.alive]
                return
            if self.branch_timeouts and t in timed:
                self.branch_timeouts -= 1
            t.steps += 1
            self.current = t
            last = t
            t.gl.switch()
            self.current = None

    # -- called by tasks --------------------------------------------------
    def point(self, kind, obj, ready=None, timed=False):
        """
        A scheduling point before an operation. Returns whether the operation
        is ready (False: it timed out).
        """
        if self.dead or self.current is None:
            if self.dead:
                raise GreenletKill()
            return ready is None or ready()
        t = self.current
        if self.chooser is None and (ready is None or ready()):
            t.steps += 1
            self.steps += 1
            if self.steps > self.horizon:
                self.livelock = True
                self.dead = True
                t.pending = _Op(kind, obj, ready, timed)
                self.hub.switch()
            return True
        t.pending = _Op(kind, obj, ready, timed)
        self.hub.switch()
        if self.dead:
            raise GreenletKill()
        ok = ready is None or ready()
        if not ok and self.chooser is not None:
            # It has timed out: whatever it does next might depend on how far
            # the others have come.
            t.hist = hash((t.hist, 'late', tuple(sorted(
                (u.id, u.hist) for u in self.tasks if u is not t))))
        return ok

    def note(self, *tag):
        """Record what the current task has just observed or done."""
        t = self.current
        if t is not None and self.chooser is not None:
            t.hist = hash((t.hist,) + tag)

    def spawn(self, body, thread):
        parent = self.current
        parent.nchild += 1
        id = '{}.{}'.format(parent.id, parent.nchild)
        task = self._new_task(id, body)
        task.hist = hash((id, parent.hist))
        task.thread = thread
        return task

    def register(self, obj):
        t = self.current
        if t is not None:
            t.nobj += 1
            obj._mc_id = (t.id, t.nobj)
        else:
            obj._mc_id = ('-', len(self.objects))
        self.objects.append(obj)

    def state_key(self):
        """
        A canonical form of the global state: what each task has done and
        observed, and the state of each synchronisation object.
        """
        return (self.branch_timeouts,
                tuple(sorted((t.id, t.hist, t.done, t.pending.kind,
                              repr(t.exc)) for t in self.tasks)),
                tuple(sorted((o._mc_id, o._mc_state())
                             for o in self.objects)))


class GreenletKill(BaseException):
    """Raised in tasks of an execution which is over."""


def _sched():
    return CURRENT


# -------------------------------------------------------------------------
class _Obj(object):
    """A synchronisation object; remembers the execution it belongs to."""

    def _mc_init(self):
        if CURRENT is not None:
            CURRENT.register(self)
            self._mc_epoch = EPOCH
        else:
            self._mc_id = ('global', len(_GLOBAL_OBJECTS))
            self._mc_epoch = None
            _GLOBAL_OBJECTS.append(self)

    def _mc_point(self, kind, ready=None, timed=False):
        s = CURRENT
        if s is None:
            if ready is not None and not ready():
                if timed:
                    return False
                raise MCDeadlock('blocked outside of a controlled execution')
            return True
        if self._mc_epoch is None and self not in s.objects:
            s.objects.append(self)
        return s.point(kind, self, ready, timed)

    def _mc_reset(self):
        pass

    def _mc_state(self):
        return ()


def _note(*tag):
    s = CURRENT
    if s is not None and s.chooser is not None:
        s.note(*tag)


def _me():
    s = CURRENT
    if s is None or s.current is None:
        return _NOTASK
    return s.current


def _hist():
    me = _me()
    return 0 if me is _NOTASK else me.hist


class Lock(_Obj):
    _reentrant = False

    def __init__(self):
        self._mc_init()
        self._mc_reset()

    def _mc_reset(self):
        self._owner = None
        self._count = 0
        self._tag = 0

    def _mc_state(self):
        return (None if self._owner is None else
                getattr(self._owner, 'id', '-'), self._count, self._tag)

    def _free(self):
        return self._owner is None

    def acquire(self, blocking=True, timeout=-1):
        me = _me()
        if self._reentrant and self._owner is me:
            self._count += 1
            return True
        if not blocking:
            self._mc_point('try')
            ok = self._owner is None
        else:
            ok = self._mc_point('acquire', self._free,
                                timeout is not None and timeout >= 0)
        if ok:
            self._owner = me
            self._count = 1
            _note('acq', self._mc_id, self._tag)
        else:
            _note('noacq', self._mc_id)
        return ok

    def release(self):
        if self._owner is None:
            raise RuntimeError('release unlocked lock')
        if self._reentrant and self._owner is not _me():
            raise RuntimeError('cannot release un-acquired lock')
        self._count -= 1
        if self._count == 0:
            self._owner = None
            self._tag = _hist()
            _note('rel', self._mc_id)

    def locked(self):
        self._mc_point('locked')
        r = self._owner is not None
        _note('locked', r)
        return r

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *args):
        if CURRENT is not None and CURRENT.dead:
            self._owner = None
            return
        self.release()


class RLock(Lock):
    _reentrant = True

    def _is_owned(self):
        return self._owner is _me()


class Condition(_Obj):
    def __init__(self, lock=None):
        if lock is None:
            lock = RLock()
        self._lock = lock
        self.acquire = lock.acquire
        self.release = lock.release
        self._mc_init()
        self._mc_reset()

    def _mc_reset(self):
        self._waiters = []

    def _mc_state(self):
        return tuple(w[0].id if w[0] is not _NOTASK else '-'
                     for w in self._waiters)

    def __enter__(self):
        return self._lock.__enter__()

    def __exit__(self, *args):
        return self._lock.__exit__(*args)

    def wait(self, timeout=None):
        lock = self._lock
        me = _me()
        if lock._owner is not me:
            raise RuntimeError('cannot wait on un-acquired lock')
        entry = [me, False]
        self._waiters.append(entry)
        count = lock._count
        lock._count = 1
        lock.release()
        ok = self._mc_point('wait', lambda: entry[1], timeout is not None)
        if not ok:
            try:
                self._waiters.remove(entry)
            except ValueError:
                pass
        _note('woke', self._mc_id, ok)
        lock.acquire()
        lock._count = count
        return ok

    def wait_for(self, predicate, timeout=None):
        result = predicate()
        while not result:
            if not self.wait(timeout) and timeout is not None:
                return predicate()
            result = predicate()
        return result

    def notify(self, n=1):
        if self._lock._owner is not _me():
            raise RuntimeError('cannot notify on un-acquired lock')
        for entry in self._waiters[:n]:
            entry[1] = True
        del self._waiters[:n]
        _note('notify', self._mc_id, n)

    def notify_all(self):
        self.notify(len(self._waiters))

    notifyAll = notify_all


class Semaphore(_Obj):
    def __init__(self, value=1):
        if value < 0:
            raise ValueError('semaphore initial value must be >= 0')
        self._initial = value
        self._mc_init()
        self._mc_reset()

    def _mc_reset(self):
        self._value = self._initial
        self._tags = frozenset()

    def _mc_state(self):
        return self._value

    def acquire(self, blocking=True, timeout=None):
        if not blocking:
            self._mc_point('try')
            ok = self._value > 0
        else:
            ok = self._mc_point('sem', lambda: self._value > 0,
                                timeout is not None)
        if ok:
            self._value -= 1
        _note('sem', self._mc_id, ok)
        return ok

    def release(self, n=1):
        self._value += n
        _note('semrel', self._mc_id)

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *args):
        self.release()


class BoundedSemaphore(Semaphore):
    def release(self, n=1):
        if self._value + n > self._initial:
            raise ValueError('Semaphore released too many times')
        Semaphore.release(self, n)


class Event(_Obj):
    def __init__(self):
        self._mc_init()
        self._mc_reset()

    def _mc_reset(self):
        self._flag = False
        self._tag = 0

    def _mc_state(self):
        return (self._flag, self._tag)

    def is_set(self):
        self._mc_point('is_set')
        _note('is_set', self._flag, self._tag)
        return self._flag

    isSet = is_set

    def set(self):
        self._mc_point('set')
        self._flag = True
        self._tag = _hist()
        _note('set', self._mc_id)

    def clear(self):
        self._mc_point('clear')
        self._flag = False
        _note('clear', self._mc_id)

    def wait(self, timeout=None):
        ok = self._mc_point('event', lambda: self._flag, timeout is not None)
        _note('event', self._mc_id, ok, self._tag)
        return ok


class Queue(_Obj):
    def __init__(self, maxsize=0):
        self.maxsize = maxsize
        self.mutex = Lock()
        self.unfinished_tasks = 0
        self._mc_init()
        self._mc_reset()

    def _mc_reset(self):
        self.unfinished_tasks = 0
        self._tags = collections.deque()
        self._init(self.maxsize)

    # The standard library's customisation points.
    def _init(self, maxsize):
        self.queue = collections.deque()

    def _qsize(self):
        return len(self.queue)

    def _put(self, item):
        self.queue.append(item)

    def _get(self):
        return self.queue.popleft()

    def _mc_state(self):
        return (tuple(self._tags), self._qsize(), self.unfinished_tasks)

    def _has_space(self):
        return self.maxsize <= 0 or self._qsize() < self.maxsize

    def _has_item(self):
        return self._qsize() > 0

    def put(self, item, block=True, timeout=None):
        if not block:
            self._mc_point('put_nowait')
            ok = self._has_space()
        else:
            ok = self._mc_point('put', self._has_space, timeout is not None)
        if not ok:
            _note('full', self._mc_id)
            raise queue.Full
        if MONITOR is not None:
            MONITOR.put(self, item)
        self._put(item)
        self.unfinished_tasks += 1
        self._tags.append(_hist())
        _note('put', self._mc_id)

    def get(self, block=True, timeout=None):
        if not block:
            self._mc_point('get_nowait')
            ok = self._has_item()
        else:
            ok = self._mc_point('get', self._has_item, timeout is not None)
        if not ok:
            _note('empty', self._mc_id)
            raise queue.Empty
        item = self._get()
        tag = self._tags.popleft() if self._tags else 0
        _note('get', self._mc_id, tag)
        if MONITOR is not None:
            MONITOR.get(self, item)
        return item

    def put_nowait(self, item):
        return self.put(item, block=False)

    def get_nowait(self):
        return self.get(block=False)

    def task_done(self):
        if self.unfinished_tasks <= 0:
            raise ValueError('task_done() called too many times')
        self.unfinished_tasks -= 1

    def join(self):
        self._mc_point('qjoin', lambda: self.unfinished_tasks == 0)
        _note('qjoin', self._mc_id)

    def qsize(self):
        self._mc_point('qsize')
        n = self._qsize()
        _note('qsize', self._mc_id, n)
        return n

    def empty(self):
        return self.qsize() == 0

    def full(self):
        return 0 < self.maxsize <= self.qsize()


class LifoQueue(Queue):
    def _init(self, maxsize):
        self.queue = []

    def _put(self, item):
        self.queue.append(item)

    def _get(self):
        return self.queue.pop()


class PriorityQueue(Queue):
    def _init(self, maxsize):
        self.queue = []

    def _put(self, item):
        import heapq
        heapq.heappush(self.queue, item)

    def _get(self):
        import heapq
        return heapq.heappop(self.queue)


class SimpleQueue(Queue):
    def __init__(self):
        Queue.__init__(self, 0)


class Thread(object):
    _counter = 0

    def __init__(self, group=None, target=None, name=None, args=(),
                 kwargs=None, daemon=None):
        self._target = target
        self._args = args
        self._kwargs = kwargs or {}
        self._name = str(name) if name is not None else 'Thread'
        self._daemonic = bool(daemon)
        self._task = None
        self._epoch = None

    name = property(lambda self: self._name,
                    lambda self, v: setattr(self, '_name', str(v)))
    daemon = property(lambda self: self._daemonic,
                      lambda self, v: setattr(self, '_daemonic', bool(v)))

    def getName(self):
        return self._name

    def setName(self, name):
        self._name = str(name)

    def isDaemon(self):
        return self._daemonic

    def setDaemon(self, daemonic):
        self._daemonic = bool(daemonic)

    @property
    def ident(self):
        return None if self._task is None else id(self._task)

    native_id = ident

    def run(self):
        try:
            if self._target:
                self._target(*self._args, **self._kwargs)
        finally:
            del self._target, self._args, self._kwargs

    def start(self):
        s = CURRENT
        if s is None or s.current is None:
            raise RuntimeError('thread started outside of a controlled '
                               'execution')
        if self._task is not None:
            raise RuntimeError('threads can only be started once')
        s.point('start', None)

        def body():
            try:
                self.run()
            except (SystemExit, GreenletKill):
                pass
            except BaseException as e:
                s.thread_excs.append(e)
        self._task = s.spawn(body, self)
        s.note('start', self._task.id)

    def join(self, timeout=None):
        if self._task is None:
            raise RuntimeError('cannot join thread before it is started')
        s = CURRENT
        task = self._task
        if s is None:
            return
        if task is s.current:
            raise RuntimeError('cannot join current thread')
        ok = s.point('join', self, lambda: task.done, timeout is not None)
        if ok:
            s.note('join', task.id, task.hist)
        else:
            s.note('nojoin', task.id)

    def is_alive(self):
        s = CURRENT
        if self._task is None:
            return False
        if s is not None:
            s.point('is_alive', self)
            s.note('is_alive', self._task.id, self._task.done,
                   self._task.hist if self._task.done else 0)
        return not self._task.done

    isAlive = is_alive

    def __repr__(self):
        return '<Thread({})>'.format(self._name)


class Timer(Thread):
    def __init__(self, interval, function, args=None, kwargs=None):
        Thread.__init__(self)
        self.interval = interval
        self.function = function
        self.args = args or []
        self.kwargs = kwargs or {}
        self.finished = Event()

    def cancel(self):
        self.finished.set()

    def run(self):
        if not self.finished.wait(self.interval):
            self.function(*self.args, **self.kwargs)
        self.finished.set()


class _MainThread(Thread):
    def __init__(self):
        Thread.__init__(self, name='MainThread')

    ident = property(lambda self: 1)

    def is_alive(self):
        return True


_MAIN = _MainThread()


def current_thread():
    me = _me()
    if me is _NOTASK or me.thread is None:
        return _MAIN
    return me.thread


def get_ident():
    me = _me()
    return 1 if me is _NOTASK or me.thread is None else id(me)


def enumerate_threads():
    s = CURRENT
    out = [_MAIN]
    if s is not None:
        out += [t.thread for t in s.tasks if t.thread is not None and
                not t.done]
    return out


class local(object):
    """threading.local, per task."""

    def __init__(self, *args, **kwargs):
        object.__setattr__(self, '_mc_args', (args, kwargs))
        object.__setattr__(self, '_mc_dicts', {})

    def _mc_dict(self):
        me = _me()
        dicts = object.__getattribute__(self, '_mc_dicts')
        key = (EPOCH, 0 if me is _NOTASK else me.id)
        return dicts.setdefault(key, {})

    def __getattribute__(self, name):
        if name.startswith('_mc_') or (name.startswith('__') and
                                       name != '__dict__'):
            return object.__getattribute__(self, name)
        d = object.__getattribute__(self, '_mc_dict')()
        if name == '__dict__':
            return d
        if name in d:
            return d[name]
        return object.__getattribute__(self, name)

    def __setattr__(self, name, value):
        self._mc_dict()[name] = value

    def __delattr__(self, name):
        try:
            del self._mc_dict()[name]
        except KeyError:
            raise AttributeError(name)


def sleep(seconds):
    s = CURRENT
    if s is None or s.current is None:
        return
    s.point('sleep', None, lambda: False, True)


# An object with put(queue, item)/get(queue, item), e.g. to check that items
# aren't modified after having been handed over.
MONITOR = None


def line_point():
    """Called before every statement of instrumented code."""
    s = CURRENT
    if s is not None and s.line and s.current is not None:
        s.point('line', None)
        if s.chooser is not None:
            t = s.current
            if t is not None:
                t.hist = hash((t.hist, 'l'))


def install():
    threading.Thread = Thread
    threading.Timer = Timer
    threading.Lock = Lock
    threading._allocate_lock = Lock
    threading.RLock = RLock
    threading.Condition = Condition
    threading.Semaphore = Semaphore
    threading.BoundedSemaphore = BoundedSemaphore
    threading.Event = Event
    threading.local = local
    threading.current_thread = current_thread
    threading.currentThread = current_thread
    threading.main_thread = lambda: _MAIN
    threading.get_ident = get_ident
    threading.enumerate = enumerate_threads
    threading.active_count = lambda: len(enumerate_threads())
    threading.activeCount = threading.active_count
    queue.Queue = Queue
    queue.LifoQueue = LifoQueue
    queue.PriorityQueue = PriorityQueue
    queue.SimpleQueue = SimpleQueue
    time.sleep = sleep
    # The interpreter waits for threads when it exits; there are none.
    threading._shutdown = lambda: None


# -- Convenience for sequential checks --------------------------------------
class Outcome(object):
    __slots__ = ('value', 'exc', 'deadlock', 'leaked', 'sched')

    @property
    def ok(self):
        return self.exc is None and self.deadlock is None


def call(fn, horizon=2000000):
    """Run fn() under the fast deterministic schedule."""
    s = Sched(horizon=horizon)
    main = s.run(fn)
    out = Outcome()
    out.sched = s
    out.value = main.value
    out.exc = main.exc
    out.deadlock = s.deadlock
    out.leaked = s.leaked
    return out


def result(fn, horizon=2000000):
    """
    Run fn() under the fast schedule; return its value or raise its exception,
    MCDeadlock if it never returns.
    """
    s = Sched(horizon=horizon)
    main = s.run(fn)
    if s.deadlock is not None:
        raise MCDeadlock('never returns; blocked: {}{}'.format(
            s.deadlock, ' (livelock)' if s.livelock else ''))
    if main.exc is not None:
        raise main.exc
    return main.value
