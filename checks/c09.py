"""C09: results and termination don't depend on the scheduling of threads."""
import json
import os
import subprocess
import sys

from mc import boot, explore, graphs
from mc import ref as R

PROPERTY = 'C09'
COVERAGE = """
Batches with about 30 different thread graphs (chains, joins, fan-outs,
diamonds, separate components, aggregations of pieces in different orders,
misaligned sources, nested evaluations; plain and masked), each cut into few
pieces and into enough to fill the queues: (sync) every interleaving of all
synchronisation operations, by depth-first search over schedules with merging
of equal global states; (pairs) without merging, every schedule with at most
two deviations at synchronisation operations from several base schedules;
(line) every schedule with one deviation at any executed statement of the
library; (crowd) three base schedules of batches which need up to several
hundred threads. In every execution the call must return the reference result and all
threads must end. (real) The same batches are run on the real threads of the
interpreter, to validate the controlled runtime. states = distinct global
states (sync) and schedules (others), transitions = scheduling decisions.
"""
ASSUMPTIONS = [
    'pre-emption within a statement (sync: between synchronisation '
    'operations) is not explored',
    'threads interact through the primitives of threading and queue; at '
    'statement level, by anything']
HERE = os.path.dirname(os.path.abspath(__file__))
TIMEOUTS = 1


def cases(tier):
    for mask in (None, 'third'):
        for few in (True, False):
            for name in sorted(graphs.family(few, mask)):
                yield 'family', few, mask, name
            for name in sorted(graphs.large(few, mask)):
                yield 'large', few, mask, name


def units(tier):
    out = []
    thorough = tier == 'thorough'
    for which, few, mask, name in cases(tier):
        if not thorough and (mask or which == 'large') and (
                not few or which == 'large' and mask):
            continue
        out.append(['sync', which, few, mask, name])
    for which, few, mask, name in cases(tier):
        if not few or which == 'large' and not thorough:
            continue
        if mask and not thorough:
            continue
        for base in explore.BASES:
            out.append(['pairs', which, few, mask, name, base])
    for which, few, mask, name in cases(tier):
        if not few or which == 'large' and not thorough:
            continue
        if mask and not thorough and name not in ('agg', 'add', 'fan'):
            continue
        for base in explore.BASES:
            if base == 'stay' or thorough:
                for part in range(4):
                    out.append(['line', which, few, mask, name, base, part,
                                4])
    for n in (12, 30, 60, 110, 260) + ((520, 1100) if thorough else ()):
        for mask in (None, 'third'):
            for name in sorted(graphs.crowd(9, mask)):
                if name != 'deep' or n < 200:
                    out.append(['crowd', n, mask, name])
    out.append(['real', 30 if thorough else 5])
    # The longest first.
    out.sort(key=lambda u: (u[0] != 'real', u[0] != 'line', u[1] != 'large',
                            u[0] != 'pairs'))
    return out


def run(unit, ctx):
    if unit[0] == 'real':
        return run_real(unit, ctx)
    if unit[0] == 'crowd':
        return run_crowd(unit, ctx)
    make = make_case(unit)
    st = explore.Stats()
    if unit[0] == 'sync':
        found = explore.merged(make.body, make.verdict, st,
                               timeouts=TIMEOUTS,
                               limit=2500 if ctx.tier == 'quick' else None)
    elif unit[0] == 'pairs':
        found = explore.deviating(make.body, make.verdict, st, 2, unit[5],
                                  line=False, timeouts=TIMEOUTS,
                                  limit=1500 if ctx.tier == 'quick' else
                                  None)
    else:
        found = explore.deviating(make.body, make.verdict, st, 1, unit[5],
                                  line=True, part=unit[6], parts=unit[7])
    make.done()
    ctx.count('states', st.states if unit[0] == 'sync' else st.executions)
    if unit[0] != 'sync':
        ctx.count('scheduling_points', st.states)
    ctx.count('transitions', st.transitions)
    ctx.count('traces_validated_against_impl', st.executions)
    ctx.count('executions_' + unit[0], st.executions)
    if not st.exhausted:
        ctx.note('%s: capped' % (unit,))
        ctx.count('capped_units')
    if st.diverged:
        ctx.count('replay_divergences', st.diverged)
    if found:
        ctx.fail([unit, found[1]], found[0])
    else:
        ctx.sample([unit, []])


class make_case(object):
    def __init__(self, unit):
        if unit[0] == 'crowd':
            what, n, mask, name = unit
            ps, limit = graphs.crowd(n, mask)[name]
        else:
            what, which, few, mask, name = unit[:5]
            ps, limit = getattr(graphs, which)(few, mask)[name]
        biggus = boot.load(line=True)
        model = R.Model()
        case = graphs.Case(biggus, ps, model)
        boot.set_limit(limit)
        masked = mask is not None
        self.body = lambda: case.evaluate(masked)
        self.case = case
        self.masked = masked

    def verdict(self, e):
        if e.problem:
            return e.problem
        if e.main.exc is not None:
            return 'raised %r' % (e.main.exc,)
        return self.case.compare(e.main.value, self.masked)

    def done(self):
        boot.set_limit(boot.DEFAULT_LIMIT)


def replay(case):
    unit, schedule = case
    if unit[0] == 'real':
        return real(unit[1])
    make = make_case(unit)
    try:
        if unit[0] == 'crowd':
            e, points = explore.run_deviations(make.body, [], schedule[0],
                                               line=False)
        elif unit[0] == 'sync':
            e = explore.replay_schedule(make.body, schedule,
                                        timeouts=TIMEOUTS)
        else:
            e, points = explore.run_deviations(
                make.body, [tuple(d) for d in schedule], unit[5],
                line=unit[0] == 'line',
                timeouts=TIMEOUTS if unit[0] == 'pairs' else 0)
        return make.verdict(e)
    finally:
        make.done()


def run_crowd(unit, ctx):
    """The base schedules of many threads."""
    make = make_case(unit)
    for base in sorted(explore.BASES):
        e, points = explore.run_deviations(make.body, [], base, line=False,
                                           horizon=10 ** 6)
        ctx.count('states')
        ctx.count('transitions', e.sched.steps)
        ctx.count('executions_crowd')
        ctx.maximum('threads', len(e.sched.tasks))
        message = make.verdict(e)
        if message:
            ctx.fail([unit, [base]], message[:1000])
            break
        ctx.count('traces_validated_against_impl')
    make.done()


def run_real(unit, ctx):
    message = real(unit[1], ctx)
    if message:
        ctx.fail([unit, []], message)


def real(repeats, ctx=None):
    """Run the batches on real threads, in another interpreter."""
    env = dict(os.environ, PYTHONPATH='%s:%s' % (os.path.dirname(HERE),
                                                 boot.REPO))
    p = subprocess.run([sys.executable, '-W', 'ignore', '-m', 'mc.real',
                        str(repeats)], env=env, stdout=subprocess.PIPE,
                       stderr=subprocess.DEVNULL, timeout=800,
                       universal_newlines=True)
    for line in p.stdout.splitlines():
        if line.startswith('RESULT '):
            n, message = json.loads(line[7:])
            if ctx is not None:
                ctx.count('traces_validated_against_impl', n)
                ctx.count('executions_real', n)
            return message
    raise RuntimeError('no result from the real threads')
