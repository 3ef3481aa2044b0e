"""
Runs the work units of a check on all cores, and reports.

A check module defines
    PROPERTY        its id
    units(tier)     the list of work units (any picklable values)
    run(unit, ctx)  explores one unit; calls ctx.fail(case, message) for a
                    violation and ctx.count(name, n) etc. for coverage
    replay(case)    re-runs one failing case; returns a message, or None
    COVERAGE        text: what is enumerated
    ASSUMPTIONS     list of texts
"""
import hashlib
import importlib
import json
import os
import pickle
import select
import signal
import struct
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAX_FAILURES = 5


class StopUnit(Exception):
    pass


class Context(object):
    def __init__(self, tier, seed, deadline):
        self.tier = tier
        self.seed = seed
        self.deadline = deadline
        self.counts = {}
        self.maxima = {}
        self.sets = {}
        self.samples = []
        self.failures = []
        self.notes = set()
        self.unit_index = 0
        self.capped = 0

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def maximum(self, name, value):
        self.maxima[name] = max(self.maxima.get(name, value), value)

    def add(self, name, value):
        """Count distinct values under the given name."""
        self.sets.setdefault(name, set()).add(value)

    def sample(self, case, limit=1):
        if len(self.samples) < limit:
            self.samples.append(case)

    def note(self, text):
        self.notes.add(text)

    def fail(self, case, message):
        self.failures.append((self.unit_index, len(json.dumps(case)),
                              case, message))
        if len(self.failures) >= MAX_FAILURES:
            raise StopUnit()

    def out_of_time(self):
        return time.time() > self.deadline


def _worker(module, units, take, put, tier, seed, deadline, base):
    ctx = Context(tier, seed, deadline)
    error = None
    done = 0
    try:
        while True:
            data = os.read(take, 4)
            if len(data) < 4:
                break
            i, = struct.unpack('<I', data)
            ctx.unit_index = i
            if ctx.out_of_time():
                ctx.capped += 1
                continue
            if len(ctx.failures) >= MAX_FAILURES:
                continue
            try:
                t0 = time.time()
                module.run(units[i], ctx)
                if os.environ.get('MC_PROFILE'):
                    sys.stderr.write('%6.2f s  unit %d %s\n' % (
                        time.time() - t0, i, str(units[i])[:110]))
                    sys.stderr.flush()
            except StopUnit:
                pass
            done += 1
    except BaseException:
        error = 'unit %r\n%s' % (units[ctx.unit_index],
                                 traceback.format_exc())
    result = pickle.dumps((ctx.counts, ctx.maxima,
                           ctx.sets, ctx.samples,
                           ctx.failures, ctx.notes, ctx.capped, done, error),
                          protocol=4)
    with os.fdopen(put, 'wb') as fh:
        fh.write(result)
        fh.flush()


def run_units(module, units, tier, seed, deadline, n_workers):
    take_r, take_w = os.pipe()
    workers = []
    sys.stdout.flush()
    sys.stderr.flush()
    n_workers = max(1, min(n_workers, len(units)))
    for w in range(n_workers):
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                os.close(take_w)
                for _, other in workers:
                    os.close(other)
                _worker(module, units, take_r, wr, tier, seed, deadline, w)
            except BaseException:
                traceback.print_exc()
                code = 3
            finally:
                sys.stderr.flush()
                os._exit(code)
        os.close(wr)
        workers.append((pid, r))
    os.close(take_r)
    signal.signal(signal.SIGPIPE, signal.SIG_IGN)
    # Hand out the units, and collect the results.
    todo = iter(range(len(units)))
    nxt = next(todo, None)
    buffers = {r: b'' for _, r in workers}
    open_fds = set(buffers)
    while open_fds or nxt is not None:
        if nxt is None and take_w is not None:
            os.close(take_w)
            take_w = None
        rl, wl, _ = select.select(list(open_fds),
                                  [take_w] if take_w is not None else [], [],
                                  1.0)
        if wl and nxt is not None:
            try:
                os.write(take_w, struct.pack('<I', nxt))
                nxt = next(todo, None)
            except BrokenPipeError:
                nxt = None
        for fd in rl:
            data = os.read(fd, 1 << 16)
            if data:
                buffers[fd] += data
            else:
                open_fds.discard(fd)
        if not open_fds:
            nxt = None
    if take_w is not None:
        os.close(take_w)
    results = []
    errors = []
    for pid, r in workers:
        _, status = os.waitpid(pid, 0)
        os.close(r)
        if not buffers[r]:
            errors.append('a worker process died (status %d)' % status)
            continue
        result = pickle.loads(buffers[r])
        if result[-1]:
            errors.append(result[-1])
        results.append(result)
    return results, errors


def known_findings(prop):
    """The recorded findings: {case text: description}."""
    out = {}
    path = os.path.join(VERIF, 'known_findings.jsonl')
    if os.path.exists(path):
        with open(path) as fh:
            for line in fh:
                line = line.strip()
                if line.startswith('{'):
                    item = json.loads(line)
                    if item.get('property') == prop and \
                            item.get('status') == 'known':
                        out[json.dumps(item['case'], sort_keys=True)] = \
                            item['what']
    return out


def setup():
    """Nothing needs to be built; check that everything can be loaded."""
    from mc import boot
    biggus = boot.load()
    print('ready: %s from %s' % (biggus.__name__, biggus.__file__))
    return 0


def main(argv):
    if argv[0] == '--setup':
        return setup()
    prop = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in argv:
        tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    module = importlib.import_module('checks.' + prop.lower())
    if '--replay' in argv:
        with open(argv[argv.index('--replay') + 1]) as fh:
            item = json.load(fh)
        message = module.replay(item['case'])
        print('case: %s' % json.dumps(item['case']))
        if message:
            print('reproduced: %s' % message)
            return 1
        print('not reproduced')
        return 0

    t0 = time.time()
    budget = float(os.environ.get(
        'MC_BUDGET', 600 if tier == 'quick' else 6 * 3600))
    units = module.units(tier)
    if '--units' in argv:
        a, b = argv[argv.index('--units') + 1].split(':')
        units = units[int(a):int(b)]
    n_workers = int(os.environ.get('MC_WORKERS', os.cpu_count() or 1))
    results, errors = run_units(module, units, tier, seed, t0 + budget,
                                n_workers)
    counts, maxima, sets, samples, failures, notes = {}, {}, {}, [], [], set()
    capped = done = 0
    for c, m, d, s, f, n, cap, dn, err in results:
        for k, v in c.items():
            counts[k] = counts.get(k, 0) + v
        for k, v in m.items():
            maxima[k] = max(maxima.get(k, v), v)
        for k, v in d.items():
            sets.setdefault(k, set()).update(v)
        samples += s
        failures += f
        notes |= n
        capped += cap
        done += dn
    if errors:
        for e in errors[:3]:
            sys.stderr.write('ERROR in check %s: %s\n' % (prop, e))
        if not failures:
            return 2

    failures.sort(key=lambda f: (f[0], f[1]))
    known = known_findings(prop)
    fresh = []
    reported = set()
    for _, _, case, message in failures:
        text = json.dumps(case, sort_keys=True)
        if text in known:
            if text not in reported:
                print('KNOWN-FINDING: property=%s %s' % (prop, known[text]))
                reported.add(text)
        else:
            fresh.append((case, message))

    coverage = {k: v for k, v in sorted(counts.items())}
    coverage.update(('max_' + k, v) for k, v in sorted(maxima.items()))
    coverage.update((k, len(v)) for k, v in sorted(sets.items()))
    coverage.setdefault('states', 0)
    coverage.setdefault('transitions', 0)
    coverage.setdefault('traces_validated_against_impl', 0)
    coverage['samples'] = [json.dumps(s) for s in samples[:6]]
    coverage['work_units'] = done
    coverage['what'] = ' '.join(module.COVERAGE.split())
    coverage['exhaustive'] = (capped == 0 and not fresh and
                              done == len(units))
    if capped:
        coverage['units_not_explored_for_lack_of_time'] = capped
    if notes:
        coverage['notes'] = sorted(notes)[:20]
    evidence = dict(property=prop, tier=tier, seed=seed,
                    level='model_checking', coverage=coverage,
                    assumptions=list(module.ASSUMPTIONS),
                    wall_s=round(time.time() - t0, 2),
                    violations=len(fresh))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as fh:
        json.dump(evidence, fh, indent=1)
        fh.write('\n')

    print('%s %s: states=%d transitions=%d validated=%d units=%d/%d '
          'wall=%.1fs' % (prop, tier, coverage['states'],
                          coverage['transitions'],
                          coverage['traces_validated_against_impl'], done,
                          len(units), time.time() - t0))
    if capped:
        print('note: %d of %d units were not explored for lack of time' % (
            capped, len(units)))
    if fresh:
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        for i, (case, message) in enumerate(fresh[:3]):
            text = json.dumps(case)
            name = '%s-%s.json' % (
                prop, hashlib.sha1(text.encode()).hexdigest()[:12])
            path = os.path.join('replays', name)
            with open(os.path.join(VERIF, path), 'w') as fh:
                json.dump(dict(property=prop, case=case, message=message,
                               how='./check %s --replay %s' % (prop, path)),
                          fh, indent=1)
            print('VIOLATION property=%s replay=%s' % (prop, path))
            print('  case: %s' % text[:1500])
            print('  %s' % message[:1500])
        return 1
    return 0


if __name__ == '__main__':
    code = 2
    try:
        code = main(sys.argv[1:])
    except SystemExit as e:
        code = e.code if isinstance(e.code, int) else 2
        if not isinstance(e.code, int):
            print(e.code)
    except BaseException:
        traceback.print_exc()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)
