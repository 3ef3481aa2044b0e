#!/usr/bin/env python3
"""Makes and confirms planted changes (see seeded/README).

usage: mkseed.py SPEC.py [ID...]

SPEC.py defines SEEDS, a list of dicts: id, property, needs, breaks, edits
[(file, old, new)...], demo (Python source). For each, in a scratch copy of
/repo: the demonstration must pass; then, with the edits, the build and the
stable tests must pass and the demonstration must fail. Only then is
seeded/<id>/ written.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

BASE = '9b821cd'
HERE = os.path.dirname(os.path.abspath(__file__))
SEEDED = os.path.join(os.path.dirname(HERE), 'seeded')
DEMO = '''#!/bin/bash
# Run from the root of the repository.
export PYTHONPATH=$PWD PYTHONDONTWRITEBYTECODE=1
exec timeout 250 /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
'''


def sh(cmd, cwd, timeout=600):
    return subprocess.run(cmd, cwd=cwd, shell=True, timeout=timeout,
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          universal_newlines=True)


def original(cwd, path):
    out = sh('git blame -s %s' % path, cwd).stdout.splitlines()
    return [line.startswith('^') for line in out]


def make(seed):
    top = tempfile.mkdtemp(prefix='seed-', dir='/tmp')
    try:
        repo = os.path.join(top, 'repo')
        sh('cp -a /repo %s && cd %s && git checkout -q -- . && git clean -fdq'
           % (repo, repo), top)
        demo = os.path.join(top, 'demo')
        os.mkdir(demo)
        with open(demo + '/demo.sh', 'w') as fh:
            fh.write(DEMO)
        os.chmod(demo + '/demo.sh', 0o755)
        with open(demo + '/demo.py', 'w') as fh:
            fh.write(seed['demo'].lstrip('\n'))
        r = sh('bash %s/demo.sh' % demo, repo)
        if r.returncode:
            return 'the demonstration fails on the unchanged tree\n' + \
                r.stdout[-1500:]
        for path, old, new in seed['edits']:
            full = os.path.join(repo, path)
            text = open(full).read()
            if text.count(old) != 1:
                return '%d occurrences of %r' % (text.count(old), old)
            with open(full, 'w') as fh:
                fh.write(text.replace(old, new))
        diff = sh('git diff -U0', repo).stdout
        # Every removed line must be the original's.
        import re
        marks = {}
        for path in set(e[0] for e in seed['edits']):
            out = sh('git blame -s HEAD -- %s' % path, repo).stdout
            marks[path] = [x.startswith('^') for x in out.splitlines()]
        path = None
        for line in diff.splitlines():
            if line.startswith('--- a/'):
                path = line[6:]
            m = re.match(r'@@ -(\d+)(?:,(\d+))?', line)
            if m:
                start, n = int(m.group(1)), int(m.group(2) or 1)
                for i in range(start, start + n):
                    if not marks[path][i - 1]:
                        return 'line %d of %s is not original' % (i, path)
                if n == 0 and not (marks[path][start - 1] or
                                   marks[path][start]):
                    return 'insertion at non-original line %d' % start
        r = sh('/opt/venv/bin/python -m pytest -q -p no:cacheprovider '
               '--timeout=300 biggus 2>&1 | tail -8', repo)
        want = '2 failed, 467 passed'
        if want not in r.stdout:
            return 'tests: ' + r.stdout
        r = sh('/opt/venv/bin/python -c "import biggus.experimental.'
               'dask_engine, biggus.experimental.key_grouper"', repo)
        if r.returncode:
            return r.stdout
        r = sh('PYTHONPATH=$PWD bash %s/demo.sh' % demo, repo)
        if r.returncode == 0:
            return 'the demonstration passes with the change'
        out = os.path.join(SEEDED, seed['id'])
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        for name in ('demo.sh', 'demo.py'):
            shutil.copy2(os.path.join(demo, name), out)
        with open(out + '/patch.diff', 'w') as fh:
            fh.write(sh('git diff', repo).stdout)
        with open(out + '/meta.json', 'w') as fh:
            json.dump(dict(property=seed['property'], needs=seed['needs'],
                           what_it_breaks=seed['breaks']), fh, indent=1)
            fh.write('\n')
        return None
    finally:
        shutil.rmtree(top, ignore_errors=True)


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    only = sys.argv[2:]
    from concurrent.futures import ThreadPoolExecutor
    seeds = [s for s in ns['SEEDS'] if not only or s['id'] in only]
    with ThreadPoolExecutor(4) as pool:
        for s, r in zip(seeds, pool.map(make, seeds)):
            print('%-28s %s' % (s['id'], 'ok' if r is None else 'REJECTED: '
                                + r))


if __name__ == '__main__':
    main()
