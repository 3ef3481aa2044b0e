#!/usr/bin/env python3
"""Writes MANIFEST.json for the checks which exist."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))

SEQ = ('explicit-state bounded model checking of the real code: exhaustive '
       'enumeration of operation sequences/programs x inputs x piece limits '
       'under a controlled scheduler, every state compared with a NumPy '
       'reference model')
TECH = dict.fromkeys(['C%02d' % i for i in range(1, 22)], SEQ)
TECH['C09'] = TECH['C10'] = TECH['C19'] = (
    'stateless model checking of the real code: exhaustive exploration of '
    'thread interleavings (state-hashed DFS over synchronisation operations, '
    'pre-emption-bounded at statement level) with fault injection at every '
    'position')
TECH['C11'] = (
    'stateless model checking of the real code: every worker stalled at every '
    'synchronisation step under a controlled scheduler, for growing inputs')
TECH['C01'] = ('explicit-state breadth-first search over index histories of '
               'the real adapters, with state merging and a position-array '
               'reference model')
TECH['C17'] = ('explicit-state exploration: every topological execution '
               'order of the dask graphs and every interval partition for '
               'the key grouping, compared with a reference')
NOTE = {
}
DEFAULT = ('Exhaustive within the bounds written in DESIGN.md; every explored '
           'state is an execution of the code in /repo, compared with an '
           'independent NumPy reference. Nothing is claimed beyond the '
           'bounds.')
REASONS = {}

checks, missing = [], []
for line in open(os.path.join(HERE, 'properties.jsonl')):
    p = json.loads(line)['id']
    if os.path.exists(os.path.join(HERE, 'checks', p.lower() + '.py')):
        checks.append(dict(property=p, quick_cmd='./check ' + p,
                           thorough_cmd='./check %s --thorough' % p,
                           technique=TECH[p], level='model_checking',
                           level_note=NOTE.get(p, DEFAULT)))
    else:
        missing.append(dict(property=p, reason=REASONS.get(
            p, 'the check is still being built')))
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as fh:
    json.dump(dict(version=1, setup_cmd='./check --setup', checks=checks,
                   not_applicable=missing), fh, indent=1)
    fh.write('\n')
print(len(checks), 'checks;', len(missing), 'missing')
