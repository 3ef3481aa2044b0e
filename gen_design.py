#!/usr/bin/env python3
"""
Fills in DESIGN.md: design/head.md, a section per property (title from
properties.jsonl, what is enumerated from the check's COVERAGE, the rest from
here), the table of planted changes, design/tail.md.
"""
import ast
import glob
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))

# property: (oracle, cost in seconds (quick), why it reaches what tests can't)
MORE = {
    'C01': ('`mc/ref.py`: NumPy, one axis at a time; the accumulated selection '
            'is kept as positions of the source', 100,
            'key composition has to be right for every pair of keys; after '
            'one more index operation an adapter is a new state, and states '
            'which are structurally equal are merged, so that chains are '
            'covered without repeating them'),
    'C02': ('stacking/concatenating in NumPy, then orthogonal indexing', 80,
            'errors sit at the boundaries between tiles and items, for '
            'particular steps, signs and repetitions'),
    'C03': ('NumPy transpose/astype/reshape/broadcast/masked_equal', 65,
            'views rewrite the keys for the view inside; only compositions '
            'show a wrong rewrite'),
    'C04': ('the NumPy ufunc or `numpy.ma` function on the realised operands',
            70, 'types x shapes x operands x masks is a product'),
    'C05': ('NumPy on the whole array in wide types, tolerance of the result '
            'type for mean/std/var (which accumulate)', 25,
            'where the pieces are cut depends on shape, axis and limit'),
    'C06': ('plain NumPy on the unmasked values', 75,
            'whether one piece has no data, some, or all is a matter of the '
            'mask and of the limit: all masks x all limits'),
    'C07': ('composition of the references of C01 to C06; indexing before '
            'against after', 85,
            'operations are each tested alone, programs are what users write'),
    'C08': ('each member evaluated alone', 50,
            'nodes are shared between members; which ones depends on the '
            'batch'),
    'C09': ('the reference value; that all threads have ended', 95,
            'tests see one schedule per run, and block if that deadlocks'),
    'C10': ('an exception is raised iff one has happened; threads ended; the '
            'same arrays evaluate rightly afterwards', 105,
            'the position of a fault x the schedule decides who is left '
            'waiting for whom'),
    'C11': ('the number of reads/of arrays alive with every thread stalled '
            'at every step doesn\'t grow with the number of pieces', 75,
            'slow consumers don\'t occur in tests'),
    'C12': ('symbolic dependencies: the set of source elements which each '
            'element of each operation needs', 45,
            'tests count reads for one expression'),
    'C13': ('the statement itself: within bounds, within the limit, disjoint, '
            'complete', 11,
            'shapes x limits; the interesting ones don\'t divide'),
    'C14': ('reference values; every position assigned exactly once', 35,
            'pieces of a partial dimension, empty and 0-d arrays, failing '
            'writes'),
    'C15': ('comparison of what is declared with what is evaluated', 65,
            'the declared type is computed separately from the result\'s, for '
            'every combination of types'),
    'C16': ('the same operation in a fresh universe; snapshots of sources', 85,
            'leaks need a history'),
    'C17': ('the default engine\'s results; for the grouping, the common '
            'refinement of the partitions', 100,
            'tasks run in whichever order the graph allows'),
    'C18': ('must raise before or on evaluation, with nothing read', 13,
            'a wrong index which is accepted gives plausible data'),
    'C19': ('what the client would get alone', 75,
            'no test has more than one client'),
    'C20': ('a model of arrays with three layers: data, mask, and the fill '
            'value of each element\'s own source', 130,
            'the fill value gets lost in some combination of view, key kind '
            'and way to evaluate (three such were found and repaired)'),
    'C21': ('a model of objects and references', 80,
            'aliasing shows only after several steps'),
}


def attributes(path):
    out = {}
    for n in ast.parse(open(path).read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) \
                and n.targets[0].id in ('COVERAGE', 'ASSUMPTIONS'):
            out[n.targets[0].id] = ast.literal_eval(n.value)
    return out


def main():
    text = open(os.path.join(HERE, 'design', 'head.md')).read()
    text += '\n## The properties\n'
    for line in open(os.path.join(HERE, 'properties.jsonl')):
        p = json.loads(line)
        id = p['id']
        oracle, cost, why = MORE[id]
        a = attributes(os.path.join(HERE, 'checks', id.lower() + '.py'))
        text += '\n### %s %s\n\n' % (id, p['title'])
        text += '*Enumerated, and bounds.* %s\n\n' % ' '.join(
            a['COVERAGE'].split())
        text += '*Oracle.* %s.\n\n' % oracle
        text += '*Assumed.* %s.\n\n' % '; '.join(a['ASSUMPTIONS'])
        text += ('*Why the tests can\'t settle it.* %s. *Cost.* about %d s '
                 '(quick, 8 cores).\n' % (why, cost))
    text += '\n## Planted changes, and which check catches them\n\n'
    text += ('Each was written from the statement of the property; all of '
             'those listed are caught by the check of the property (some only '
             'after the check had been extended, marked +).\n\n')
    text += '| change | check | what it needs to manifest |\n|---|---|---|\n'
    for path in sorted(glob.glob(os.path.join(HERE, 'seeded', '*',
                                              'meta.json'))):
        d = json.load(open(path))
        name = path.split(os.sep)[-2]
        text += '| %s%s | %s | %s |\n' % (
            name, ' +' if name in EXTENDED else '', d['property'],
            d['needs'].replace('|', '/'))
    text += open(os.path.join(HERE, 'design', 'tail.md')).read()
    with open(os.path.join(HERE, 'DESIGN.md'), 'w') as fh:
        fh.write(text)


EXTENDED = set('''c03-mask-approximate c03-astype-collapse c04-pow-square
c09-join-timeout c09-thread-limit c09-read-lock c12-split-groups c13-overflow
c11-grow-when-slow c14-writer-thread c17-loop-bound c18-save-many
c18-broadcast-same-length c20-fill-close'''.split())
main()
