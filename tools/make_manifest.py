"""Writes /verif/MANIFEST.json from the checks that exist: python3 tools/make_manifest.py"""
import ast
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python -B'
TECH = {
    'C01': 'explicit-state BFS over operation histories of the real ProbabilityField, in lock-step with a set-based model',
    'C02': 'explicit-state BFS over extent-request histories of the real ProbabilityField against a lattice model',
    'C03': 'bounded-exhaustive enumeration of tracks over a vertex lattice on the real code, exact rational oracle',
    'C04': 'bounded-exhaustive enumeration of models and points on the real code against an analytic oracle',
    'C05': 'bounded-exhaustive enumeration of potentials and parameters on the real code, both sides of every boundary',
    'C06': 'bounded-exhaustive enumeration of fit problems on the real code, optimality and covariance oracle',
    'C07': 'bounded-exhaustive enumeration of observation lists on the real code against a reference filter',
    'C08': 'bounded-exhaustive enumeration of flows, starts, durations, tolerances on the real tracer, known solutions',
    'C09': 'exhaustive fault injection at every velocity evaluation of the real tracer and capture zone',
    'C10': 'bounded-exhaustive enumeration of capture-zone histories on the real code with scripted velocity fields',
    'C11': 'bounded-exhaustive enumeration of distributions and random-source answers on the real code',
    'C12': 'bounded-exhaustive enumeration of configurations on the real code against reference traces of the mean problem',
    'C13': 'choice-sequence model checking: every answer sequence of the random source (bounded deviations) on the real run, lock-step reference',
    'C14': 'bounded-exhaustive enumeration of degenerate configurations, comparing the two real run modes',
    'C15': 'exhaustive enumeration of argument boundary values (singly and in pairs) on the real entry point with effects recorded',
    'C16': 'exhaustive crash-point (truncation) enumeration and clock-history exploration on the real archive code',
    'C17': 'exhaustive enumeration of small probability fields and runs on the real reporting code, plot calls recorded',
    'C18': 'explicit exploration of all interleaved operation histories on several real objects up to a depth bound',
    'C19': 'exhaustive enumeration of windows and wet/dry patterns on the real map code, plot calls recorded',
    'C20': 'exhaustive enumeration of small tables on the real code against exact statistics',
    'C21': 'exhaustive enumeration of data modules and settings on the real driver with the run recorded',
    'C22': 'exhaustive enumeration of transformations and compositions on the real runs, metamorphic oracle',
    'C23': 'exhaustive enumeration of ordered setting pairs on the real runs, monotonicity oracle',
    'C24': 'exhaustive enumeration of settings and filter outcomes on the real runs, log recorded',
}
NOTE = 'Exhaustive within the bounds the evidence file states (counts of cases, states, transitions); nothing is sampled. Drives the real code of /repo. Trusts numpy/scipy/matplotlib, the reference models in mc/ref.py and the enumerated alphabets.'
EXTRA = {
    'C08': ' Accuracy is judged against closed-form flows with a slack of 2 tol.',
    'C12': ' Nodes within 0.15 m of the umbra are not judged.',
    'C13': ' Nodes within 0.15 m of the umbra are not judged; the random source answers from a small alphabet of quantiles.',
}


def level(path):
    for n in ast.parse(open(path).read()).body:
        if isinstance(n, ast.Assign) and n.targets[0].id == 'LEVEL':
            return n.value.value


def main():
    ids = [json.loads(x)['id'] for x in open(os.path.join(HERE, 'properties.jsonl'))]
    checks, missing = [], []
    for i in ids:
        p = os.path.join(HERE, 'checks', i.lower() + '.py')
        if os.path.exists(p):
            checks.append(dict(property=i, quick_cmd='%s -m mc.run %s quick' % (PY, i), thorough_cmd='%s -m mc.run %s thorough' % (PY, i),
                               evidence_file='evidence/%s.json' % i, technique=TECH[i], level=level(p), level_note=NOTE + EXTRA.get(i, '')))
        else:
            missing.append(dict(property=i, reason='no check built yet'))
    m = dict(version=1, setup_cmd="/opt/venv/bin/python -B -c 'import numpy, scipy, matplotlib'", checks=checks, not_applicable=missing,
             notes='Pure Python: the checks import the code of /repo as it stands (no bytecode caches); no hooks in /repo. VERIF_SEED only sets the order of exploration, if at all.')
    json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
    print(len(checks), 'checks', len(missing), 'missing')


main()
