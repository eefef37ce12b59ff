"""C15: every argument of the entry point (singly, in pairs, at every position of the lists) outside and at the limits of its range, with every effect of the run recorded."""
import itertools

import numpy as np

from mc import runs
from mc.core import Bad
from oneka.probabilityfield import ProbabilityField

ID = 'C15'
LEVEL = 'exploration'
RULE = ('every argument x every value of its alphabet beyond its range, in both run modes; every pair of such values of two arguments; every element of wells and observations '
        'malformed at the first, a middle and the last place; every admissible limit value singly and in pairs; every subset of optional arguments left out; '
        'an outcome is (arguments varied, refused or completed)')
ASSUMPTIONS = ['computing shows in models or fields being made, random numbers drawn, figures opened or files written', 'nrealizations is not validated and not judged']

WELL = (0.0, 0.0, 0.25, 450.0)
SECOND = (35.5, -20.25, 0.5, 300.0)
DIST_BAD = ['12', None, ['1', '2'], [1.0, None], [(1,), (2,)], (), (1.0,), [5.0], (5.0, 4.0), [5.0, 4.0], (1.0, 3.0, 2.0), (2.0, 1.0, 3.0), (3.0, 2.0, 1.0), (1.0, 2.0, 3.0, 4.0), ('1', '2'), (1.0, '2'), (1.0, None), {}, '@array', '@nan', ('@nan', 1.0), (0.1, '@nan'),
            (0.1, '@nan', 0.3)]
AQUIFER_BAD = DIST_BAD + [0, 0.0, -1, -0.5, (0, 0), (0.0, 0.0, 0.0), (-1.0, 1.0), [-0.1, 0.1, 0.5], (0, -1), [0, 0]]
POROSITY_BAD = AQUIFER_BAD + [1.0000001, 2, (0.2, 1.5), (0.1, 0.2, 1.01), [0.5, 2], (1, 1.5), '@inf', (0.2, '@inf')]
POSITIVE_BAD = [0, 0.0, -1, -0.001, '5', None, (1.0,), [5], '@nan', '@-inf']

WELLS_BAD = [('x', 0.0, 0.25, 450.0), (0.0, None, 0.25, 450.0), (0.0, 0.0, '1', 450.0), (0.0, 0.0, 0, 450.0), (0.0, 0.0, 0.0, 450.0), (0.0, 0.0, -0.25, 450.0), (0.0, 0.0, 0.25), (0.0, 0.0, 0.25, 450.0, 1.0), (), None, 7, 'abcd',
             {}, ((0.0,), 0.0, 0.25, 450.0), (0.0, 0.0, '@nan', 450.0)] + [(0.0, 0.0, 0.25, d) for d in DIST_BAD]
OBS_BAD = [('x', 60.0, 134.0, 0.1), (170.0, None, 134.0, 0.1), (170.0, 180.0, '134', 0.1), (170.0, 180.0, 134.0, '0.1'), (170.0, 180.0, 134.0, 0), (170.0, 180.0, 134.0, 0.0), (170.0, 180.0, 134.0, -0.1),
           (170.0, 180.0, 134.0), (170.0, 180.0, 134.0, 0.1, 1.0), (), None, 5.0, 'abcd', {}, (170.0, 180.0, 134.0, None), (170.0, 180.0, 134.0, '@nan'), ([170.0], 180.0, 134.0, 0.1), (170.0, 180.0, (134.0, 135.0), 0.1)]


def base_obs():
    return runs.arguments()['observations']


def put(lst, i, v):
    return lst[:i] + [v] + lst[i + 1:]


def invalid():
    out = []
    out += [('target', v) for v in (-1, 1, 2, 1000, -2, 0.0, 0.5, '0', None, (0,))]
    out += [('npaths', v) for v in (0, -1, -7, 2.0, 0.5, '2', None, (2,))]
    out += [('duration', v) for v in (0, 0.0, -0.0, '5', None, (5.0,), [1])]
    out += [('base', v) for v in ('100', None, (1.0,))]
    out += [('projectname', v) for v in (None, 5, ('x',))] + [('runtime', v) for v in (None, 5.0)]
    out += [('c_dist', v) for v in AQUIFER_BAD] + [('t_dist', v) for v in AQUIFER_BAD] + [('p_dist', v) for v in POROSITY_BAD]
    out += [('stochastic_wells', v) for v in ([], None, (), (WELL,), 'x', 5, {}, '@array')]
    out += [('stochastic_wells', [v]) for v in WELLS_BAD]
    obs = base_obs()
    out += [('observations', v) for v in ([], None, tuple(obs), 'x', 5, {}, '@array')]
    out += [('observations', obs[:n]) for n in (1, 3, 5, 6)]
    for v in OBS_BAD:
        out += [('observations', put(obs, i, v)) for i in (0, len(obs) // 2, len(obs) - 1)]
    for n in ('buffer', 'spacing', 'umbra', 'tol', 'maxstep'):
        out += [(n, v) for v in POSITIVE_BAD]
    out += [('smooth', v) for v in (-1, -0.001, '1', None, (1.0,), '@nan', '@-inf')]
    out += [('confined', v) for v in (0, 1, 'True', None, 1.0)]
    return out


def invalid_multi():
    """Lists of two wells with the second malformed, and problems that lose too many observations on filtering."""
    out = []
    for v in WELLS_BAD:
        out.append((('stochastic_wells', [WELL, v]),))
        out.append((('stochastic_wells', [WELL, SECOND, v]), ('target', 1)))
        out.append((('stochastic_wells', [v, WELL]), ('target', 1)))
        out.append((('stochastic_wells', [WELL, v, SECOND]), ('target', 2)))
        out.append((('stochastic_wells', [WELL, v]), ('target', 1)))
        out.append((('stochastic_wells', [v, SECOND]), ('target', 0)))
        out.append((('stochastic_wells', [WELL, v, SECOND]), ('target', 1)))
    for t in (2, 3, -1, -2):
        out.append((('stochastic_wells', [WELL, SECOND]), ('target', t)))
    obs = base_obs()
    far = [o for o in obs]
    out.append((('buffer', 235.0),))
    out.append((('buffer', 1.0e9),))
    d = sorted(np.hypot(o[0], o[1]) for o in obs)
    out.append((('buffer', float(d[3])),))                           # exactly six stay
    out.append((('observations', far[:6] + [far[0]]),))              # seven given, six places
    out.append((('observations', [far[0]] * 12),))
    out.append((('observations', far[:6] + [(far[2][0] + 0.3, far[2][1] - 0.4, far[2][2], 0.2)] * 3),))
    out.append((('observations', far[:6] + [(far[i][0] + 0.5, far[i][1], far[i][2], 0.2) for i in range(6)]),))
    out.append((('observations', far[:6] + [(3.0, 4.0, 130.0, 0.1)] * 3),))
    for o in range(7):                                               # seven given, one of them within the buffer of the second well
        out.append((('observations', put(far[:7], o, (40.0, -20.0, 134.0, 0.1))), ('stochastic_wells', [WELL, SECOND]), ('buffer', 6.0)))
    return out


MANY_WELLS = [(-300.0 + 45.5 * i, 250.0 - 31.25 * (i * 5 % 12), 0.25, 20.0 + i) for i in range(11)] + [WELL]


def many_obs(n):
    return base_obs() + [(-260.0 + 17.5 * i, -240.0 + 23.25 * (i * 7 % 20), 134.0, 0.1) for i in range(n - 10)]


def invalid_long():
    """One malformed item at every place of long lists."""
    out = []
    obs = many_obs(32)
    for i in range(len(obs)):
        out.append((('observations', put(obs, i, OBS_BAD[i % len(OBS_BAD)])),))
        out.append((('observations', put(obs, i, obs[i][:3] + (0.0,))),))
    for i in range(12):
        out.append((('stochastic_wells', put(MANY_WELLS, i, WELLS_BAD[i])), ('target', (i + 1) % 12)))
        out.append((('stochastic_wells', put(MANY_WELLS, i, MANY_WELLS[i][:3] + ((5.0, 4.0),))), ('target', 11 if i != 11 else 0)))
    out += [(('stochastic_wells', MANY_WELLS), ('target', t)) for t in (12, 13, -1, -12)]
    return out


BASES = [   # other valid runs
    (('npaths', 3), ('duration', 5), ('base', 100), ('c_dist', 12), ('t_dist', 18), ('p_dist', 1), ('spacing', 10), ('umbra', 10), ('smooth', 1), ('tol', 1), ('maxstep', 10)),
    (('npaths', 12), ('maxstep', 30.0), ('tol', 0.01), ('smooth', 0), ('projectname', ''), ('runtime', '')),
    (('t_dist', [4.0, 5.0, 9.5]), ('p_dist', (0.35, 0.6)), ('c_dist', [90.0, 140.0]), ('confined', False), ('umbra', 26.0), ('spacing', 12.5)),
    (('stochastic_wells', [list(WELL), [35.5, -20.25, 0.5, (100.0, 300.0)], [-55.5, 20.25, 0.5, [100.0, 200.0, 300.0]]]), ('target', 2), ('duration', 40.0)),
    (('stochastic_wells', [WELL[:3] + (-450.0,), SECOND]), ('target', 0), ('duration', -3), ('buffer', 1), ('observations', [list(o) for o in many_obs(32)])),
]


def describe(changes):
    return ', '.join('%s=%r' % c for c in changes)[:600]


def refused(case, st):
    mode, changes, wells = case
    a = runs.arguments(nrealizations=mode)
    if wells == 2:
        a.update(stochastic_wells=[WELL, SECOND])
    for n, v in changes:
        a[n] = runs.tokens(v)
    e = runs.run(a)
    st.outcome((describe(changes), wells))
    if e.error is None:
        raise Bad('an invalid run is not refused: %s' % describe(changes))
    if not isinstance(e.error, AssertionError):
        raise Bad('an invalid run ends with %s: %s instead of an assertion error: %s' % (type(e.error).__name__, e.error, describe(changes)))
    if e.files or e.figures or e.built or e.draws:
        raise Bad('an invalid run is refused only after files %r, %d figures, %d random numbers, %r: %s' % (e.files, e.figures, e.draws, e.built, describe(changes)))


def valid():
    obs = base_obs()
    out = []
    out += [('npaths', v) for v in (1, 3, 8)]
    out += [('duration', v) for v in (1, 0.001, 5.5, 1e-9)]
    out += [('base', v) for v in (100, 99.5)]
    out += [('projectname', v) for v in ('', 'Grüße %d {0} \\n')] + [('runtime', '')]
    out += [('c_dist', v) for v in (12, 9.5, (8.0, 16.0), (8, 16), [9.0, 15.0], (8.0, 8.0), (8.0, 12.0, 16.0), [8.0, 8.0, 16.0], (8.0, 16.0, 16.0), (9.0, 9.0, 9.0), [9, 9, 9], (0, 24.0), (0.0, 12.0, 24.0))]
    out += [('t_dist', v) for v in (18, 20.5, (15.0, 25.0), [18, 22], (20.0, 20.0), (15.0, 20.0, 22.0), [20.0, 20.0, 20.0], (18, 18, 22), (0, 40.0))]
    out += [('p_dist', v) for v in (1, 1.0, 0.25, (0.1, 0.3), (0, 1), [0.2, 1], (0.2, 0.2), (0.1, 0.2, 0.3), [0.2, 0.2, 0.2], (1, 1, 1), (0.0, 0.5, 1.0), (1.0, 1.0))]
    out += [('stochastic_wells', v) for v in ([(0, 0, 1, 450)], [[0.0, 0.0, 0.25, 450.0]], [WELL[:3] + ((300.0, 500.0),)], [WELL[:3] + ([300.0, 400.0, 500.0],)], [WELL[:3] + ((400, 400, 400),)], [WELL[:3] + (0,)],
                                              [WELL[:3] + (-50.0,)], [WELL[:3] + ((-100.0, -50.0),)], [WELL, SECOND], [(0.0, 0.0, 20.0, 450.0)], [WELL, WELL[:2] + (0.25, 0.0)])]
    out += [('observations', v) for v in (obs[:7], [list(o) for o in obs], obs + obs[:2], [tuple(int(round(c)) for c in o[:2]) + (o[2], 1) for o in obs], obs + [(1.0, 2.0, 130.0, 0.1)],
                                          obs[:7] + [(obs[6][0] + 0.2, obs[6][1], obs[6][2], 0.1)])]
    out += [('buffer', v) for v in (1, 0.001, 100, 115.5)]
    out += [('spacing', v) for v in (1, 2.5, 10, 100.0)]
    out += [('umbra', v) for v in (1, 0.01, 10, 30.5)]
    out += [('smooth', v) for v in (0, 0.0, 0.5, 1, 3)]
    out += [('confined', v) for v in (True, False)]
    out += [('tol', v) for v in (1, 0.001, 100.0, 1e6)]
    out += [('maxstep', v) for v in (1, 0.5, 10, 1000.0, 1e7)]
    # far from what is usual
    out += [('npaths', 150), ('duration', 400.0), ('base', 0), ('base', -250.0), ('buffer', 1e-9), ('spacing', 1000), ('spacing', 5000.0), ('umbra', 150), ('umbra', 1e-6), ('smooth', 40), ('smooth', 1e-3)]
    out += [('projectname', 'x' * 300), ('runtime', 'a\nb'), ('t_dist', 1e4), ('t_dist', (1e-3, 60.0)), ('c_dist', 1e4), ('p_dist', 1e-3)]
    out += [('t_dist', 4.5), ('t_dist', 3), ('t_dist', (2.0, 6.0)), ('t_dist', [4.0, 5.0, 9.5]), ('maxstep', 30), ('npaths', 12), ('c_dist', 150.0), ('c_dist', (90.0, 140.0)), ('p_dist', 0.45), ('p_dist', (0.35, 0.6))]
    out += [('stochastic_wells', MANY_WELLS[-1:] + MANY_WELLS[:-1]), ('stochastic_wells', [WELL[:3] + (1e-6,)]), ('stochastic_wells', [WELL[:2] + (1e-3, 450.0)]), ('observations', many_obs(32))]
    return out


FAR = [(('umbra', 0.01), ('spacing', 100.0)), (('maxstep', 1e4), ('tol', 1e4)), (('maxstep', 0.01), ('duration', 0.001), ('tol', 1.0)),
       (('duration', 1500.0), ('spacing', 20.0), ('umbra', 25.0), ('p_dist', 0.9), ('maxstep', 20.0), ('tol', 1.0)), (('smooth', 30), ('spacing', 1.0)), (('stochastic_wells', [WELL, (4000.0, 3000.0, 0.25, (-250000.0, -150000.0))]),), (('stochastic_wells', [WELL, (4000.0, -3000.0, 0.25, 1.2e6)]),), (('npaths', 45), ('duration', 0.5), ('target', 11), ('stochastic_wells', MANY_WELLS))]


def completed(case, st):
    mode, changes, omit = case
    a = runs.arguments(nrealizations=mode)
    for n, v in changes:
        a[n] = runs.tokens(v)
    e = runs.run(a, omit=omit)
    what = describe(changes) + (' without ' + ', '.join(omit) if omit else '')
    st.outcome((what, mode))
    if e.error is not None:
        raise Bad('a valid run (%d realizations; %s) fails with %s: %s' % (mode, what, type(e.error).__name__, e.error))
    if not isinstance(e.result, ProbabilityField):
        raise Bad('a valid run (%d realizations; %s) returns %r' % (mode, what, e.result))
    if float(e.result.total_weight) != max(1, mode):
        raise Bad('a run of %d realizations (%s) has total weight %r' % (mode, what, e.result.total_weight))
    if not np.asarray(e.result.pgrid).any() and dict(changes).get('umbra', 4.0) > 3.6 and dict(changes).get('spacing', 5.0) <= 5.0:
        raise Bad('the capture zone of a valid run (%s) is empty' % what)
    if len(e.files) != 1:
        raise Bad('a run (%s) leaves %d archives: %r' % (what, len(e.files), e.files))
    if e.result.deltax != a['spacing'] and 'spacing' not in omit:
        raise Bad('spacing %r for a run with spacing %r' % (e.result.deltax, a['spacing']))


OPTIONAL = ('buffer', 'spacing', 'umbra', 'smooth', 'confined', 'tol', 'maxstep')
DEFAULTS = dict(buffer=100, spacing=10, umbra=10, smooth=0, confined=True, tol=1, maxstep=10)


def defaults(case, st):
    """Leaving optional arguments out is giving their documented defaults."""
    mode, omit = case
    a = runs.arguments(nrealizations=mode, regime='near', wells='single')
    a['confined'] = False
    e = runs.run(a, omit=omit)
    b = dict(a, **{k: DEFAULTS[k] for k in omit})
    f = runs.run(b)
    st.outcome((omit, mode))
    for x in (e, f):
        if x.error is not None:
            raise Bad('a valid run without %r fails with %s: %s' % (omit, type(x.error).__name__, x.error))
    if repr(e.result) != repr(f.result) or not np.array_equal(e.result.pgrid, f.result.pgrid):
        raise Bad('leaving out %r does not mean the documented defaults' % (omit,))

    def lines(t):
        return [x for x in t.tap.lines() if 'rchive' not in x]
    if lines(e) != lines(f):
        raise Bad('leaving out %r: the log differs from that of the documented defaults: %r' % (omit, [p for p in zip(lines(e), lines(f)) if p[0] != p[1]][:3]))


def main(ctx):
    runs.warm()
    inv = invalid()
    cases = [(m, (c,), 1) for c in inv for m in (1, 5)]
    cases += [(m, c, 1) for c in invalid_multi() for m in (1, 5)]
    cases += [(1 + 4 * (i % 2), c, 1) for i, c in enumerate(invalid_long())]
    cases += [(1, (c,), 2) for c in inv if c[0] not in ('stochastic_wells', 'target')]
    ctx.run('refused', refused, cases)
    other = [(1 + 11 * (i % 2), b + (c,), 1) for b in BASES for i, c in enumerate(inv) if not (c[0] == 'target' and isinstance(c[1], int) and 0 <= c[1] < len(dict(b).get('stochastic_wells', [0])))]
    other += [(1 + 2 * (i % 2), b + c, 1) for b in BASES for i, c in enumerate(invalid_multi()) if not ({n for n, _ in c} & {'observations', 'buffer'} and {n for n, _ in b} & {'observations', 'stochastic_wells', 'buffer'})]
    other += [(60, (c,), 1) for c in inv] + [(60, BASES[3] + c, 1) for c in invalid_multi() if not ({n for n, _ in c} & {'observations', 'buffer', 'stochastic_wells', 'target'})] + [(60, c, 1) for c in invalid_multi() + invalid_long()]
    ctx.run('refused amid other settings', refused, other)
    pairs = [(2 if i % 2 else 1, p, 1) for i, p in enumerate(itertools.combinations(inv, 2)) if p[0][0] != p[1][0]]
    if not ctx.thorough:
        keep = {}
        for c in inv:
            keep.setdefault(c[0], []).append(c)
        few = {c[0] + repr(c[1]) for v in keep.values() for c in (v[::3] + v[-1:])}
        pairs = [p for p in pairs if all(c[0] + repr(c[1]) in few for c in p[1])]
    ctx.run('refused pairs', refused, pairs)
    val = valid()
    mixed = [(1, (a, b), 1) for a in val for b in inv if a[0] != b[0] and {a[0], b[0]} != {'stochastic_wells', 'target'}
             and not (a[0] in ('buffer', 'observations') and b[0] in ('buffer', 'observations'))]
    if not ctx.thorough:
        mixed = mixed[::7]
    ctx.run('refused although others are at their limits', refused, mixed)
    ok = [(m, (c,), ()) for c in val for m in (1, 2)] + [(m, (), ()) for m in (1, 2, 3, 5, 12)]
    ok += [(m, (('stochastic_wells', [WELL, SECOND]), ('target', t)), ()) for m in (1, 2) for t in (0, 1)]
    ok += [(m, (('duration', v), ('stochastic_wells', [WELL[:3] + (-450.0,)])), ()) for m in (1, 2) for v in (-3, -2.5)]
    if ctx.thorough:
        few = {}
        for c in val:
            few.setdefault(c[0], []).append(c)
        lim = [c for v in few.values() for c in (v[0], v[-1], v[len(v) // 2])]
        for a, b in itertools.combinations(lim, 2):
            if a[0] != b[0] and not {a[0], b[0]} & {'buffer', 'observations'} and not ({a[0], b[0]} == {'umbra', 'spacing'}):
                ok.append((2, (a, b), ()))
    ok += [(m, c, ()) for m in (1, 2) for c in FAR]
    wide = [(1, (('umbra', 26), ('spacing', 0.25), ('npaths', 1), ('duration', 0.01)), ())]       # more than a hundred spacings; drawing so many nodes takes its time
    if ctx.thorough:
        wide += [(2, (('umbra', 150), ('spacing', 1), ('npaths', 1)), ())]
    ctx.run('completed', completed, wide + ok, limit=300, chunk=3)
    subsets = [s for k in range(1, 8) for s in itertools.combinations(OPTIONAL, k)]
    subsets = subsets if ctx.thorough else [s for s in subsets if len(s) in (1, 7)]
    ctx.run('defaults', defaults, [(m, s) for s in subsets for m in ((1, 2) if ctx.thorough or len(s) == 7 else (2,))])
    ctx.bounds = dict(invalid=len(inv), pairs=len(pairs), mixed=len(mixed), valid=len(ok), omitted_sets=len(subsets))
