"""C12: the deterministic capture zone of every combination of distributions, wells, regimes and settings, against reference traces through the mean problem."""
import itertools

import numpy as np

from mc import problems as P
from mc import rng, runs
from mc.core import Bad
from oneka.deterministic import create_deterministic_capturezone

ID = 'C12'
LEVEL = 'exploration'
RULE = ('full product of kinds of distributions (scalar, pair, triple, list; all with the same mean or with different ones) for every parameter and discharge x '
        'well sets x regimes x settings, run under several answers of the random source; each node is compared with a reference integration of the mean problem; '
        'an outcome is a marked set')
ASSUMPTIONS = ['nodes within 0.15 m of the umbra are not judged', 'reference: QR fit, Runge-Kutta integration with steps of 0.25 m']

KINDS = ('scalar', 'pair', 'triple', 'list', 'skewed')


def dist(kind, m, spread):
    """Distributions of (different) means about m; for the triples the mean is neither the mode nor the middle."""
    return {'scalar': m, 'pair': (m - spread, m + 0.5 * spread), 'triple': (m - spread, m - 0.75 * spread, m + 0.5 * spread), 'list': [m, m + spread],
            'skewed': [m - 0.5 * spread, m + spread, m + spread], 'wide': (m - 0.95 * abs(m), m + 2.0 * abs(m)), 'wider': [m - 0.97 * abs(m), m - 0.5 * abs(m), m + 3.0 * abs(m)]}[kind]


def times(d, s):
    return type(d)(v * s for v in d) if isinstance(d, (tuple, list)) else d * s


class Hostile(rng.Env):
    """A random source whose answers are as far from any mean as they can be."""

    def __init__(self, u, z):
        super().__init__()
        self.u, self.z = u, z

    def quantile(self, kind, params):
        return self.u

    def gauss(self, n):
        return np.full(n, self.z)


def run(p, u=0.97, z=2.5):
    with rng.active(Hostile(u, z)):
        return create_deterministic_capturezone(*P.args_deterministic(p))


def build(case):
    ws, regime, kinds, over = case
    over = dict(over)
    target, rate = over.pop('target', None), over.pop('rate', 1)
    p = P.problem(ws, regime, **over)
    if target is not None:
        p['target'] = target
    kc, kp, kt, kw = kinds
    p['c_dist'] = dist(kc, p['c_dist'], 4.0)
    p['p_dist'] = dist(kp, p['p_dist'], 0.06)
    p['t_dist'] = dist(kt, p['t_dist'], 4.0)
    ws = []
    for i, w in enumerate(p['wells']):
        q = dist(kw[i % len(kw)], w[3], 90.0)
        ws.append((w[0], w[1], w[2], q if rate == 1 else times(q, rate)))
    p['wells'] = ws
    if rate != 1:
        p['c_dist'], p['duration'] = times(p['c_dist'], rate), p['duration'] / rate
    return p


def zone(case, st):
    p = build(case)
    pf = run(p)
    pr, paths = P.solve(p)
    P.compare(pf, [paths], p['umbra'], p['spacing'], 1.0, st=st)
    w = p['wells'][p['target']]
    m, phase = P.marks(pf, w[0], w[1])
    if not m:
        raise Bad('an empty capture zone')
    st.outcome(sorted(m))
    if case[-1] and dict(case[-1]).get('ox'):
        return
    # independent of the random source and of what ran before
    again = run(p, 0.03, -2.5)
    if (again.xmin, again.ymin) != (pf.xmin, pf.ymin) or not np.array_equal(np.asarray(again.pgrid), np.asarray(pf.pgrid)):
        raise Bad('the deterministic capture zone depends on the random source or on earlier runs')
    if case[1] == 'confined':
        other = run(dict(p, confined=not p['confined']))
        if pr.confined:
            P.compare(other, [paths], p['umbra'], p['spacing'], 1.0, st=st, what='confined=%r: ' % (not p['confined']))


def entry(case, st):
    ws, regime, kinds, over, buffer, off = case
    p = build((ws, regime, kinds, over))
    w = p['wells'][p['target']]
    # within the buffer of the target: an outlier; elsewhere: duplicates
    o = p['obs'][5]
    extra = [(w[0] + 0.6 * buffer, w[1] - 0.5 * buffer, p['base'] + 3.0, 0.01), (o[0] + 0.3, o[1] - 0.4, o[2] + off, o[3])]
    pf, active = runs.through(p, 1, buffer, extra, lambda: Hostile(0.97, 2.5))
    pr, paths = P.solve(dict(p, obs=active))
    P.compare(pf, [paths], p['umbra'], p['spacing'], 1.0, st=st, what='run through the entry point: ')
    m, phase = P.marks(pf, w[0], w[1])
    st.outcome(sorted(m))


SETTINGS = [dict(), dict(npaths=1), dict(npaths=5), dict(duration=25.0), dict(duration=90), dict(base=-20.0), dict(spacing=3, umbra=4.0), dict(spacing=8.0, umbra=5), dict(tol=0.3), dict(maxstep=7.5),
            dict(k=20.0), dict(n=0.4), dict(thick=26.0), dict(ox=302338.25, oy=5162551.75)]


def main(ctx):
    sets = ('single', 'pair', 'three')
    cases = []
    kinds4 = list(itertools.product(KINDS[:3], repeat=3))
    n = 0
    for ws in sets:
        for regime in ('confined', 'unconfined', 'near'):
            for k in kinds4:
                kws = (('scalar',), ('pair', 'triple'), ('triple', 'scalar', 'list'), ('list', 'skewed'))
                for i, kw in enumerate(kws if ctx.thorough else (kws[n % 4],)):
                    cases.append((ws, regime, k + (kw,), ()))
                n += 1
            cases.append((ws, regime, ('list', 'skewed', 'list', ('skewed',)), ()))
            cases.append((ws, regime, ('skewed', 'list', 'skewed', ('list', 'pair')), ()))
    for ws in sets:
        for regime in ('confined', 'unconfined', 'near'):
            for a in ('wide', 'wider'):
                for k in ((a, 'scalar', 'scalar'), ('scalar', a, 'scalar'), ('scalar', 'scalar', a), (a, a, a)):
                    cases.append((ws, regime, k + (('scalar',),), ()))
                cases.append((ws, regime, ('scalar', 'pair', 'scalar', (a, 'pair')), ()))
    # many wells, wells of large radii; and confined velocities where the aquifer is not confined
    for ws in ('six', 'wide'):
        for regime in ('confined', 'unconfined', 'near'):
            for k in (('scalar', 'scalar', 'scalar', ('scalar',)), ('pair', 'triple', 'scalar', ('triple', 'pair', 'scalar', 'list', 'skewed')), ('scalar', 'pair', 'triple', ('pair', 'wide', 'triple'))):
                for over in (dict(), dict(npaths=9, spacing=3.0, umbra=4), dict(duration=25.0, ox=302338.25, oy=5162551.75)):
                    cases.append((ws, regime, k, tuple(over.items())))
    for ws in ('single', 'three', 'six'):
        for regime in ('unconfined', 'near', 'cone'):
            for k in (('scalar', 'scalar', 'scalar', ('scalar',)), ('pair', 'triple', 'scalar', ('triple', 'pair', 'scalar'))):
                cases.append((ws, regime, k, tuple(dict(dict(k=5.0) if regime == 'cone' else {}, confined=True).items())))
    one = ('pair', 'triple', 'scalar', ('triple', 'pair'))
    for ws in sets:
        for regime in ('confined', 'unconfined'):
            for over in [dict(npaths=1), dict(npaths=3, maxstep=10.0, tol=0.1), dict(npaths=7), dict(duration=15), dict(duration=0.05), dict(spacing=3, umbra=4.0), dict(spacing=8.0, umbra=5), dict(base=-20.0),
                         dict(umbra=2.0, spacing=1.5, npaths=2), dict(ox=302338.25, oy=5162551.75), dict(n=0.9), dict(k=40.0), dict(k=8.0, duration=25.0), dict(thick=26.0, n=0.15), dict(duration=200.0, spacing=10, umbra=11)]:
                cases.append((ws, regime, one, tuple(over.items())))
    for over in [dict(duration=-60.0), dict(duration=-10), dict(duration=-30.0, npaths=6, ox=302338.0)]:
        cases += [('injection', r, k, tuple(over.items())) for r in ('confined', 'unconfined') for k in (('scalar', 'scalar', 'scalar', ('scalar',)), one)]
    exact = ('scalar', 'scalar', 'scalar', ('scalar',))
    for kind in (exact, ('scalar', 'pair', 'triple', ('pair', 'triple')), ('scalar', 'skewed', 'scalar', ('scalar',))):
        for over in [dict(k=1.5, duration=-60.0), dict(k=1.5, duration=-200.0, npaths=3), dict(k=1.2, duration=-120.0, spacing=4.0, umbra=5.0)]:
            cases.append(('injection', 'mound', kind, tuple(over.items())))
        for ws in ('single', 'pair', 'three'):
            for over in [dict(k=4.0, duration=60.0), dict(k=5.0, duration=250.0, spacing=8.0, umbra=9.0)]:
                cases.append((ws, 'cone', kind, tuple(over.items())))
        # confined at every observation, not about the wells
        for ws in ('single', 'pair', 'three'):
            for over in [dict(k=2.2), dict(k=2.6, thick=20)]:
                cases.append((ws, 'drawdown', kind, tuple(dict(over, duration=120.0, spacing=2.0, umbra=2.5, confined=False).items())))
    # long times
    for ws in ('single', 'three'):
        for kind in (exact, one):
            for dur in (900.0, 1100.0, 1461, 3652.5):
                cases.append((ws, 'confined', kind, tuple(dict(duration=dur, n=0.9, maxstep=10.0, tol=0.05, spacing=20.0, umbra=21.0, npaths=3).items())))
    rare = [dict(thick=4.5), dict(npaths=12), dict(maxstep=25.0, duration=8.0), dict(many=20), dict(std=0.004), dict(lists=True), dict(turned=True), dict(turned=True, npaths=1, ox=-5000.0), dict(n=0.5, thick=5.0, lists=True, many=14, npaths=1)]
    for ws in sets:
        for regime in ('confined', 'unconfined', 'thin'):
            for i, over in enumerate(rare):
                for kind in (exact, ('scalar', 'list', 'scalar', ('skewed', 'scalar')), ('list', 'scalar', 'pair', ('pair', 'list'))):
                    over = dict(over)
                    if regime == 'thin':
                        over.pop('maxstep', None)
                        over.update(k=60.0, thick=8.0, duration=8.0)
                    elif regime == 'unconfined':
                        over.pop('thick', None)
                    cases.append((ws, regime, kind, tuple(over.items())))
    # the same zones in other units of time: small and large conductivities and discharges
    for rate in (1e-6, 1e-4, 1e-2):
        for ws in sets:
            for regime in ('confined', 'unconfined', 'near'):
                for kind in (exact, one):
                    cases.append((ws, regime, kind, (('rate', rate),)))
    runs_ = []
    for ws in sets:
        for regime in ('confined', 'unconfined', 'near'):
            for i, over in enumerate(SETTINGS):
                for confined in (regime == 'confined', False)[:1 + (regime == 'confined' and (ctx.thorough or i == 0))]:
                    for kind in ((exact, one) if ctx.thorough or i == 0 else ((exact, one)[i % 2],)):
                        for buffer in (30.0, 12) if ctx.thorough or i == 0 else (30.0,):
                            runs_.append((ws, regime, kind, tuple(dict(over, confined=confined).items()), buffer, 0.4))
    runs_ += [(ws, 'thin', kind, tuple(dict(o, k=60.0, thick=8.0, duration=8.0).items()), 30.0, 0.4) for ws in sets for kind in (exact, one) for o in (dict(), dict(lists=True), dict(many=20), dict(npaths=12))]
    runs_ += [('pair', r, one, (('target', 0),), 25.0, 0.2) for r in ('confined', 'unconfined')]
    runs_ += [('injection', r, one, (('duration', d),), 25.0, 0.2) for r in ('confined', 'unconfined') for d in (-20.0, -50)]
    ctx.bounds = dict(cases=len(cases), runs=len(runs_))
    ctx.run('zones', zone, cases)
    runs.warm()
    ctx.run('through the entry point', entry, runs_)
