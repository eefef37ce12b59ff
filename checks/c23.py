"""C23: all ordered pairs of settings (duration, umbra, number of paths) on the real runs: the zone of the larger one contains that of the smaller; the grid's rim is never visited."""
import itertools

import numpy as np

from mc import problems as P
from mc import rng
from mc.core import Bad
from oneka.deterministic import create_deterministic_capturezone
from oneka.stochastic import create_stochastic_capturezone

ID = 'C23'
LEVEL = 'exploration'
RULE = ('all comparable pairs (one at least as large in duration and umbra, and a multiple in the number of paths) over the alphabet of settings, on every problem of the family, '
        'deterministic and stochastic; an outcome is a marked set')
ASSUMPTIONS = ['a node captured by the smaller setting only because it lies within 0.15 m of its umbra is not judged']


_runs = {}


def problem(which, duration, umbra, npaths):
    ws, regime, over = which
    over = dict(over)
    sgn = over.pop('sign', 1)
    return P.problem(ws, regime, **dict(over, duration=sgn * duration, umbra=umbra, npaths=npaths))


def run(which, n, s):
    key = (repr(which), n, s)
    if key not in _runs:
        p = problem(which, *s)
        if n == 0:
            pf = create_deterministic_capturezone(*P.args_deterministic(p))
        else:
            p['p_dist'] = (0.15, 0.25)
            with rng.active(Fixed()):
                pf = create_stochastic_capturezone(*P.args_stochastic(p, n))
        g = P.check_frame(pf, p['spacing'])
        if g[0].any() or g[-1].any() or g[:, 0].any() or g[:, -1].any():
            raise Bad('the outermost row or column of the grid (%r to %r, %r to %r) is visited' % (pf.xmin, pf.xmax, pf.ymin, pf.ymax))
        w = p['wells'][p['target']]
        _runs[key] = P.marks(pf, w[0], w[1])[0]
    return _runs[key]


class Fixed(rng.Env):
    """Porosities of successive realizations; expected coefficients."""

    def __init__(self):
        super().__init__()
        self.i = 0

    def quantile(self, kind, params):
        self.i += 1
        return (0.3, 0.9, 0.1)[(self.i - 1) % 3]


def grows(case, st):
    which, n, small, large = case
    a, b = run(which, n, small), run(which, n, large)
    st.outcome(sorted(b))
    p = problem(which, *small)
    w = p['wells'][p['target']]
    for k, v in a.items():
        if b.get(k, 0.0) < v:
            x, y = w[0] + k[0] * p['spacing'], w[1] + k[1] * p['spacing']
            refs = [P.solve(p)[1]] if n == 0 else [P.solve(p, n=0.15 + 0.1 * u)[1] for u in (0.3, 0.9, 0.1)[:n]]
            ds = [float(P.distance_on(r, np.array([[x]]), np.array([[y]]))[0, 0]) for r in refs]
            if min(abs(d - p['umbra']) for d in ds) > P.BAND:
                raise Bad('the node (%r, %r), captured with weight %r (distances %r), is lost (%r) with duration %r, umbra %r, %r paths' % ((x, y, v, [round(d, 3) for d in ds], b.get(k, 0.0)) + large))
            st.skipped += 1
    st.notes['nodes compared'] += len(a)


def rim(case, st):
    which, n, s = case
    st.outcome(sorted(run(which, n, s)))


def main(ctx):
    whichs = [(ws, r, ()) for ws in ('single', 'three') for r in ('confined', 'unconfined')]
    whichs += [('pair', 'near', ()), ('pair', 'confined', (('ox', 302338.25), ('oy', 5162551.75))), ('injection', 'confined', (('sign', -1),)), ('injection', 'unconfined', (('sign', -1), ('spacing', 3.5))),
               ('pair', 'confined', (('tol', 0.05), ('maxstep', 9.0), ('spacing', 6.5)))]
    D = ctx.pick((4.0, 12.0, 13.0, 40.0), (2.0, 4.0, 8.0, 12.0, 13.0, 25.0, 40.0, 80.0))
    Us = ctx.pick((2.0, 6.5, 13.0), (1.0, 2.0, 4.9, 5.0, 6.5, 10.0, 13.0, 21.0))
    N = ctx.pick((1, 2, 6), (1, 2, 3, 4, 6, 12))
    cases = []
    for w in whichs:
        for n in (0, 2) if w[0] == 'pair' else (0,):
            S = list(itertools.product(D, Us, N)) if n == 0 else list(itertools.product(D[:4], Us[:3], N[:2]))
            for a, b in itertools.product(S, S):
                if a != b and a[0] <= b[0] and a[1] <= b[1] and b[2] % a[2] == 0:
                    if ctx.thorough or sum(u != v for u, v in zip(a, b)) == 1 or (S.index(a) + S.index(b)) % 3 == 0:
                        cases.append((w, n, a, b))
    for w in whichs[:ctx.pick(4, 9)]:
        for a, b in ((8, 16), (8, 24), (12, 24), (13, 26), (16, 32), (5, 25), (10, 30)):
            cases.append((w, 0, (12.0, 3.0, a), (12.0, 3.0, b)))
    for w in [('single', 'confined', (('spacing', 1.0), ('maxstep', 12.0)))] + [('three', 'unconfined', (('spacing', 1.0), ('maxstep', 12.0)))] * ctx.thorough:
        for a, b in ((40, 80), (60, 120), (75, 150), (64, 128), (90, 180), (100, 200), (100, 300), (120, 240), (180, 360), (200, 400)):
            if ctx.thorough or a in (60, 64, 75, 100, 120) and b < 2.5 * a:
                cases.append((w, 0, (11.0, 0.4, a), (11.0, 0.4, b)))
    for w in whichs[:ctx.pick(1, 4)]:
        for a, b in itertools.combinations((13.0, 30.0, 55.0, 80.0), 2):
            cases.append((w, 0, (4.0, a, 2), (4.0, b, 2)))
    long = (('spacing', 20.0), ('n', 0.9), ('maxstep', 10.0), ('tol', 0.05))
    for w in [('single', 'confined', long), ('three', 'confined', long), ('injection', 'confined', long + (('sign', -1),))]:
        for a, b in itertools.combinations((300.0, 365.25, 900.0, 1100.0, 1461.0, 2000.0, 3652.5), 2):
            if ctx.thorough or b > 2 * a or w[0] == 'single':
                cases.append((w, 0, (a, 21.0, 3), (b, 21.0, 3)))
    rims = []
    for ws, r in (('single', 'confined'), ('three', 'near')):
        for sp, um, off in itertools.product((1.7, 5.0, 12.5), (0.3, 1.7, 5.0, 12.5, 30.0), (0.0, 0.3, 302338.25)):
            rims.append(((ws, r, (('spacing', sp), ('ox', off), ('oy', -off))), 0, (6.0, um, 3)))
    ctx.bounds = dict(pairs=len(cases), durations=D, umbrae=Us, paths=N, rims=len(rims))
    ctx.run('pairs', grows, cases, chunk=max(1, len(cases) // (24 if not ctx.thorough else 40)))
    ctx.run('rims', rim, rims)
