"""C14: with nothing uncertain, the stochastic run under every (extreme) answer of the random source equals the deterministic run, node by node."""
import itertools

import numpy as np

from mc import problems as P
from mc import rng
from mc.core import Bad
from oneka.deterministic import create_deterministic_capturezone
from oneka.stochastic import create_stochastic_capturezone

ID = 'C14'
LEVEL = 'exploration'
RULE = ('full product of well sets x regimes x degenerate distribution forms x numbers of realizations x extreme answers of the random source x settings; the two real run modes '
        'are compared node by node (and both with reference traces); an outcome is a marked set')
ASSUMPTIONS = ['nodes within 0.05 m of the umbra may differ where the answers are extreme (observation errors of 1e-7 m)', 'answers: quantiles 0 and 1, Gaussian vectors with entries 0 and +-3']

FORMS = ('scalar', 'pair', 'triple', 'list', 'list3')
ZS = [(0.0,) * 6, (3.0,) * 6, (-3.0,) * 6, (3.0, -3.0) * 3, (-3.0, 3.0, 3.0, -3.0, 3.0, -3.0)]


class Extreme(rng.Env):
    """The i-th request is answered by the i-th entry of a cycle."""

    def __init__(self, us, zs):
        super().__init__()
        self.us, self.zs, self.i, self.j = us, zs, 0, 0

    def quantile(self, kind, params):
        self.i += 1
        return self.us[(self.i - 1) % len(self.us)]

    def gauss(self, n):
        self.j += 1
        return np.resize(np.array(ZS[self.zs[(self.j - 1) % len(self.zs)]], float), n)


def degenerate(form, v):
    return {'scalar': v, 'pair': (v, v), 'triple': (v, v, v), 'list': [v, v], 'list3': [v, v, v]}[form]


def same(case, st):
    ws, regime, forms, n, us, zs, over = case
    p = P.problem(ws, regime, std=1e-7, **dict(over))
    fc, fp, ft, fq = forms
    p['c_dist'], p['p_dist'], p['t_dist'] = degenerate(fc, p['c_dist']), degenerate(fp, p['p_dist']), degenerate(ft, p['t_dist'])
    p['wells'] = [(w[0], w[1], w[2], degenerate(fq if i % 2 == 0 else fc, w[3])) for i, w in enumerate(p['wells'])]
    with rng.active(Extreme(us, zs)):
        sf = create_stochastic_capturezone(*P.args_stochastic(p, n))
        df = create_deterministic_capturezone(*P.args_deterministic(p))
    paths = P.solve(p)[1]
    P.compare(df, [paths], p['umbra'], p['spacing'], 1.0, st=st, what='deterministic: ')
    P.compare(sf, [paths] * n, p['umbra'], p['spacing'], 1.0, st=st, what='stochastic: ')
    w = p['wells'][p['target']]
    a, fa = P.marks(sf, w[0], w[1])
    b, fb = P.marks(df, w[0], w[1])
    if abs(fa[0] - fb[0]) > 1e-6 or abs(fa[1] - fb[1]) > 1e-6:
        raise Bad('the two grids are on different lattices: offsets %r and %r' % (fa, fb))
    if float(sf.total_weight) != n or float(df.total_weight) != 1:
        raise Bad('total weights %r and %r' % (sf.total_weight, df.total_weight))
    band = 0.05 if any(zs) else 1e-4
    for k in set(a) | set(b):
        if a.get(k, 0.0) != n * b.get(k, 0.0):
            x, y = w[0] + (k[0] + fa[0]) * p['spacing'], w[1] + (k[1] + fa[1]) * p['spacing']
            d = float(P.distance_on(paths, np.array([[x]]), np.array([[y]]))[0, 0])
            if abs(d - p['umbra']) > band:
                raise Bad('node (%r, %r): probability %r, deterministic %r (distance %.4f, umbra %r)' % (x, y, a.get(k, 0.0) / n, b.get(k, 0.0), d, p['umbra']))
            st.skipped += 1
    st.outcome(sorted(a))


def main(ctx):
    cases = []
    i = 0
    settings = [dict(duration=30.0, npaths=3), dict(duration=20.0, npaths=4, spacing=3.0, umbra=4.0), dict(duration=30.0, npaths=2, ox=302338.25, oy=5162551.75), dict(duration=30.0, npaths=3, base=-12.0)]
    for ws, regime in itertools.product(('single', 'pair', 'three'), ('confined', 'unconfined', 'near')):
        for f in FORMS:
            for n in ((1, 2, 3) if not ctx.thorough else (1, 2, 3, 4, 7)):
                forms = (f, FORMS[(FORMS.index(f) + 1) % 5], FORMS[(FORMS.index(f) + 3) % 5], f)
                answers = [((0.0, 1.0), (0,)), ((1.0, 0.0), (1, 2, 3, 4)), ((0.5,), (4, 1)), ((0.0,), (2, 3, 1)), ((1.0,), (3, 4, 2))]
                for us, zs in answers if ctx.thorough else (answers[0], answers[1 + i % 4]):
                    cases.append((ws, regime, forms, n, us, zs, tuple((settings if ctx.thorough else settings[:2])[i % (4 if ctx.thorough else 2)].items())))
                    i += 1
        for s in settings[2:]:
            cases.append((ws, regime, ('pair', 'triple', 'scalar', 'triple'), 2, (0.0, 1.0), (1, 3), tuple(s.items())))
    for regime in ('confined', 'unconfined'):
        for n in (1, 2, 3):
            cases.append(('injection', regime, ('triple', 'scalar', 'pair', 'triple'), n, (1.0,), (0, 1, 2), (('duration', -25.0), ('npaths', 3))))
    for ws, regime in itertools.product(('single', 'pair'), ('confined', 'unconfined')):      # far tracing: any tampering with the law of the coefficients shows
        for i, zs in enumerate(((1, 2), (3, 4))):
            cases.append((ws, regime, ('scalar', 'pair', 'triple', 'scalar'), 2, (0.5,), zs, (('duration', 500.0), ('npaths', 3), ('spacing', 15.0), ('umbra', 10.0), ('maxstep', 10.0))))
    for n in ctx.pick((12, 60), (12, 25, 60, 120)):
        for ws, regime in (('single', 'confined'), ('pair', 'unconfined')):
            cases.append((ws, regime, ('pair', 'triple', 'scalar', 'list'), n, (0.0, 1.0), (0, 1, 2, 3, 4), (('duration', 5.0), ('npaths', 2))))
    for n in (1, 2):
        for ws, regime in itertools.product(('single', 'pair', 'three'), ('confined', 'unconfined', 'thin')):
            for over in (dict(), dict(lists=True), dict(many=20), dict(npaths=12), dict(maxstep=25.0), dict(thick=4.5), dict(turned=True), dict(npaths=1, tol=1.0), dict(n=0.45, spacing=8.0, umbra=6.5), dict(turned=True, lists=True, ox=-64.0, oy=5.1e6)):
                over = dict(dict(duration=6.0, npaths=2), **over)
                if regime != 'confined':
                    over.pop('thick', None)
                if regime == 'thin':
                    over.update(k=60.0, thick=8.0)
                cases.append((ws, regime, ('scalar', 'scalar', 'pair', 'triple'), n, (0.5,), (1, 4), tuple(over.items())))
    if ctx.thorough:
        for forms in itertools.product(FORMS, repeat=4):
            cases.append(('pair', 'near', forms, 2, (0.0, 1.0), (1, 4), (('duration', 20.0), ('npaths', 2))))
    ctx.bounds = dict(cases=len(cases))
    ctx.run('degenerate', same, cases)
