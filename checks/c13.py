"""C13: every answer sequence of the random source (bounded deviations) drives a real stochastic run, in lock-step with reference realizations."""
import itertools

import numpy as np

from mc import problems as P
from mc import ref, rng, runs
from mc.core import Bad
from oneka.stochastic import create_stochastic_capturezone

ID = 'C13'
LEVEL = 'model_checking'
RULE = ('all answer sequences of the random source with at most 2 (thorough: 3) departures from the median over the variables (every distribution, and the Gaussian vector, '
        'of every realization), and all sequences of whole-realization levels; the real run is compared with one reference realization per answer set: the law the coefficients '
        'are drawn from, and the number of realizations capturing each node; a state is a vector of answers, a transition a realization')
ASSUMPTIONS = ['the i-th draw from a distribution belongs to the i-th realization (of several wells with one distribution, to them in turn)', 'answers are the quantiles 0.1, 0.5, 0.9 and three Gaussian vectors',
               'nodes within 0.15 m of the umbra are not judged']

QS = (0.5, 0.1, 0.9)
ZS = ((0, 0, 0, 0, 0, 0), (1.0, -0.5, 0.5, 2.0, -1.5, 0.5), (-0.5, 1.0, 1.0, -1.5, 2.0, -1.0), (-1.0, 2.0, 2.0, -3.0, 4.0, -2.0))


def draw(d, u):
    if len(d) == 2:
        return rng.uni_quantile(d[0], d[1], u)
    return rng.tri_quantile(d[0], d[1], d[2], u)


class Script(rng.Env):
    """Answers by distribution and number of the draw."""

    def __init__(self, groups, answers, n, order=0):
        super().__init__()
        self.groups, self.answers, self.n, self.order = groups, answers, n, order
        self.count = {}
        self.unknown = False

    def quantile(self, kind, params):
        group = self.groups.get(tuple(params))
        if group is None and params and params[0] == params[-1]:
            return 0.5
        if group is None:
            self.unknown = True
            return 0.5
        k = self.count.get(group, 0)
        self.count[group] = k + 1
        m = len(group)
        i, j = [(k // m, k % m), (k // m, m - 1 - k % m), (k % self.n, k // self.n % m)][self.order]
        return QS[self.answers.get((i, group[j]), 0)]

    def gauss(self, n):
        i = self.count.get('z', 0)
        self.count['z'] = i + 1
        if n != 6:
            self.unknown = True
            return np.zeros(n)
        return np.array(ZS[self.answers.get((i, 'z'), 0)], float)


VARIANTS = {
    'a': dict(wells='pair', regime='confined', c=(8.0, 16.0), p=(0.12, 0.16, 0.32), t=(17.0, 24.0), q=[(200.0, 420.0), (300.0, 350.0, 620.0)], std=0.03),
    'b': dict(wells='pair', regime='unconfined', c=(9.0, 10.0, 17.0), p=(0.1, 0.3), t=20.0, q=[250.0, (280.0, 560.0)], std=0.02),
    'c': dict(wells='three', regime='near', c=[10.0, 15.0], p=0.2, t=[17.0, 21.5, 23.0], q=[[350.0, 600.0], (100.0, 300.0), -150.0], std=0.02),
    'd': dict(wells='single', regime='confined', c=(8.0, 9.0, 16.0), p=(0.12, 0.32), t=(15.0, 20.0, 26.0), q=[(250.0, 650.0)], std=0.05),
    'e': dict(wells='injection', regime='confined', c=(9.0, 15.0), p=(0.14, 0.26), t=(17.0, 25.0), q=[(-620.0, -400.0, -300.0), (100.0, 190.0)], std=0.03),
    'f': dict(wells='pair', regime='confined', c=(8.0, 16.0), p=0.2, t=20.0, q=[(240.0, 560.0), (240.0, 560.0)], std=0.03),
    'h': dict(wells='single', regime='confined', c=(9.0, 15.0), p=0.2, t=20.0, q=[(350.0, 550.0)], std=0.9),
    'j': dict(wells='single', regime='confined', c=(9.0, 15.0), p=0.2, t=20.0, q=[(350.0, 550.0)], std=2.0),
    'i': dict(wells='pair', regime='unconfined', c=(9.0, 15.0), p=(0.12, 0.32), t=20.0, q=[200.0, (250.0, 350.0)], std=0.3),
    'dry': dict(wells='single', regime='unconfined', c=(4.0, 10.0, 13.0), p=0.2, t=(16.0, 24.0), q=[(250.0, 400.0, 1500.0)], std=0.02),
    'far': dict(wells='single', regime='confined', c=(2.0, 60.0), p=(0.02, 0.2, 0.9), t=(5.0, 6.0, 30.0), q=[(-50.0, 650.0)], std=0.02),
    'six': dict(wells='six', regime='confined', c=(9.0, 15.0), p=0.2, t=(18.0, 23.0), q=[(20.0, 70.0), -35.0, (90.0, 130.0, 190.0), 90.0, (300.0, 560.0), (40.0, 95.0), [20.0, 100.0]], std=0.02),
    'shortcut': dict(wells='wide', regime='near', c=(9.0, 15.0), p=(0.15, 0.3), t=(19.0, 24.0), q=[(350.0, 560.0), 80.0], std=0.02, confined=True),
    'thin': dict(wells='pair', regime='thin', c=(50.0, 70.0), p=(0.2, 0.35, 0.4), t=(6.0, 9.0), q=[150.0, (250.0, 350.0)], std=0.02, over=dict(duration=8.0, lists=True)),
    'slim': dict(wells='single', regime='confined', c=(35.0, 50.0), p=(0.35, 0.5), t=(4.0, 6.0), q=[[150.0, 350.0]], std=0.004, over=dict(duration=8.0, npaths=12, many=16)),
    'g': dict(wells='three', regime='unconfined', c=12.0, p=(0.15, 0.25), t=(18.0, 20.0, 26.0), q=[(240.0, 300.0, 560.0), [-150.0, 90.0], (240.0, 300.0, 560.0)], std=0.02),
}


# observations so vague that a draw of the coefficients may leave the aquifer dry about the well
VAGUE = {'vague': dict(wells='single', regime='unconfined', c=(9.0, 15.0), p=0.2, t=20.0, q=[(350.0, 550.0)], std=6.0),
         'vaguer': dict(wells='pair', regime='unconfined', c=(9.0, 15.0), p=0.2, t=20.0, q=[(150.0, 250.0), (300.0, 500.0)], std=9.0)}


def problem(v, over):
    d = VARIANTS.get(v) or VAGUE[v]
    over = dict(dict(duration=-30.0 if d['wells'] == 'injection' else 30.0, npaths=3), **dict(d.get('over', {}), **dict(over)))
    if 'confined' in d:
        over.setdefault('confined', d['confined'])
    p = P.problem(d['wells'], d['regime'], std=d['std'], **over)
    p['c_dist'], p['p_dist'], p['t_dist'] = d['c'], d['p'], d['t']
    p['wells'] = [(w[0], w[1], w[2], q) for w, q in zip(p['wells'], d['q'])]
    return p


def dists(p):
    out = {}
    for name, d in [('c', p['c_dist']), ('p', p['p_dist']), ('t', p['t_dist'])] + [('q%d' % i, w[3]) for i, w in enumerate(p['wells'])]:
        if isinstance(d, (tuple, list)):
            out[name] = tuple(d)
    return out


def variables(v, n):
    return [(i, k) for i in range(n) for k in list(dists(problem(v, ()))) + ['z']]


def groups_of(ds):
    g = {}
    for k, d in ds.items():
        g.setdefault(d, []).append(k)
    return {d: tuple(ks) for d, ks in g.items()}


def realizations(case, st):
    v, over, n, answers = case[:4]
    p = problem(v, over)
    ds = dists(p)
    groups = groups_of(ds)
    first = None
    for order in range(3 if any(len(g) > 1 for g in groups.values()) else 1):      # wells of equal distributions: whose draw comes first is not ours to say
        try:
            return attempt(p, ds, groups, order, v, n, dict(answers), st, case[4] if len(case) > 4 else None)
        except Bad as e:
            first = first or e
    raise first


_counts = {}


def rejected(p, ds, groups, order, n, env, buffer):
    """The numbers of requests may not depend on the answers: that would be rejection sampling, from another law."""
    key = (repr(p), n, order)
    if buffer is not None:
        return False
    if key not in _counts:
        plain = Script(groups, {}, n, order)
        with rng.active(plain):
            create_stochastic_capturezone(*P.args_stochastic(p, n))
        _counts[key] = count(plain)
    return _counts[key] != count(env)


def count(env):
    return sorted((r[0], str(r[1]) if r[0] not in ('mvn', 'gauss') else '') for r in env.requests)


def attempt(p, ds, groups, order, v, n, answers, st, buffer=None):
    env = Script(groups, answers, n, order)
    if buffer is None:
        with rng.active(env):
            pf = create_stochastic_capturezone(*P.args_stochastic(p, n))
    else:
        w, o = p['wells'][p['target']], p['obs'][5]
        extra = [(w[0] + 0.6 * buffer, w[1] - 0.5 * buffer, p['base'] + 3.0, 0.01), (o[0] + 0.3, o[1] - 0.4, o[2] + 0.1, o[3])]
        sources = [env, Script(groups, answers, n, order)]
        pf, active = runs.through(p, n, buffer, extra, lambda: sources.pop(0))
        p = dict(p, obs=active)
    for d, g in groups.items():
        if not env.unknown and env.count.get(g, 0) < n * len(g):
            raise Bad('%d realizations, %d parameters, but only %d draws of the distribution %r' % (n, len(g), env.count.get(g, 0), d))
    if env.repeats:
        raise Bad('the random source is re-seeded alike: a later realization repeats the draws of an earlier one')
    mvn = [r for r in env.requests if r[0] == 'mvn']
    gauss = [r for r in env.requests if r[0] == 'gauss']
    if mvn and len(mvn) < n:
        raise Bad('%d realizations, but only %d draws of the coefficients' % (n, len(mvn)))
    if answers and rejected(p, ds, groups, order, n, env, buffer):
        raise Bad('the number of draws depends on the values drawn: what is drawn is not what is used, or not by the stated laws')
    known = not env.unknown and all(env.count.get(g, 0) == n * len(g) for g in groups.values()) and len(mvn) in (0, n)
    if (answers and not known) or (not mvn and any(k == 'z' for _, k in answers)):
        st.notes['answers not attributable to realizations'] += 1      # other primitives than those the seam can attribute: only the default answers are judged
        return
    if len(mvn) != n:
        mvn = []
    if not mvn and not gauss:
        raise Bad('the coefficients are never drawn')
    paths, none = [], []
    for i in range(n):
        val = {k: (draw(ds[k], QS[answers.get((i, k), 0)]) if k in ds else None) for k in ('c', 'p', 't')}
        kk = val['c'] if 'c' in ds else p['c_dist']
        nn = val['p'] if 'p' in ds else p['p_dist']
        tt = val['t'] if 't' in ds else p['t_dist']
        q = [draw(ds['q%d' % j], QS[answers.get((i, 'q%d' % j), 0)]) if 'q%d' % j in ds else w[3] for j, w in enumerate(p['wells'])]
        wells = [(w[0], w[1], w[2], z) for w, z in zip(p['wells'], q)]
        t = p['wells'][p['target']]
        mean, cov = ref.fit(p['obs'], t[0], t[1], p['base'], kk, tt, wells)
        s = np.sqrt(np.diag(cov))
        coef = mean
        if mvn:
            m, c = mvn[i][1]
            if np.abs((m - mean) / s).max() > 1e-5:
                raise Bad('realization %d draws its coefficients about %r instead of the fitted %r' % (i, m.tolist(), mean.tolist()))
            if np.abs((c - cov) / np.outer(s, s)).max() > 1e-5:
                raise Bad('realization %d draws its coefficients with covariance %r instead of %r' % (i, c.tolist(), cov.tolist()))
            coef = mvn[i][2]
        starts = [(t[0] + (t[2] + 1) * np.cos(a), t[1] + (t[2] + 1) * np.sin(a)) for a in 2 * np.pi * np.arange(p['npaths']) / p['npaths']]
        if not p['confined'] and all(ref.potential(coef, t[0], t[1], wells, x, y) < -1e-6 for x, y in starts):
            none.append([(np.array([x]), np.array([y])) for x, y in starts])      # no trace gets anywhere: the realization counts, and marks nothing (farther off)
            st.notes['dry realizations'] += 1
            continue
        try:
            paths.append(P.solve(p, kk, nn, tt, q, coef)[1])
        except ArithmeticError:
            st.notes['runs not judged, a reference trace runs dry or into a well'] += 1
            if abs(float(pf.total_weight) - n) > 1e-9:
                raise Bad('total weight %r of %d realizations' % (float(pf.total_weight), n))
            return
        st.transitions += 1
    P.compare(pf, paths, p['umbra'], p['spacing'], 1.0, st=st, maybe=none)
    st.states += 1
    st.traces += 1
    g = np.asarray(pf.pgrid)
    st.outcome((sorted((int(a), int(b), float(g[a, b])) for a, b in np.argwhere(g)), v))


def deviations(vars_, most):
    yield ()
    for k in range(1, most + 1):
        for vs in itertools.combinations(vars_, k):
            for a in itertools.product((1, 2), repeat=k):
                yield tuple(zip(vs, a))


def main(ctx):
    cases = []
    for v in VARIANTS:
        n2 = variables(v, 2)
        for d in deviations(n2, ctx.pick(2 if v == 'd' else 1, 3 if v in 'bd' else 2)):
            cases.append((v, (), 2, d))
        for lv in itertools.product((0, 1, 2), repeat=3):
            if v in 'ad' or ctx.thorough:
                cases.append((v, (), 3, tuple((k, lv[k[0]]) for k in variables(v, 3) if lv[k[0]])))
        for d in deviations(variables(v, 1), 1):
            cases.append((v, (), 1, d))
        if ctx.thorough:
            for d in deviations(variables(v, 3), 2):
                cases.append((v, (), 3, d))
    for v in ('a', 'b'):
        for over in [dict(npaths=1), dict(npaths=5, duration=45.0), dict(spacing=3.0, umbra=4), dict(ox=302338.25, oy=5162551.75), dict(confined=False), dict(tol=0.05, maxstep=6.0), dict(base=-15), dict(maxstep=25.0, duration=6.0), dict(lists=True), dict(many=20), dict(turned=True)]:
            if over.get('confined') is False and v != 'a':
                continue
            for d in ((), tuple((k, 1 + k[0] % 2) for k in variables(v, 2)), tuple((k, 1) for k in variables(v, 2) if k[0] == 1)):
                cases.append((v, tuple(over.items()), 2, d))
    entry = []
    for v in VARIANTS:
        for n in (2, 3, 4):
            for d in ((), tuple((k, 1 + (k[0] + j) % 2) for j, k in enumerate(variables(v, n)))):
                entry.append((v, (), n, d, 30.0))
    for v in VARIANTS if ctx.thorough else ('a', 'b', 'd'):
        for over in [dict(npaths=1), dict(npaths=5), dict(duration=18.0), dict(spacing=3.0, umbra=4), dict(spacing=4.5), dict(umbra=9.5), dict(tol=0.3), dict(maxstep=7.5), dict(base=-15), dict(ox=302338.25, oy=5162551.75)]:
            if v == 'h' and 'maxstep' in over:
                continue                                # strongly curved traces: their chords would be judged, not the traces
            if v == 'e' and 'duration' in over:
                over = dict(duration=-18.0)
            entry.append((v, tuple(over.items()), 2, tuple((k, 1 + k[0] % 2) for k in variables(v, 2)), 30.0))
    for v in 'adj':
        far = (('duration', 250.0 if v == 'j' else 900.0), ('npaths', 3), ('spacing', 15.0), ('umbra', 10.0), ('maxstep', 2.0), ('tol', 0.001))
        for z in (1, 2):
            cases.append((v, far, 1, (((0, 'z'), z),)))
            cases.append((v, far, 2, (((0, 'z'), z), ((1, 'z'), 3 - z), ((1, 'c'), 1), ((0, 'q0'), z))))
    for v in VAGUE:
        for rest in ((), (((0, 'c'), 1),), (((0, 'c'), 2), ((0, 'q0'), 1))):
            cases.append((v, (), 1, rest + (((0, 'z'), 3),)))
            cases.append((v, (), 3, rest + (((0, 'z'), 3), ((1, 'z'), 3), ((2, 'z'), 3), ((1, 'c'), 2))))
    for d in deviations(variables('dry', 1), 2):
        cases.append(('dry', (), 1, d))
    for n in (8, 60):
        for v in ('d', 'g') if n < 20 or ctx.thorough else ('d',):
            cases.append((v, (('npaths', 2), ('duration', 15.0)), n, tuple((k, (k[0] + j) % 3) for j, k in enumerate(variables(v, n)) if (k[0] + j) % 3)))
            cases.append((v, (('npaths', 2), ('duration', 15.0)), n, ()))
    ctx.bounds = dict(executions=len(cases), runs=len(entry), deviations=ctx.pick('2 (variant d), 1 (others)', '3 (variants b, d), 2 (others)'), realizations=3)
    ctx.run('answers', realizations, cases)
    runs.warm()
    ctx.run('through the entry point', realizations, entry)
