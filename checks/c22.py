"""C22: every transformation (and composition of transformations) of a family of problems, on the real runs: the capture zone must follow it and change in nothing else."""
import itertools

import numpy as np

from mc import problems as P
from mc import rng
from mc.core import Bad
from oneka.deterministic import create_deterministic_capturezone
from oneka.stochastic import create_stochastic_capturezone

ID = 'C22'
LEVEL = 'exploration'
RULE = ('full product of base problems x sequences of transformations (every one, and every ordered pair; thorough: triples), deterministic and stochastic (answers of the random '
        'source by distribution); the zone of the transformed problem is compared node by node with the transformed zone; an outcome is a marked set')
ASSUMPTIONS = ['nodes within 0.15 m of the umbra of the reference path are not judged (the tracing tolerance)', 'observation noise enters the fit, so the fits are not trivial']

U = (0.2, 0.85, 0.5)


class ByCount(rng.Env):
    """The i-th draw from a distribution is answered U[i]; draws from any other than the given distributions cannot be told apart, and then all answers are to be the median."""

    def __init__(self, known=None):
        super().__init__()
        self.n = {}
        self.known = known
        self.unknown = False

    def quantile(self, kind, params):
        if self.known is None:
            return 0.5
        if tuple(params) not in self.known and not (params and params[0] == params[-1]):
            self.unknown = True
        i = self.n.get(params, 0)
        self.n[params] = i + 1
        return U[i % len(U)]


def at(d, u):
    if not isinstance(d, (tuple, list)):
        return d
    return rng.uni_quantile(d[0], d[1], u) if len(d) == 2 else rng.tri_quantile(d[0], d[1], d[2], u)


def times(d, f):
    return type(d)(v * f for v in d) if isinstance(d, (tuple, list)) else d * f


class View:
    """A transformed problem and the map from node offsets (relative to the target) of the original to those of the transformed problem."""

    def __init__(self, p):
        self.p = p
        self.m = (1, 0, 0, 1)

    def coords(self, m):
        t = self.p['wells'][self.p['target']]
        x0, y0 = t[0], t[1]

        def f(o):
            dx, dy = o[0] - x0, o[1] - y0
            return (x0 + m[0] * dx + m[1] * dy, y0 + m[2] * dx + m[3] * dy) + tuple(o[2:])
        self.p = dict(self.p, wells=[f(w) for w in self.p['wells']], obs=[f(o) for o in self.p['obs']])
        a, b = m, self.m
        self.m = (a[0] * b[0] + a[1] * b[2], a[0] * b[1] + a[1] * b[3], a[2] * b[0] + a[3] * b[2], a[2] * b[1] + a[3] * b[3])

    def apply(self, t):
        p = self.p
        kind = t[0]
        if kind == 'shift':
            def f(o):
                return (o[0] + t[1], o[1] + t[2]) + tuple(o[2:])
            self.p = dict(p, wells=[f(w) for w in p['wells']], obs=[f(o) for o in p['obs']])
        elif kind == 'mirror-x':
            self.coords((-1, 0, 0, 1))
        elif kind == 'mirror-y':
            self.coords((1, 0, 0, -1))
        elif kind == 'turn':
            self.coords({90: (0, -1, 1, 0), 180: (-1, 0, 0, -1), 270: (0, 1, -1, 0)}[t[1]])
        elif kind == 'raise':
            self.p = dict(p, base=p['base'] + t[1], obs=[(o[0], o[1], o[2] + t[1], o[3]) for o in p['obs']])
        elif kind == 'datum':         # one observation, or the base, comes to lie at elevation zero
            z = p['base'] if t[1] is None else p['obs'][t[1]][2]
            self.p = dict(p, base=p['base'] - z, obs=[(o[0], o[1], o[2] - z, o[3]) for o in p['obs']])
        elif kind == 'wells':
            w = p['wells']
            order = list(reversed(range(len(w)))) if t[1] == 'reverse' else [(i + 1) % len(w) for i in range(len(w))]
            self.p = dict(p, wells=[w[i] for i in order], target=order.index(p['target']))
        elif kind == 'obs':
            o = p['obs']
            n = len(o)
            order = {'reverse': list(range(n))[::-1], 'rotate': [(i + 3) % n for i in range(n)], 'halves': [i for i in range(n) if i % 2] + [i for i in range(n) if not i % 2]}[t[1]]
            self.p = dict(p, obs=[o[i] for i in order])
        elif kind == 'scale':
            self.p = dict(p, c_dist=times(p['c_dist'], t[1]), p_dist=times(p['p_dist'], t[1]), wells=[tuple(w[:3]) + (times(w[3], t[1]),) for w in p['wells']])
        elif kind == 'faster':
            self.p = dict(p, c_dist=times(p['c_dist'], t[1]), duration=p['duration'] / t[1], wells=[tuple(w[:3]) + (times(w[3], t[1]),) for w in p['wells']])


def run(p, n, told=True):
    """(marks, total weight, whether the draws could be told apart)"""
    known = {tuple(d) for d in [p['c_dist'], p['p_dist'], p['t_dist']] + [w[3] for w in p['wells']] if isinstance(d, (tuple, list))}
    env = ByCount(known if told else None)
    with rng.active(env):
        if n == 0:
            pf = create_deterministic_capturezone(*P.args_deterministic(p))
        else:
            pf = create_stochastic_capturezone(*P.args_stochastic(p, n))
    if n and env.unknown:
        return run(p, n, False)
    P.check_frame(pf, p['spacing'])
    w = p['wells'][p['target']]
    m, phase = P.marks(pf, w[0], w[1])
    if abs(phase[0]) > 1e-6 or abs(phase[1]) > 1e-6:
        raise Bad('the nodes are not aligned with the target: offsets %r' % (phase,))
    return m, float(pf.total_weight), told


_base = {}


def base_run(p, n):
    key = (repr(p), n)
    if key not in _base:
        done = run(p, n)
        if n == 0:
            refs = [P.solve(p)[1]]
        else:
            refs = [P.solve(p, at(p['c_dist'], u), at(p['p_dist'], u), at(p['t_dist'], u), [at(w[3], u) for w in p['wells']])[1] for u in (U if done[2] else (0.5,) * n)[:n]]
        _base[key] = (done, refs)
    return _base[key]


def problem(which):
    ws, regime, uncertain, over = which
    p = P.problem(ws, regime, **dict(over))
    if uncertain:
        p.update(c_dist=(9.0, 15.0), p_dist=(0.12, 0.2, 0.3), t_dist=[17.0, 24.0])
        p['wells'] = [(w[0], w[1], w[2], (w[3] - 100.0, w[3] + 60.0) if i % 2 == 0 else (w[3] - 60.0, w[3], w[3] + 90.0)) for i, w in enumerate(p['wells'])]
    return p


def follows(case, st):
    which, n, seq = case
    p = problem(which)
    (m0, tw0, told), refs = base_run(p, n)
    v = View(p)
    for t in seq:
        v.apply(t)
    m1, tw1, _ = run(v.p, n, told)
    if tw0 != tw1:
        raise Bad('total weight %r, of the original problem %r' % (tw1, tw0))
    a, b, c, d = v.m
    moved = {(a * i + b * j, c * i + d * j): (w, (i, j)) for (i, j), w in m0.items()}
    det = a * d - b * c
    w = p['wells'][p['target']]
    for k in set(moved) | set(m1):
        w1 = m1.get(k, 0.0)
        w0, src = moved.get(k, (0.0, None))
        if w0 == w1:
            continue
        if src is None:
            src = ((d * k[0] - b * k[1]) // det, (-c * k[0] + a * k[1]) // det)
        x, y = w[0] + src[0] * p['spacing'], w[1] + src[1] * p['spacing']
        ds = [float(P.distance_on(r, np.array([[x]]), np.array([[y]]))[0, 0]) for r in refs]
        if min(abs(q - p['umbra']) for q in ds) > P.BAND:
            raise Bad('the node (%r, %r) has weight %r, its image %r (distances %r, umbra %r)' % (x, y, w0, w1, [round(q, 3) for q in ds], p['umbra']))
        st.skipped += 1
    st.notes['nodes compared'] += len(set(moved) | set(m1))
    st.outcome(sorted(m1))


def transforms(npaths):
    t = [('shift', 302338.25, 5162551.75), ('shift', -777.3, 0.4), ('shift', -5.0e5, 1.2e6), ('mirror-y',), ('raise', 57.0), ('raise', -260.5), ('datum', 4), ('datum', None), ('wells', 'reverse'), ('wells', 'rotate'),
         ('obs', 'reverse'), ('obs', 'rotate'), ('obs', 'halves'), ('scale', 2.0), ('scale', 0.375), ('faster', 4.0), ('faster', 0.6)]
    if npaths % 2 == 0:
        t += [('mirror-x',), ('turn', 180)]
    if npaths % 4 == 0:
        t += [('turn', 90), ('turn', 270)]
    return t


def main(ctx):
    bases = [('single', 'confined', False, (('duration', 25.0),)), ('three', 'unconfined', False, (('duration', 25.0),)), ('pair', 'near', False, (('duration', 25.0),)),
             ('pair', 'confined', False, (('duration', 30.0), ('npaths', 3), ('spacing', 4.0), ('umbra', 3.0))),
             ('injection', 'confined', False, (('duration', -25.0), ('ox', 401000.0), ('oy', 4.9e6))),
             ('three', 'near', False, (('duration', 25.0), ('npaths', 6), ('tol', 0.05), ('maxstep', 5.0)))]
    uncertain = [('pair', 'confined', True, (('duration', 20.0),)), ('three', 'near', True, (('duration', 20.0),))]
    cases = []
    for i, b in enumerate(bases):
        T = transforms(dict(b[3]).get('npaths', 4))
        cases += [(b, 0, (t,)) for t in T]
        pairs = list(itertools.permutations(T, 2))
        cases += [(b, 0, s) for s in pairs] if ctx.thorough else [(b, 0, s) for k, s in enumerate(pairs) if k % 2 == i % 2]
        if ctx.thorough and i in (1, 2):
            cases += [(b, 0, s) for s in itertools.permutations(T, 3)]
    for b in uncertain:
        T = transforms(4)
        cases += [(b, n, (t,)) for t in T for n in ctx.pick((2,), (1, 2, 3))]
        if ctx.thorough:
            cases += [(b, 2, s) for s in itertools.permutations(T, 2)]
    rare = [('six', 'confined', False, (('duration', 12.0), ('many', 20), ('turned', True))), ('wide', 'confined', False, (('duration', 12.0), ('npaths', 2))), ('three', 'thin', False, (('duration', 6.0), ('k', 60.0), ('thick', 8.0))),
            ('three', 'confined', False, (('duration', 12.0), ('npaths', 12), ('maxstep', 25.0))), ('single', 'drawdown', False, (('duration', 12.0),)), ('pair', 'mound', False, (('duration', 12.0),))]
    cases += [(b, 0, (t,)) for i, b in enumerate(rare) for j, t in enumerate(transforms(dict(b[3]).get('npaths', 4))) if ctx.thorough or i < 3 or (i + j) % 2]
    extreme = [('scale', 4.5), ('scale', 0.05), ('faster', 15.0), ('faster', 0.05), ('raise', 4321.0), ('raise', -1.0e4), ('shift', 1.0, 0.0), ('shift', 0.0, -64.0)]
    cases += [(b, 0, (t,)) for b in bases[:3] for t in extreme]
    cases.sort(key=lambda c: bases.index(c[0]) if c[0] in bases else 99)
    ctx.bounds = dict(cases=len(cases), transformations=len(transforms(4)), composed=ctx.pick('singles, and half of the ordered pairs on each of the six problems', 'pairs; triples on two problems'))
    ctx.run('transformations', follows, cases)
