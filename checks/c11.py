"""C11: every scalar, pair and triple over lattices of values and bounds; every quantile of a grid as the answer of the random source."""
import itertools
import math

from mc import rng
from mc.core import Bad
from oneka.stochastic import compute_variate_mean, generate_random_variate, isdistribution

ID = 'C11'
LEVEL = 'exploration'
RULE = ('all scalars, pairs and triples (tuples and lists) over lattices of values x all bounds for acceptance; for every accepted finite one the mean, and every '
        'answer of the random source over a symmetric grid of quantiles; an outcome is a verdict, a mean or a set of samples')
ASSUMPTIONS = ['the random source is uniform, triangular or a uniform quantile; the samples over a symmetric grid of quantiles are compared as a set',
               'numpy scalars and booleans are not judged']
INF = float('inf')
NAN = float('nan')
LATTICES = [(-2, -1, 0, 0.5, 1, 3), (0.0, 1e-9, 0.25, 1.0, 1e6, 250), (-1e4, -0.3, 0.0, 0.1, 0.7, 40.0)]
BOUNDS = [(0, INF), (0, 1), (-INF, INF), (-1, 0.5), (0.5, 0.5), (0.25, 40.0), (3, 3)]
ODD = [None, 'x', '12', (), [], (1,), [0.5], (1, 2, 3, 4), [0, 0, 0, 0], {}, {1: 2, 3: 4}, {1, 2}, (None, 1), ('a', 'b'), (0, 'b', 1), ((0, 1), 1), NAN, (NAN, 1), (0, NAN), (0, NAN, 1),
       (NAN, 0, 1), (0, 0.5, NAN), object, ['1', '2'], [1.0, None], ['a', 'b', 'c'], [(1,), (2,)], [(1,), (2,), (3,)], (0, '2'), ['0', 2], [0, '1', 2], (0, 1, None), [{}, {}], ([], [1]),
       [0.5, 'a'], [None, None, None], '0.5', b'12', (1j, 2j), [0, 1j]]
GRID = [0.0, 1e-9, 0.001, 0.05, 0.2, 0.25, 0.4]
GRID = GRID + [0.5] + [1 - u for u in reversed(GRID[1:])]


class Fixed(rng.Env):
    def __init__(self, u):
        super().__init__()
        self.u = u

    def quantile(self, kind, params):
        return self.u

    def gauss(self, n):
        raise rng.Unmodelled('a Gaussian request')


def forms(values):
    if len(values) == 1:
        return [values[0]]
    return [tuple(values), list(values)]


def accept(case, st):
    values, lb, ub = case
    for arg in forms(values):
        got = isdistribution(arg, lb, ub)
        want = all(lb <= v <= ub for v in values) and all(a <= b for a, b in zip(values, values[1:]))
        st.evaluations += 1
        if bool(got) != want:
            raise Bad('isdistribution(%r, %r, %r) is %r' % (arg, lb, ub, got))
    st.outcome((values, lb, ub, want))


def odd(case, st):
    k, (lb, ub) = case
    got = isdistribution(ODD[k], lb, ub)
    if got:
        raise Bad('isdistribution(%r, %r, %r) is %r' % (ODD[k], lb, ub, got))
    st.outcome((k, lb, ub))


def mean_of(v):
    return math.fsum(v) / len(v)


def sample(case, st):
    values, = case
    size = max(max(abs(v) for v in values), 1e-300)
    tol = 1e-12 * size
    for arg in forms(values):
        before = repr(arg)
        m = compute_variate_mean(arg)
        if isinstance(m, (tuple, list)) or not abs(float(m) - mean_of(values)) <= tol or not values[0] - tol <= m <= values[-1] + tol:
            raise Bad('the mean of %r is %r' % (arg, m))
        got = []
        for u in GRID:
            st.evaluations += 1
            with rng.active(Fixed(u)):
                x = generate_random_variate(arg)
            if isinstance(x, (tuple, list)):
                raise Bad('a sample of %r is %r' % (arg, x))
            if len(values) == 1 and x != values[0]:
                raise Bad('a sample of the constant %r is %r' % (arg, x))
            got.append(float(x))
        if len(values) == 1:
            want = [values[0]] * len(GRID)
        elif len(values) == 2:
            want = [rng.uni_quantile(values[0], values[1], u) for u in GRID]
        else:
            want = [rng.tri_quantile(*values, u) for u in GRID]
        # both ends of the grid may be swapped by an implementation that uses 1 - u; 0 has no counterpart
        for a, b in zip(sorted(got), sorted(want)):
            if not abs(a - b) <= 1e-7 * size:
                alt = sorted(rng.uni_quantile(values[0], values[-1], 1 - u) if len(values) == 2 else rng.tri_quantile(*values, 1 - u) for u in GRID)
                if all(abs(p - q) <= 1e-7 * size for p, q in zip(sorted(got), alt)):
                    break
                raise Bad('samples of %r at the quantiles %r are %r, should be %r' % (arg, GRID, sorted(got), sorted(want)))
        if not all(values[0] - tol <= x <= values[-1] + tol for x in got):
            raise Bad('a sample of %r lies outside: %r' % (arg, got))
        if repr(arg) != before:
            raise Bad('the distribution %s was modified' % before)
        st.outcome((repr(arg), tuple(got)))


def again(case, st):
    """Sampling draws anew each time, also for the same distribution, whatever was sampled in between."""
    a, b, us = case

    class Seq(rng.Env):
        def __init__(self):
            super().__init__()
            self.n = 0

        def quantile(self, kind, params):
            self.n += 1
            return us[(self.n - 1) % len(us)]
    with rng.active(Seq()):
        xs = [generate_random_variate(d) for d in (a, b, a, a, b)]
    q = [rng.uni_quantile if len(d) == 2 else rng.tri_quantile for d in (a, b, a, a, b)]
    want = [f(*d, us[i % len(us)]) for i, (f, d) in enumerate(zip(q, (a, b, a, a, b)))]
    alt = [f(*d, 1 - us[i % len(us)]) for i, (f, d) in enumerate(zip(q, (a, b, a, a, b)))]
    if not any(all(abs(x - y) <= 1e-7 * max(abs(v) for v in a + b) for x, y in zip(xs, w)) for w in (want, alt)):
        raise Bad('samples %r, should be %r' % (xs, want))
    st.outcome(tuple(xs))


def main(ctx):
    values = []
    for lat in LATTICES:
        for k in (1, 2, 3):
            values += list(itertools.product(lat, repeat=k))
    values = list(dict.fromkeys(values))
    if ctx.thorough:
        both = (-7, -0.5, 0, 1e-3, 0.5, 1, 1.0, 2.5, 40, 1e5)
        values = list(dict.fromkeys(values + [v for k in (1, 2, 3) for v in itertools.product(both, repeat=k)]))
    ctx.bounds = dict(lattices=LATTICES, bounds=[str(b) for b in BOUNDS], quantiles=GRID)
    acc = [(v, lb, ub) for v in values for lb, ub in BOUNDS if (lb, ub) != (-INF, INF)]
    ctx.run('acceptance', accept_case, [(v, str(lb), str(ub)) for v, lb, ub in acc] + [(v, '-inf', 'inf') for v in values])
    ctx.run('not distributions', odd_case, [(k, str(lb), str(ub)) for k in range(len(ODD)) for lb, ub in BOUNDS])
    values += [v for m in (100.0, -0.25, 7e4) for w in (1e-3, 1e-5, 1e-7) for v in ((m, m * (1 + w) if m > 0 else m * (1 - w)), tuple(sorted((m, m, m + abs(m) * w))), tuple(sorted((m - abs(m) * w, m - abs(m) * w / 4, m))))]        # narrow ones
    ordered = [v for v in values if all(a <= b for a, b in zip(v, v[1:]))]
    ctx.run('means and samples', sample, [(v,) for v in ordered])
    ds = [(0.0, 4.0), (1.0, 1.0), (2.0, 3.0, 8.0), (-5.0, -5.0, 1.0), (7, 9, 9)]
    us = [(0.1, 0.9, 0.5, 0.3, 0.7), (0.25, 0.25, 0.75), (0.0, 0.5)]
    ctx.run('drawn anew', again, [(a, b, u) for a in ds for b in ds for u in us if a[0] != a[-1] and b[0] != b[-1]])


def accept_case(case, st):
    accept((case[0], float(case[1]), float(case[2])), st)


def odd_case(case, st):
    odd((case[0], (float(case[1]), float(case[2]))), st)
