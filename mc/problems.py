"""
A family of small but complete capture-zone problems, their reference solutions, and the comparison of a probability field with them.
A problem is a plain dict of literals; everything lies about (ox, oy), which may be of UTM size.
"""
import functools
import math

import numpy as np

from mc import ref
from mc.core import Bad

BAND = 0.15      # [m] nodes this close to the umbra are not judged (the tracing tolerance, and chords instead of arcs)


def wells_of(name, ox, oy):
    sets = {
        'single': [(0.0, 0.0, 0.25, 450.0)],
        'pair': [(35.5, -20.25, 0.5, 300.0), (0.0, 0.0, 0.25, 420.0)],
        'three': [(0.0, 0.0, 1.5, 500.0), (48.0, 30.0, 0.25, 250.0), (-120.0, 95.0, 0.25, -150.0)],
        'six': [(120.0, -75.5, 0.25, 40.0), (-90.0, 60.0, 2.0, -35.0), (35.5, -20.25, 0.5, 130.0), (60.0, 110.0, 0.25, 90.0), (0.0, 0.0, 7.0, 420.0), (-45.0, -38.0, 0.25, 75.0), (15.0, 70.0, 0.25, 60.0)],
        'wide': [(0.0, 0.0, 2.75, 450.0), (-60.0, 45.0, 1.0, 80.0)],
        'injection': [(0.0, 0.0, 0.25, -450.0), (140.0, 60.0, 0.25, 150.0)],
    }
    return [(ox + a, oy + b, r, q) for a, b, r, q in sets[name]]


TARGET = {'single': 0, 'pair': 1, 'three': 0, 'six': 4, 'wide': 0, 'injection': 0}

PLACES = [(-210.0, -160.0), (-190.0, 30.0), (-150.0, 190.0), (15.0, 220.0), (170.0, 180.0), (225.0, 10.0), (180.0, -170.0), (-20.0, -230.0), (90.0, 95.0), (-95.0, -70.0)]


def head_plane(x, y, regime):
    """Heads above the base (relative coordinates): a gently sloping, slightly curved surface."""
    level = {'confined': 34.0, 'unconfined': 11.0, 'near': 21.5, 'cone': 24.0, 'mound': 14.0, 'drawdown': 22.6, 'thin': 5.6}[regime]     # cone, drawdown: dewatered about the well (drawdown: farther); mound: confined about it only (all for low conductivities)
    return level + 0.006 * x - 0.0035 * y + (-2.0e-6) * x * x + 1.5e-6 * x * y - 1.0e-6 * y * y


def observations(ox, oy, base, regime, std=0.05, noise=0.02, many=0):
    obs = []
    for i, (x, y) in enumerate(PLACES + [(60.0 * ((i * 7) % 9) - 265.0 + i, 250.0 + 22.0 * (i % 4)) if i % 2 else (52.0 * ((i * 5) % 11) - 275.0, -270.0 - 13.0 * (i % 5) - i) for i in range(many)]):
        h = head_plane(x, y, regime) + noise * ((i * 7) % 5 - 2)
        obs.append((ox + x, oy + y, base + round(h, 4), std * (1 + 0.5 * (i % 3))))
    return obs


def problem(wells='single', regime='confined', ox=0.0, oy=0.0, base=100.0, k=12.0, n=0.2, thick=20.0, npaths=4, duration=60.0, spacing=5.0,
            umbra=7.0, tol=0.01, maxstep=2.0, confined=None, std=0.05, noise=0.02, many=0, lists=False, turned=False):
    return dict(target=TARGET[wells], npaths=npaths, duration=duration, base=base, c_dist=k, p_dist=n, t_dist=thick, wells=wells_of(wells, ox, oy),
                obs=observations(ox, oy, base, regime, std, noise, many)[::-1 if turned else 1], lists=lists, spacing=spacing, umbra=umbra,
                confined=(regime == 'confined') if confined is None else confined, tol=tol, maxstep=maxstep)


def mean(d):
    return sum(d) / len(d) if isinstance(d, (tuple, list)) else d


def args_deterministic(p):
    return (p['target'], p['npaths'], p['duration'], p['base'], p['c_dist'], p['p_dist'], p['t_dist'], [(list if p.get('lists') else tuple)(w) for w in p['wells']], [list(o) for o in p['obs']] if p.get('lists') else list(p['obs']),
            p['spacing'], p['umbra'], p['confined'], p['tol'], p['maxstep'])


def args_stochastic(p, n):
    a = args_deterministic(p)
    return a[:3] + (n,) + a[3:]


def freeze(x):
    return tuple(freeze(y) for y in x) if isinstance(x, (list, tuple)) else x


@functools.lru_cache(4000)
def _solve(target, npaths, duration, base, k, n, thick, wells, obs, confined, coef):
    xo, yo = wells[target][0], wells[target][1]
    if coef is None:
        coef = tuple(ref.fit(obs, xo, yo, base, k, thick, wells)[0])
    pr = ref.Problem(target, wells, base, k, n, thick, coef, xo, yo, confined)
    return pr, pr.paths(npaths, duration, 0.25)


def solve(p, k=None, n=None, thick=None, q=None, coef=None, **over):
    """Reference problem and paths with the given (or mean) parameters; q: list of discharges; coef: instead of the fitted ones."""
    p = dict(p, **over)
    qs = [mean(w[3]) for w in p['wells']] if q is None else q
    wells = tuple((float(w[0]), float(w[1]), float(w[2]), float(z)) for w, z in zip(p['wells'], qs))
    return _solve(p['target'], p['npaths'], float(p['duration']), p['base'], float(mean(p['c_dist']) if k is None else k), float(mean(p['p_dist']) if n is None else n),
                  float(mean(p['t_dist']) if thick is None else thick), wells, freeze(p['obs']), p['confined'], None if coef is None else tuple(float(c) for c in coef))


_dists = {}


def distance_on(paths, X, Y):
    key = (id(paths), X.shape, float(X.flat[0]), float(Y.flat[0]))
    if key not in _dists:
        if len(_dists) > 3000:
            _dists.clear()
        _dists[key] = (paths, ref.zone_distance(paths, X, Y).reshape(X.shape))
    return _dists[key][1]


def padded_nodes(pf, pad):
    x = pf.xmin + np.arange(-pad, pf.ncols + pad) * pf.deltax
    y = pf.ymin + np.arange(-pad, pf.nrows + pad) * pf.deltay
    return np.meshgrid(x, y)


def check_frame(pf, spacing):
    p = np.asarray(pf.pgrid, float)
    if p.shape != (pf.nrows, pf.ncols):
        raise Bad('grid of shape %r for %d rows and %d columns' % (p.shape, pf.nrows, pf.ncols))
    if abs(pf.deltax - spacing) > 1e-12 or abs(pf.deltay - spacing) > 1e-12:
        raise Bad('the spacings of the field are %r, %r instead of %r' % (pf.deltax, pf.deltay, spacing))
    return p


def compare(pf, all_paths, umbra, spacing, weight=1.0, band=BAND, st=None, what='', maybe=()):
    """Every node's weight must be the (weighted) number of realizations (lists of paths) passing closer than the umbra; whether the paths of the maybe-realizations (which end at once) count is not judged."""
    p = check_frame(pf, spacing)
    pad = int(math.ceil((umbra + band) / spacing)) + 1
    X, Y = padded_nodes(pf, pad)
    lo = np.zeros(X.shape)
    hi = np.zeros(X.shape)
    for paths in all_paths:
        d = distance_on(paths, X, Y)
        lo += d < umbra - band
        hi += d < umbra + band
    for paths in maybe:
        hi += distance_on(paths, X, Y) < umbra + band
    full = np.zeros(X.shape)
    full[pad:-pad, pad:-pad] = p / weight
    out = np.ones(X.shape, bool)
    out[pad:-pad, pad:-pad] = False
    if (lo[out] > 0).any():
        i, j = np.argwhere(out & (lo > 0))[0]
        raise Bad('%sthe node (%r, %r), captured, lies outside the grid' % (what, X[i, j], Y[i, j]))
    bad = (full < lo - 1e-9) | ((full > hi + 1e-9) & ~out) | (np.abs(full - np.round(full)) > 1e-9)
    if bad.any():
        i, j = np.argwhere(bad)[0]
        ds = [round(float(distance_on(q, X, Y)[i, j]), 3) for q in all_paths]
        raise Bad('%snode (%r, %r): weight %r, should be %r (distances of the realizations %r, umbra %r)'
                  % (what, float(X[i, j]), float(Y[i, j]), float(full[i, j]) * weight, float(lo[i, j]) * weight, ds, umbra))
    if st is not None:
        st.skipped += int((lo != hi).sum())
        st.notes['nodes judged'] += int((lo == hi).sum())
        st.notes['captured'] += int((lo > 0).sum())
    tw = (len(all_paths) + len(maybe)) * weight
    if abs(float(pf.total_weight) - tw) > 1e-9:
        raise Bad('%stotal weight %r, should be %r' % (what, float(pf.total_weight), tw))


def marks(pf, x0, y0):
    """{(column, row) relative to the target: weight}, where weight is not zero."""
    p = np.asarray(pf.pgrid, float)
    X, Y = ref.nodes(pf)
    i = np.argwhere(p != 0)
    fx = (X[0, 0] - x0) / pf.deltax
    fy = (Y[0, 0] - y0) / pf.deltay
    px, py = fx - round(fx), fy - round(fy)
    return {(int(b + round(fx)), int(a + round(fy))): float(p[a, b]) for a, b in i}, (px, py)
