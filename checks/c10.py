"""C10: explicit-state search over sequences of capture zones on one field; every zone has exactly known traces."""
import itertools
import math

import numpy as np

from mc import ref
from mc.core import Bad, bfs
from oneka.capturezone import compute_capturezone
from oneka.probabilityfield import ProbabilityField

ID = 'C10'
LEVEL = 'model_checking'
RULE = ('breadth-first search over sequences of capture zones (well, radius, number of paths, flow, duration, umbra, weight) computed into one real field, and '
        'every number of paths x radius on its own; a state is (bounds, shape, accumulated weights, total weight)')
ASSUMPTIONS = ['flows with exactly known paths (uniform, radial, circular, standing)', 'nodes within 0.005 of the umbra are not judged']

ZONES = {     # flow, x, y, radius, npaths, duration, umbra, weight, tol, maxstep
    'east1': ('uniform', 0.0, 0.0, 0.25, 1, 3.0, 0.8, 1.0, 1, 1.0),
    'radial4': ('radial', 0.0, 0.0, 1.5, 4, 2.0, 0.8, 0.5, 0.01, 0.5),
    'radial7': ('radial', 0.5, -1.0, 3.0, 7, 1.0, 0.6, 2.0, 0.001, 0.5),
    'uniform5': ('uniform', 4.25, 3.5, 2.0, 5, -2.5, 1.3, 0.25, 1, 2.0),
    'turn3': ('turn', 0.0, 0.0, 4.0, 3, 1.2, 0.7, 1.0, 0.0005, 0.2),
    'turn-2': ('turn', -3.0, 1.0, 2.25, 2, -2.0, 0.7, 1.0, 0.0005, 0.2),
    'still6': ('still', 1.0, 1.0, 1.75, 6, 5.0, 0.9, 0.125, 1, 5.0),
    'idle2': ('uniform', 1.0, -2.0, 1.0, 2, 1.5, 0.9, 0.0, 1, 1.0),
    'uniform12': ('uniform', 0.0, 0.0, 0.5, 12, 0.01, 0.55, 1.0, 0.1, 10),
}
CONFIGS = [(0.5, 0.5, 0.0, 0.0), (0.75, 0.5, 302338.0, 5162551.0), (1.0, 1.0, None, None)]
BAND = 0.005


def velocity(z, ox, oy):
    flow, x0, y0 = z[0], z[1] + ox, z[2] + oy
    if flow == 'uniform':
        return lambda x, y: (-1.0, 0.75)
    if flow == 'creep':
        return lambda x, y: (-1.0 / 256, 0.75 / 256)
    if flow == 'radial':
        return lambda x, y: ((x - x0) * 4.0 / ((x - x0) ** 2 + (y - y0) ** 2), (y - y0) * 4.0 / ((x - x0) ** 2 + (y - y0) ** 2))
    if flow == 'turn':
        return lambda x, y: (-0.5 * (y - y0), 0.5 * (x - x0))
    return lambda x, y: (0.0, 0.0)


def starts(z):
    return [(z[1] + (z[3] + 1) * math.cos(2 * math.pi * i / z[4]), z[2] + (z[3] + 1) * math.sin(2 * math.pi * i / z[4])) for i in range(z[4])]


def paths(z):
    """The exact traces (relative to the origin)."""
    out = []
    t = z[5]
    for i, (x, y) in enumerate(starts(z)):
        if z[0] == 'uniform':
            out.append(([x, x - t], [y, y + 0.75 * t]))
        elif z[0] == 'creep':
            out.append(([x, x - t / 256], [y, y + 0.75 * t / 256]))
        elif z[0] == 'radial':
            r = z[3] + 1
            f = math.sqrt(r * r + 8 * t) / r
            out.append(([x, z[1] + (x - z[1]) * f], [y, z[2] + (y - z[2]) * f]))
        elif z[0] == 'turn':
            a = 2 * math.pi * i / z[4] + 0.5 * t * np.linspace(0, 1, 200 + int(40 * abs(t)))
            out.append((list(z[1] + (z[3] + 1) * np.cos(a)), list(z[2] + (z[3] + 1) * np.sin(a))))
        else:
            out.append(([x, x], [y, y]))
    return out


_dist = {}


def distance(name, z, X, Y):
    key = (name, X.shape, float(X[0, 0]), float(Y[0, 0]), float(X[0, 1] - X[0, 0]))
    if key not in _dist:
        if len(_dist) > 5000:
            _dist.clear()
        _dist[key] = ref.zone_distance(paths(z), X, Y).reshape(X.shape)
    return _dist[key]


def compute(pf, z, ox, oy):
    seen = []
    v = velocity(z, ox, oy)

    def feval(xy):
        seen.append((float(xy[0]) - ox, float(xy[1]) - oy))
        return np.array(v(xy[0], xy[1]))
    r = compute_capturezone(z[1] + ox, z[2] + oy, z[3], z[4], z[5], pf, z[6], z[7], z[8], z[9], feval)
    S = np.array(seen)
    for k, (x, y) in enumerate(starts(z)):
        if not len(S) or np.hypot(S[:, 0] - x, S[:, 1] - y).min() > 1e-6:
            raise Bad('no trace starts at (%r, %r), direction %d of %d' % (x + ox, y + oy, k, z[4]))
    return r


def make(cfg):
    return ProbabilityField(cfg[0], cfg[1]) if cfg[2] is None else ProbabilityField(*cfg)


def origin(cfg):
    return (0.0, 0.0) if cfg[2] is None else (cfg[2], cfg[3])


def judge(pf, hist, cfg, zones):
    ox, oy = origin(cfg)
    total = sum(zones(h)[7] for h in hist)
    if abs(float(pf.total_weight) - total) > 1e-12:
        raise Bad('total weight %r, the weights given sum to %r' % (float(pf.total_weight), total))
    if not hist and cfg[2] is None:
        return
    X, Y = ref.nodes(pf)
    X, Y = X - ox, Y - oy
    p = np.asarray(pf.pgrid, float)
    r = np.asarray(pf.rgrid).astype(bool)
    if p.shape != X.shape or r.shape != X.shape:
        raise Bad('grid shapes %r, %r' % (p.shape, r.shape))
    if r.any():
        raise Bad('the field starts its next realization with %d nodes already visited' % r.sum())
    want = np.zeros(p.shape)
    unsure = np.zeros(p.shape, bool)
    for h in hist:
        z = zones(h)
        d = distance(h, z, X, Y)
        want += z[7] * (d < z[6])
        unsure |= np.abs(d - z[6]) < BAND
        # nothing may be lost outside the grid
        px = [q for xs, ys in paths(z) for q in xs]
        py = [q for xs, ys in paths(z) for q in ys]
        if (min(px) - z[6] + pf.deltax < X[0, 0] or max(px) + z[6] - pf.deltax > X[0, -1] or min(py) - z[6] + pf.deltay < Y[0, 0]
                or max(py) + z[6] - pf.deltay > Y[-1, 0]):
            raise Bad('the grid does not hold the whole capture zone')
    bad = (np.abs(p - want) > 1e-12) & ~unsure
    if bad.any():
        i, j = np.argwhere(bad)[0]
        raise Bad('node (%r, %r) has weight %r, should be %r' % (X[i, j] + ox, Y[i, j] + oy, float(p[i, j]), float(want[i, j])))


def canon(pf):
    if not hasattr(pf, 'xmin'):
        return ('empty', float(pf.total_weight))
    return (pf.nrows, pf.ncols, float(pf.xmin), float(pf.ymin), np.asarray(pf.pgrid).tobytes(), float(pf.total_weight))


def history(case, st):
    cfg, hist = case
    pf = make(cfg)
    for n, h in enumerate(hist):
        compute(pf, ZONES[h], *origin(cfg))
        judge(pf, hist[:n + 1], cfg, ZONES.get)
        st.transitions += 1
    st.traces += 1
    st.outcome(canon(pf))


def search(case, st):
    cfg, first, depth = case

    def build(h):
        pf = make(cfg)
        for z in h:
            compute(pf, ZONES[z], *origin(cfg))
        return pf
    bfs(st, lambda x: list(ZONES), build, canon, lambda x, h: judge(x, h, cfg, ZONES.get), depth, root=first, fnname='history',
        case_of=lambda h: (cfg, tuple(h)))


def single(case, st):
    cfg, z = case
    pf = make(cfg)
    compute(pf, z, *origin(cfg))
    judge(pf, (z,), cfg, lambda h: h)
    st.transitions += 1
    st.states += 1
    st.traces += 1
    st.outcome(canon(pf))


def main(ctx):
    depth = ctx.pick(3, 4)
    ctx.bounds = dict(zones=ZONES, configurations=CONFIGS, sequence_length=depth)
    singles = []
    for cfg in CONFIGS:
        for n in ctx.pick((1, 2, 3, 4, 5, 6, 8, 11, 16, 30), range(1, 41)):
            for r in (0.25, 1, 2.5, 7.0):
                singles.append((cfg, ('still', 0.25, -0.5, r, n, 1.0, 0.6, 1.0, 1, 10)))
                singles.append((cfg, ('radial', 0.25, -0.5, r, n, 0.75, 0.7, 0.5, 0.001, 1)))
                singles.append((cfg, ('uniform', -2.0, 1.5, r, n, -1.5 if n % 2 else 2, 0.8, 3, 1, 0.7)))
        for n, r in itertools.product((1, 4, 5), ctx.pick((0.05, 1e-6, 12.0, 40.0), (0.15, 0.05, 1e-6, 12.0, 15.5, 25.0, 40.0, 60.0))):
            singles.append((cfg, ('still', 0.25, -0.5, r, n, 1.0, 0.6, 1.0, 1, 10)))
            singles.append((cfg, ('uniform', -2.0, 1.5, r, n, -1.5, 0.8, 3, 1, 0.7)))
        for n in ctx.pick((49, 61, 97, 122, 360), tuple(range(41, 130)) + (180, 197, 244, 343, 345, 355, 360, 365, 500, 1000)):
            singles.append((cfg, ('still', 0.25, -0.5, 2.5, n, 0.2, 0.6, 1.0, 1, 10)))
        singles += [(cfg, ('still', 0.25, -0.5, 2.5, n, d, 0.6, 1.0, 1, 10)) for n in (1, 4) for d in (1500.0, -1001, 4000, 36525.0)]
        singles += [(cfg, ('creep', 0.25, -0.5, 2.5, n, d, 0.6, 1.0, 1, 2.0)) for n in (1, 3) for d in (1500.0, -1001, 3652.5)]
        singles += [(cfg, ('uniform', -2.0, 1.5, 2.5, n, 1.0, 0.6, 1.0, 1, 10)) for n in (105, 250)]
        for n, u in itertools.product((1, 3, 8), ctx.pick((0.05, 0.3, 2.2, 5.0, 11.5), (0.05, 0.2, 0.3, 1.1, 1.6, 2.2, 3.3, 5.0, 7.7, 11.5, 23.0))):
            singles.append((cfg, ('still', 0.25, -0.5, 2.5, n, 1.0, u, 1.0, 1, 10)))
            singles.append((cfg, ('radial', 0.25, -0.5, 1.5, n, 0.75, u, 0.5, 0.001, 1)))
            singles.append((cfg, ('uniform', -2.0, 1.5, 2.0, n, -1.5, u, 3, 1, 0.7)))
        for w in (0, 0.0, 1e-9, 0.1, 2, 1000, 1e6):
            singles.append((cfg, ('uniform', -2.0, 1.5, 2.0, 3, -1.5, 0.8, w, 1, 0.7)))
            singles.append((cfg, ('radial', 0.25, -0.5, 1.5, 4, 0.75, 3.1, w, 0.001, 0.2)))
    for cfg in CONFIGS[:2]:      # traces of very many steps, straight and curved
        for n, step in itertools.product((1, 2), ctx.pick((0.02, 0.0025), (0.05, 0.03, 0.02, 0.015, 0.01, 0.005, 0.0025, 0.001))):
            singles.append((cfg, ('uniform', -2.0, 1.5, 2.0, n, -6.0 if n == 1 else 6, 0.8, 1.0, 1, step)))
            singles.append((cfg, ('turn', 1.0, -1.5, 3.0, n, 9.0, 0.7, 1.0, 0.001, step)))
    ctx.run('every number of paths', single, singles, limit=120)
    ctx.run('short sequences', history, [(c, h) for c in CONFIGS for n in (1, 2) for h in itertools.product(ZONES, repeat=n)])
    ctx.run('sequences', search, [(c, (a, b), depth) for k, c in enumerate(CONFIGS) for a in ZONES for b in ZONES if k < 2 or ctx.thorough], chunk=2)
