"""C17: every assignment of weights to small probability fields, and a family of runs: the curve, areas, maps and tables reported against the field itself."""
import itertools
import math
import re

import numpy as np

from mc import plots, problems as P, rng, runs
from mc.core import Bad
from oneka.probabilityfield import ProbabilityField
from oneka import visualize as V

ID = 'C17'
LEVEL = 'exploration'
RULE = ('all assignments of weights to the nodes of small grids (square or not, unequal spacings, with and without offsets) for each report; all smoothing widths of an alphabet; complete runs of '
        'both modes with varied draws; an outcome is the reported curve or area')
ASSUMPTIONS = ['what is drawn is read from the artists of the figure and from the data handed to contour and contourf', 'the plotted acres may be rounded down by up to one acre']

WELLS = [(3.0, 4.5, 0.25, (1.0, 2.0)), (-7.25, 11.0, 0.5, 300.0), (20.0, -3.0, 1.0, [1.0, 2.0, 3.0])]
OBS = [(1.5, 2.5, 10.0, 0.1), (-8.0, 4.0, 11.0, 0.2), (17.0, 17.0, 12.0, 0.1), (5.0, -6.0, 12.5, 0.3)]

# in other forms: lists, integers, far off, idle and negative discharges, a negative well first, many observations, some at wells or twice
WELLS2 = [[302340, 5162560, 2, -350.0], [302338.25, 5162551.75, 12.0, [-3.0, 2.0]], [302100, 5162300.5, 0.25, 0], [-7, 12, 1, (1.0, 4.0)]]
OBS2 = [[302330.0 + 7 * ((i * 5) % 9), 5162540 + 4.5 * ((i * 4) % 11), 300 + i, 0.001 * (i + 1)] for i in range(23)] + [[302340, 5162560, 301, 1], [302330.0, 5162540, 300, 2]]


def field(nr, nc, dx, dy, x0, y0, cells, total):
    pf = ProbabilityField(dx, dy, x0 + dx, y0 + dy)
    if nr > 3 or nc > 3:
        pf.expand(x0 + 0.5 * dx, x0 + (nc - 1.5) * dx, y0 + 0.5 * dy, y0 + (nr - 1.5) * dy)
    if (pf.nrows, pf.ncols) != (nr, nc):
        raise Bad('a field of %d rows and %d columns was asked for, and is %r' % (nr, nc, (pf.nrows, pf.ncols)))
    g = np.zeros((nr, nc))
    for i, j, w in cells:
        g[i, j] = w
    pf.pgrid[:] = g
    pf.total_weight = total
    return pf, g


def close():
    import matplotlib.pyplot as plt
    plt.close('all')


def check_curve(pr, area, g, total, spacing):
    pr, area = np.asarray(pr, float).ravel(), np.asarray(area, float).ravel()
    want = np.sort((g / total).ravel())[::-1]
    if pr.shape != want.shape or area.shape != want.shape:
        raise Bad('the impact curve has %r and %r entries for %d nodes' % (pr.shape, area.shape, want.size))
    if np.abs(pr - want).max() > 1e-12:
        k = int(np.argmax(np.abs(pr - want)))
        raise Bad('entry %d of the impact curve is the probability %r, should be %r' % (k + 1, pr[k], want[k]))
    wa = (np.arange(want.size) + 1) * spacing * spacing
    if np.abs(area / wa - 1).max() > 1e-9:
        k = int(np.argmax(np.abs(area / wa - 1)))
        raise Bad('entry %d of the impact curve is the area %r, should be %r' % (k + 1, area[k], wa[k]))
    return want, wa


def check_impact_axes(ax, want, wa):
    pts = [p for a in plots.artists(ax) for p in a]
    if not pts:
        for l in ax.lines:
            x, y = l.get_data()
            pts += list(zip(x, y))
    left = [(float(p), float(a) / 4046.86) for p, a in zip(want, wa)]
    for x, y in pts:
        if not any(abs(x - p) < 1e-9 and a - 1 - 1e-6 <= y <= a + 1e-6 for p, a in left):
            raise Bad('the impact plot shows (%r, %r acres), no point of the curve' % (x, y))
    for p, a in left:
        if 1e-12 < p < 1 - 1e-12 and not any(abs(x - p) < 1e-9 and a - 1 - 1e-6 <= y <= a + 1e-6 for x, y in pts):
            raise Bad('the impact plot lacks the point (%r, %r acres)' % (p, a))


def impact(case, st):
    import matplotlib.pyplot as plt
    nr, nc, sp, x0, y0, cells, total = case
    pf, g = field(nr, nc, sp, sp, x0, y0, cells, total)
    try:
        pr, area = V.create_impact_plot(sp, pf)
        want, wa = check_curve(pr, area, g, total, sp)
        check_impact_axes(plt.gcf().axes[0], want, wa)
    finally:
        close()
    if not np.array_equal(pf.pgrid, g) or pf.total_weight != total:
        raise Bad('reporting alters the field')
    st.outcome((sp, [round(float(p), 6) for p in want]))


def check_markers(ax, target, wells, obs):
    arts = plots.artists(ax)
    W = [(float(w[0]), float(w[1])) for w in wells]
    O = [(float(o[0]), float(o[1])) for o in obs]
    seen = [p for a in arts for p in a]

    def there(q, pts):
        return any(abs(p[0] - q[0]) < 1e-9 and abs(p[1] - q[1]) < 1e-9 for p in pts)
    for q in W:
        if not there(q, seen):
            raise Bad('the map shows no marker at the well %r' % (q,))
    for q in O:
        if not there(q, seen):
            raise Bad('the map shows no marker at the observation %r' % (q,))
    for q in seen:
        if not there(q, W + O):
            raise Bad('the map shows a marker at %r, where there is no well or observation' % (q,))
    if not any(len(a) == 1 and there(a[0], [W[target]]) for a in arts):
        raise Bad('the map does not single out the target well at %r' % (W[target],))
    if len(W) > 1:
        for i, q in enumerate(W):
            if i != target and any(len(a) == 1 and there(a[0], [q]) for a in arts):
                raise Bad('the map singles out the well %r, which is not the target' % (q,))


def smoothed(z, s):
    """Gaussian kernel of standard deviation s, cut at 4 s, nothing captured outside the grid."""
    if s == 0:
        return z
    r = int(4.0 * s + 0.5)
    k = np.exp(-0.5 * (np.arange(-r, r + 1) / s) ** 2)
    k /= k.sum()
    n = np.zeros_like(z)
    for t in range(-r, r + 1):
        if abs(t) < z.shape[0]:
            n[max(0, -t):z.shape[0] - max(0, t)] += k[t + r] * z[max(0, t):z.shape[0] + min(0, t)]
    z, n = n, np.zeros_like(z)
    for t in range(-r, r + 1):
        if abs(t) < z.shape[1]:
            n[:, max(0, -t):z.shape[1] - max(0, t)] += k[t + r] * z[:, max(0, t):z.shape[1] + min(0, t)]
    return n


def check_maps(rec, pf, g, total, smooth):
    z = smoothed(g / total, smooth)
    for kind in ('contourf', 'contour'):
        for X, Y, Z, levels in rec.maps(kind):
            if Z.shape == z.shape:
                wx = pf.xmin + np.arange(pf.ncols) * pf.deltax
                wy = pf.ymin + np.arange(pf.nrows) * pf.deltay
                if np.abs(X - wx[None, :]).max() > 1e-6 or np.abs(Y - wy[:, None]).max() > 1e-6:
                    raise Bad('the map places its values at %r, %r instead of the nodes %r, %r' % (X[0].tolist(), Y[:, 0].tolist(), wx.tolist(), wy.tolist()))
                if np.abs(Z - z).max() > 1e-6:
                    i, j = np.unravel_index(np.argmax(np.abs(Z - z)), z.shape)
                    raise Bad('the map (smooth=%r) shows %r at node (%d, %d), should be %r' % (smooth, float(Z[i, j]), i, j, float(z[i, j])))
            else:
                raise Bad('the map shows a grid of shape %r for a field of shape %r' % (Z.shape, z.shape))
            if kind == 'contourf' and levels is not None and np.ndim(levels) == 1 and (min(levels) > 0 or max(levels) < 1):
                raise Bad('the map covers probabilities %r to %r only' % (min(levels), max(levels)))
    if not rec.maps('contourf'):
        raise Bad('no map is drawn')


def probability(case, st):
    import matplotlib.pyplot as plt
    nr, nc, dx, dy, x0, y0, cells, total, smooth, target = case
    pf, g = field(nr, nc, dx, dy, x0, y0, cells, total)
    wells, obs = (WELLS, OBS) if target < 3 else (WELLS2, OBS2)
    target %= 3
    try:
        with plots.Recorder() as rec:
            if smooth is None:
                V.create_probability_plot(target, wells, obs, pf)
            else:
                V.create_probability_plot(target, wells, obs, pf, smooth)
        check_maps(rec, pf, g, total, smooth or 0)
        check_markers(plt.gcf().axes[0], target, wells, obs)
    finally:
        close()
    if not np.array_equal(pf.pgrid, g) or pf.total_weight != total:
        raise Bad('reporting alters the field')
    st.outcome(case)


def check_cells(ax, pf, g):
    boxes = plots.polygons(ax)
    if not boxes and g.any():
        if not (ax.collections or ax.images):
            raise Bad('the map of the capture zone shows nothing')
        return
    left = {(int(i), int(j)) for i, j in np.argwhere(g > 0)}
    for a, b, c, d, inside in boxes:
        j, i = round(((a + b) / 2 - pf.xmin) / pf.deltax), round(((c + d) / 2 - pf.ymin) / pf.deltay)
        if (i, j) not in left:
            raise Bad('the map fills a cell centred at (%r, %r), which is no captured node (or is filled twice)' % ((a + b) / 2, (c + d) / 2))
        x, y = pf.xmin + j * pf.deltax, pf.ymin + i * pf.deltay
        if max(abs(a - x + pf.deltax / 2), abs(b - x - pf.deltax / 2), abs(c - y + pf.deltay / 2), abs(d - y - pf.deltay / 2)) > 1e-6:
            raise Bad('the map fills (%r..%r, %r..%r) for the node (%r, %r)' % (a, b, c, d, x, y))
        if abs(inside - pf.deltax * pf.deltay) > 1e-6 * pf.deltax * pf.deltay:
            raise Bad('the map fills %r square metres of the cell at (%r, %r), should be %r' % (inside, x, y, pf.deltax * pf.deltay))
        left.discard((i, j))
    if left:
        raise Bad('the map does not fill the cells of the captured nodes %r' % sorted(left)[:5])


def deterministic(case, st):
    import matplotlib.pyplot as plt
    nr, nc, dx, dy, x0, y0, cells, total, target = case
    pf, g = field(nr, nc, dx, dy, x0, y0, cells, total)
    wells, obs = (WELLS, OBS) if target < 3 else (WELLS2, OBS2)
    target %= 3
    try:
        area = V.create_deterministic_plot(target, wells, obs, pf)
        want = float((g > 0).sum()) * dx * dy
        if abs(area - want) > 1e-6 * max(1.0, want):
            raise Bad('the area of the capture zone is given as %r, should be %r' % (area, want))
        ax = plt.gcf().axes[0]
        check_cells(ax, pf, g)
        check_markers(ax, target, wells, obs)
    finally:
        close()
    if not np.array_equal(pf.pgrid, g) or pf.total_weight != total:
        raise Bad('reporting alters the field')
    st.outcome((want, sorted(cells)))


def empty(case, st):
    which, kind, dx, gx, gy = case
    pf = ProbabilityField(dx, 5.0, gx + 1.0, gy + 2.0)
    if kind == 'inserted':
        pf.rasterize([gx + 1.0, gx + 30.0], [gy + 2.0, gy + 14.0], 6.0)
    if kind == 'reset':
        pf.rasterize([gx + 1.0, gx + 30.0], [gy + 2.0, gy + 14.0], 6.0)
        pf.reset()
    if kind == 'weightless':
        pf.rasterize([gx + 1.0, gx + 30.0], [gy + 2.0, gy + 14.0], 6.0)
        pf.register(0.0)
    try:
        if which == 'impact':
            V.create_impact_plot(dx, pf)
        elif which == 'probability':
            V.create_probability_plot(0, WELLS, OBS, pf, 1)
        else:
            V.create_deterministic_plot(0, WELLS, OBS, pf)
    except V.CaptureZoneError:
        st.outcome(case)
        return
    except Exception as e:
        raise Bad('%s report of a field without weight: %s: %s instead of a CaptureZoneError' % (which, type(e).__name__, e))
    finally:
        close()
    raise Bad('the %s report of a field without any registered weight is not refused' % which)


class Spread(rng.Env):
    def __init__(self, k):
        super().__init__()
        self.i, self.k = 0, k

    def quantile(self, kind, params):
        self.i += 1
        return ((self.i * self.k * 7919) % 101) / 101.0

    def gauss(self, n):
        return np.array([((self.i * 31 + j * 17) % 13 - 6) / 4.0 for j in range(n)])


def whole(case, st):
    mode, over, k = case
    a = runs.arguments(nrealizations=mode, **dict(over))
    a['p_dist'] = (0.05, 0.3)
    a['duration'] = 12.0
    seen = {}

    def look(e, plt):
        if e.error is not None:
            return
        from mc import ref
        pf = e.result
        g = np.asarray(pf.pgrid, float)
        figs = [plt.figure(n) for n in plt.get_fignums()]
        kept = ref.filter_obs(a['observations'], a['stochastic_wells'], a['buffer'])
        if mode > 1:
            check_maps(rec, pf, g, mode, a['smooth'])
            check_markers([c for c in rec.calls if c[0] == 'contourf'][0][1], a['target'], a['stochastic_wells'], kept)
            others = [f.axes[0] for f in figs if f.axes and f.axes[0] not in [c[1] for c in rec.calls]]
            if len(others) != 1:
                raise Bad('a stochastic run draws %d figures besides its map' % len(others))
            check_impact_axes(others[0], np.sort((g / mode).ravel())[::-1], (np.arange(g.size) + 1) * a['spacing'] ** 2)
        else:
            if len(figs) != 1:
                raise Bad('a deterministic run draws %d figures' % len(figs))
            check_cells(figs[0].axes[0], pf, g)
            check_markers(figs[0].axes[0], a['target'], a['stochastic_wells'], kept)
        seen['ok'] = True
    with plots.Recorder() as rec:
        e = runs.run(a, source=Spread(k), inspect=look)
    if e.error is not None:
        raise Bad('the run fails: %r' % e.error)
    g = np.asarray(e.result.pgrid, float)
    lines = e.tap.lines()
    num = r'-?[\d,]+(?:\.\d+)?'
    if mode > 1:
        at = [i for i, l in enumerate(lines) if 'Pr(capture)' in l]
        if len(at) != 1:
            raise Bad('the log holds %d decile tables' % len(at))
        rows = []
        for l in lines[at[0] + 1:]:
            m = re.fullmatch(r'\s*(%s)\s+(%s)\s+(%s)\s*' % (num, num, num), l)
            if m:
                rows.append(tuple(x.replace(',', '') for x in m.groups()))
        pr = np.sort(g.ravel())[::-1] / mode
        hits = np.round(np.sort(g.ravel())[::-1]).astype(int)          # realizations: every comparison with a level is exact
        if len(rows) != 19:
            raise Bad('the decile table has %d rows' % len(rows))
        for k, row in enumerate(rows, 1):
            i = int(np.argmax(20 * hits <= k * mode))
            w = (pr[i], (i + 1) * a['spacing'] ** 2, (i + 1) * a['spacing'] ** 2 / 4046.86)
            st.notes['ties'] += int(20 * hits[i] == k * mode)
            if not (abs(float(row[0]) - w[0]) <= 0.000501 and abs(float(row[1]) - w[1]) <= 0.501 and abs(float(row[2]) - w[2]) <= 0.00501):
                raise Bad('the decile table lists %r for the level %.2f, should be %r' % (row, k / 20, w))
        st.outcome(rows)
    else:
        want = float((g > 0).sum()) * a['spacing'] ** 2
        txt = '\n'.join(lines)
        m2 = re.search(r'(%s)\s*\[m\^?2\]' % num, txt[txt.rfind('Capture Zone Area'):])
        m3 = re.search(r'(%s)\s*\[acres\]' % num, txt[txt.rfind('Capture Zone Area'):])
        if not m2 or not m3:
            raise Bad('the log does not state the area of the capture zone')
        if abs(float(m2.group(1).replace(',', '')) - want) > 0.501 or abs(float(m3.group(1).replace(',', '')) - want / 4046.86) > 0.00501:
            raise Bad('the log states %s m2 and %s acres, should be %r and %r' % (m2.group(1), m3.group(1), want, want / 4046.86))
        st.outcome(want)


def grids(shapes, weights, limit=None):
    for nr, nc in shapes:
        cells = [(i, j) for i in range(nr) for j in range(nc)]
        inner = [(i, j) for i, j in cells if 0 < i < nr - 1 and 0 < j < nc - 1]
        use = inner if limit is None else (inner + [c for c in cells if c not in inner])[:limit]
        for ws in itertools.product(weights, repeat=len(use)):
            if any(ws):
                yield nr, nc, tuple((i, j, w) for (i, j), w in zip(use, ws) if w)


def main(ctx):
    runs.warm()
    cases = []
    frames = [(5.0, 0.0, 0.0), (2.5, 302338.25, 5162551.75), (100.0, -250.0, 17.0)]
    for n, (nr, nc, cells) in enumerate(grids(ctx.pick([(3, 3), (3, 5), (5, 3), (4, 4)], [(3, 3), (3, 5), (5, 3), (4, 4), (4, 5), (3, 8), (6, 3)]), (0.0, 1.0, 2.0, 3.0))):
        f = frames[n % 3]
        cases.append((nr, nc) + f + (cells, 3.0))
    for nr, nc, cells in grids([(3, 4)], (0.0, 0.5, 2.0), ctx.pick(5, 8)):
        cases.append((nr, nc, 3.0, 1.0, 2.0, cells, 2.0))
    for nr, nc, cells in grids([(3, 3)], (0.0, 1.0), ctx.pick(8, 9)):
        cases.append((nr, nc, 60.0, 1.0, 2.0, cells, 1.0))
    for n, (nr, nc, cells) in enumerate(grids([(4, 5), (9, 12), (40, 30), (150, 130)], (0.0, 0.1, 0.7), ctx.pick(3, 5))):
        cases.append((nr, nc, (3.7, 0.3, 33.3)[n % 3], 1.0, 2.0, cells, 0.8))
    ctx.run('impact curves', impact, cases)
    det = []
    for n, (nr, nc, cells) in enumerate(grids([(3, 4), (4, 3), (4, 4), (5, 4)], (0.0, 1.0), ctx.pick(6, 9))):
        fr = [(5.0, 5.0, 0.0, 0.0), (2.0, 7.5, 302338.25, 5162551.75), (10.0, 4.0, -33.0, 12.5)][n % 3]
        det.append((nr, nc) + fr + (cells, 1.0, n % 3 + 3 * (n % 4 == 1)))
    for n, (nr, nc, cells) in enumerate(grids([(3, 4), (5, 4)], (0.0, 0.001, 3.0), ctx.pick(4, 6))):
        fr = [(5.0, 5.0, 0.0, 0.0), (2.0, 7.5, 302338.25, 5162551.75), (10.0, 4.0, -33.0, 12.5)][n % 3]
        det.append((nr, nc) + fr + (cells, (0.5, 3.001, 1000.0)[n % 3], n % 3 + 3 * (n % 4 == 1)))
    for n, (nr, nc, cells) in enumerate(grids([(3, 4), (5, 4)], (0.0, 1.0), 4)):
        det.append((nr, nc) + [(0.03125, 0.0175, 1.0, 2.0), (0.0007, 0.0007, -0.5, 3.0), (5000.0, 12345.5, -33.0, 12.5)][n % 3] + (cells, 1.0, n % 3))
    ctx.run('deterministic maps', deterministic, det)
    prob = []
    for n, (nr, nc, cells) in enumerate(grids([(3, 4), (4, 3), (4, 4), (5, 6)], (0.0, 1.0, 4.0), ctx.pick(3, 5))):
        fr = [(5.0, 5.0, 0.0, 0.0), (2.0, 7.5, 302338.25, 5162551.75), (10.0, 4.0, -33.0, 12.5)][n % 3]
        for s in (None, 0, 0.3, 0.5, 1, 2.5) if ctx.thorough else ((None, 0, 1)[n % 3], (0.5, 2.5, 1, 0.3)[n % 4]):
            prob.append((nr, nc) + fr + (cells, 4.0, s, n % 3 + 3 * (n % 4 == 1)))
    ctx.run('probability maps', probability, prob)
    ctx.run('fields without weight', empty, [(w, k, d, gx, gy) for d in (5.0, 0.5, 25.0) for gx, gy in ((0.0, 0.0), (302338.25, 5162551.75)) for w in ('impact', 'probability', 'deterministic') for k in ('fresh', 'inserted', 'reset', 'weightless')])
    overs = [dict(), dict(smooth=0), dict(wells='pair', smooth=2), dict(spacing=3.0, umbra=5.0), dict(regime='unconfined', spacing=9.0), dict(buffer=115.0), dict(spacing=66.5, umbra=70.0), dict(spacing=4000.25, umbra=16100.0)]
    cs = [(n, tuple(o.items()), k) for n in ctx.pick((1, 2, 4, 10, 20), (1, 2, 3, 4, 7, 10, 20, 40)) for o in overs for k in ctx.pick((1,), (1, 2, 3, 4))]
    for o in (dict(wells='six', lists=True), dict(wells='six', umbra=5, spacing=8, duration=4), dict(wells='three', lists=True), dict(wells='three', lists=True, regime='thin', k=60.0, thick=8.0), dict(many=25), dict(std=0.003), dict(npaths=12, maxstep=30.0), dict(ox=302338.25, oy=5162551.75, wells='pair'), dict(ox=-2048.0, oy=-1024.0, wells='three'), dict(umbra=4, spacing=6, duration=3, base=100, lists=True)):
        cs += [(n, tuple(o.items()), 1) for n in (1, 3)]
    many = dict(npaths=1, spacing=0.5, umbra=0.8, smooth=0, tol=1, maxstep=8.0)
    cs += [(n, tuple(many.items()), k) for n in ctx.pick((99, 199), (99, 101, 199, 299, 997, 1999)) for k in (1, 2)]
    ctx.run('whole runs', whole, cs)
    ctx.bounds = dict(impact=len(cases), deterministic=len(det), probability=len(prob), runs=len(cs))
