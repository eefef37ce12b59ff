"""C03: every track over a lattice of vertices, against exact distances; and the segment distance itself over a lattice of geometries."""
import itertools
from fractions import Fraction

import numpy as np

from mc import ref
from mc.core import Bad
from oneka.probabilityfield import ProbabilityField

ID = 'C03'
LEVEL = 'exploration'
RULE = ('exhaustive products: all tracks of 2 (and 3, 4) vertices over vertex lattices x umbrae x grids, judged node by node against exact rational '
        'distances; all (a, b, c) triples over lattices for the distance; an outcome is the set of marked nodes (or the distance)')
ASSUMPTIONS = ['a node at exactly the umbra is judged only where its offset from the track is axis-aligned (elsewhere rounding may decide)']

GRIDS = [  # dx, dy, xo, yo, offset of the vertex lattice
    (1.0, 1.0, 0.0, 0.0), (0.5, 1.0, 0.25, 0.0), (1.0, 1.0, None, None), (2.0, 0.75, 302338.0, 5162551.5)]
ROUNDED = (0.1, 3.3, 1.3)     # spacings that are not dyadic: node coordinates are rounded, near ties are not judged
GRIDS += [(0.1, 0.3, 0.7, -0.2), (3.3, 2.7, 302338.3, 5162551.7), (1.3, 0.9, 52338.3, -71662.7)]
UMBRAE = [0.375, 1.0, 1.4375, 3.1875]


def marked(v, umbra, pf, pad=0):
    """Exact set of lattice nodes closer than umbra (and those at exactly umbra), over the grid padded by pad nodes."""
    x = [Fraction(float(pf.xmin)) + Fraction(pf.deltax) * j for j in range(-pad, pf.ncols + pad)]
    y = [Fraction(float(pf.ymin)) + Fraction(pf.deltay) * i for i in range(-pad, pf.nrows + pad)]
    X, Y = np.meshgrid([float(a) for a in x], [float(a) for a in y])
    d = ref.polyline_dist([a for a, b in v], [b for a, b in v], X, Y).reshape(X.shape)
    inside = d < umbra - 1e-6
    unsure = np.zeros(d.shape, bool)
    u2 = Fraction(umbra) ** 2
    if pf.deltax in ROUNDED:
        return inside, np.abs(d - umbra) <= 1e-6
    for i, j in np.argwhere(np.abs(d - umbra) <= 1e-6):
        best, axis = None, False
        for k in range(len(v) - 1):
            e = ref.dist2_exact(*v[k], *v[k + 1], x[j], y[i])
            if best is None or e < best:
                best, axis = e, False
            if e == best:
                (ax, ay), (bx, by) = v[k], v[k + 1]
                axis = axis or axis_aligned(ax, ay, bx, by, float(x[j]), float(y[i]))
        inside[i, j] = best < u2
        unsure[i, j] = best == u2 and not axis
    return inside, unsure


def axis_aligned(ax, ay, bx, by, cx, cy):
    if ax == bx:
        return min(ay, by) <= cy <= max(ay, by) or cx == ax
    if ay == by:
        return min(ax, bx) <= cx <= max(ax, bx) or cy == ay
    return False


def field(g):
    return ProbabilityField(g[0], g[1]) if g[2] is None else ProbabilityField(g[0], g[1], g[2], g[3])


def track(case, st):
    g, v, umbra, how = case
    ox, oy = (0.0, 0.0) if g[2] is None else (g[2], g[3])
    v = [(ox + a, oy + b) for a, b in v]
    pf = field(g)
    xs, ys = [a for a, b in v], [b for a, b in v]
    weights = np.zeros((0, 0)), 0.0
    if how == 'rasterize':
        pf.rasterize(xs, ys, umbra)
    elif how == 'arrays':
        pf.rasterize(np.array(xs), np.array(ys), umbra)
    elif how == 'regrown':       # something else was there before: same marks, in addition
        pf.expand(ox - 4.0, ox - 3.5, oy - 0.5, oy + 5.25)
        pf.rasterize(xs, ys, umbra)
    elif how == 'later':         # in a later realization: the track of an earlier one has given the grid its size
        pf.rasterize([ox - 4.0, ox - 4.0, ox + 5.0], [oy + 5.0, oy - 4.0, oy - 4.0], 0.375)
        pf.register(0.5)
        weights = np.array(pf.pgrid), 0.5
        pf.rasterize(xs, ys, umbra)
    else:                        # 'insert': marks within whatever grid there is, and only there
        pf.expand(ox - 1.5, ox + 1.25, oy - 1.0, oy + 2.5)
        for k in range(len(v) - 1):
            pf.insert(xs[k], ys[k], xs[k + 1], ys[k + 1], umbra)
    r = np.asarray(pf.rgrid).astype(bool)
    if how == 'insert':
        want, unsure = marked(v, umbra, pf)
    else:
        pad = int(umbra / min(g[0], g[1])) + 2
        full, funsure = marked(v, umbra, pf, pad)
        want, unsure = full[pad:-pad, pad:-pad], funsure[pad:-pad, pad:-pad]
        if full.sum() != want.sum():
            raise Bad('%d nodes closer than the umbra lie outside the grid and are lost' % (full.sum() - want.sum()))
    bad = (r != want) & ~unsure
    if bad.any():
        i, j = np.argwhere(bad)[0]
        raise Bad('node (%r, %r): marked=%r, distance %r, umbra %r' % (pf.xmin + j * g[0], pf.ymin + i * g[1], bool(r[i, j]), float(
            ref.polyline_dist(xs, ys, [pf.xmin + j * g[0]], [pf.ymin + i * g[1]])[0]), umbra))
    if abs(np.asarray(pf.pgrid).sum() - weights[0].sum()) or pf.total_weight != weights[1]:
        raise Bad('inserting a track changed the accumulated weights')
    st.outcome((r.shape, r.tobytes()))


def distance(case, st):
    a, scale, off, kind = case
    rng = [-2, -1, 0, 1, 3]
    worst = 0.0
    conv = {'float': float, 'np': np.float64, 'int': int}[kind]
    pts = [(x, y) for x in rng for y in rng]
    for b in pts:
        for c in pts:
            q = [conv(off[k % 2] + scale * z) for k, z in enumerate((*a, *b, *c))]
            want = float(ref.dist2_exact(*q))
            got = ProbabilityField.distancesquared(*q)
            size = max((scale * 5) ** 2, want)
            if not abs(float(got) - want) <= 1e-9 * size:
                raise Bad('distance squared %r, should be %r' % (got, want), case=tuple(q), fn='one_distance')
            worst = max(worst, abs(float(got) - want))
            st.evaluations += 1
        st.outcome((a, b, scale, off))


def one_distance(case, st):
    want = float(ref.dist2_exact(*case))
    got = ProbabilityField.distancesquared(*case)
    if not abs(float(got) - want) <= 1e-9 * max(want, 1.0):
        raise Bad('distance squared %r, should be %r' % (got, want))


def main(ctx):
    def keep(cases):      # the finest grid only with the smaller umbrae (cost)
        return [c for c in cases if c[0][0] != 0.1 or c[2] < 1.0 or ctx.thorough]
    ctx.bounds = dict(grids=GRIDS, umbrae=UMBRAE)
    rng = [-2, -1, 0, 1, 3]
    cases = [((x, y), s, off, k) for x in rng for y in rng
             for s, off, k in ((1, (0, 0), 'int'), (1.0, (0.0, 0.0), 'float'), (0.375, (12.5, -3.25), 'float'), (250.0, (0.0, 0.0), 'np'), (2.5, (302338.25, 5162551.5), 'np'), (2.0 ** -14, (0.0, 0.0), 'float'), (2.0 ** -10, (1.0, -2.0), 'np'), (2.0 ** 20, (0.0, 0.0), 'float'))]
    ctx.run('segment distance', distance, cases)
    pos = [-2.0, -0.75, 0.0, 0.5, 1.25, 3.0] if not ctx.thorough else [-3.5, -2.0, -0.75, -0.25, 0.0, 0.5, 1.25, 2.125, 3.0]
    pts = [(a, b) for a in pos for b in pos]
    two = [(p, q) for p in pts for q in pts]
    cases = [(g, v, u, 'rasterize') for g in GRIDS for u in UMBRAE for v in (two if g in GRIDS[:4] or ctx.thorough else two[::5])]
    ctx.run('two-vertex tracks', track, keep(cases))
    fine = [(a, b) for a in (0.0, 0.0625, -0.90625, 1.0) for b in (0.0, -0.046875, 2.0, 2.09375)]
    ctx.run('umbrae much smaller than the spacing', track, [(g, (p, q), u, how) for g in GRIDS[:4] for u in (0.03125, 0.0625, 0.09375) for p in fine for q in fine for how in ('rasterize', 'regrown')])
    scaled = []
    for s in (2.0 ** -12, 2.0 ** -9, 2.0 ** 10, 2.0 ** 17):
        for g in ((1.0, 1.0, 0.0, 0.0), (0.5, 1.0, None, None)) + (((2.0, 0.75, 302338.0, 5162551.5),) if s > 2.0 ** -10 else ()):
            for k, (p, q) in enumerate(two):
                if ctx.thorough or k % 3 == 0:
                    scaled.append(((g[0] * s, g[1] * s) + g[2:], ((p[0] * s, p[1] * s), (q[0] * s, q[1] * s)), UMBRAE[k % 4] * s, ('rasterize', 'arrays')[k % 2]))
    ctx.run('in other units of length', track, scaled)
    small = [(a, b) for a in (-1.25, 0.0, 2.5) for b in (-0.5, 1.0)]
    k = ctx.pick(3, 4)
    cases = [(GRIDS[n % len(GRIDS)], v, UMBRAE[1 + n % 2], ('arrays', 'rasterize', 'regrown')[n % 3])
             for n, v in enumerate(v for m in range(3, k + 1) for v in itertools.product(small, repeat=m))]
    ctx.run('tracks of three and more vertices', track, cases)
    cases = [(g, v + v[:1], UMBRAE[(k + n) % 4], how) for k, g in enumerate(GRIDS[:4]) for n, v in enumerate(v for m in (3, ctx.pick(3, 4)) for v in itertools.permutations(small, m))
             for how in (('rasterize', 'arrays', 'regrown', 'later')[n % 4],)]
    ctx.run('closed tracks', track, cases)
    cases = [(g, v, u, how) for how in ('insert', 'regrown', 'later') for g in GRIDS for u in UMBRAE for v in two[::ctx.pick(23, 3)]]
    ctx.run('on a grid that already exists', track, keep(cases))
    many = []
    for n in (5, 17, 64, 129):
        t = np.linspace(0.0, 7.0, n)
        many.append(tuple((round(8 * (0.3 + 0.9 * a) * np.cos(a)) / 8, round(8 * (0.3 + 0.9 * a) * np.sin(a)) / 8) for a in t))      # a spiral
        many.append(tuple((round(16 * a) / 16, (k % 2) * 0.5) for k, a in enumerate(t)))                                             # a zigzag
        many.append(tuple((0.25, -round(16 * a) / 16) for a in t) + ((0.25, -7.0),) * 3)                                              # stands still at the end
        many.append(((0.5, 0.5),) * n)
    many += [v[::-1] for v in many]
    ctx.run('tracks of many vertices', track, [(g, v, u, how) for g in GRIDS for v in many for u in UMBRAE for how in ('rasterize', 'arrays') if how == 'rasterize' or ctx.thorough or len(v) < 65 and g[0] != 0.1 and u < 3], chunk=4)
    huge = []
    for n in ctx.pick((1500, 3000), (1001, 1025, 1500, 2049, 3000, 5000)):
        t = np.linspace(0.0, 7.0, n)
        huge.append(tuple((round(64 * (0.3 + 0.9 * a) * np.cos(a)) / 64, round(64 * (0.3 + 0.9 * a) * np.sin(a)) / 64) for a in t))
        huge.append(tuple((round(256 * a) / 256, (k % 2) * 0.125) for k, a in enumerate(t)))
        if n >= 3000:
            huge.append(tuple((k / 512, k / 1024) for k in range(n)))          # segments of a few thousandths of the umbra
    ctx.run('tracks of very many vertices', track, [(g, v[::s], u, how) for k, g in enumerate((GRIDS[0], GRIDS[3])) for v in huge for s in (1, -1)
                                                    for u, how in (((1.0, 'rasterize'), (1.4375, 'arrays')) if ctx.thorough else (((1.0, 'rasterize'), (1.4375, 'arrays'))[k],))], chunk=1)
    far = [((0.25, 0.5), (x, y)) for x in (-40.0, 0.25, 60.5) for y in (-25.0, 0.5, 33.25)]
    away = [((0.25, 0.5), p) for p in ((-470.0, 3.5), (3.5, -470.0), (480.5, 2.0), (-1.0, 480.5))]
    ctx.run('distant ends', track, [(g, v, u, how) for g in (GRIDS[:2] + GRIDS[3:4]) for v in away for u in UMBRAE[1:3] for how in ('rasterize', 'regrown')])
    ctx.run('long segments', track, [(g, v, u, 'rasterize') for g in GRIDS for v in far for u in (UMBRAE if ctx.thorough else UMBRAE[1:3])])
