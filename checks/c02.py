"""C02: every sequence of extent requests on a real grid, against the lattice model."""
import itertools
import math

import numpy as np

from mc.core import Bad
from oneka.probabilityfield import ProbabilityField, RangeError

ID = 'C02'
LEVEL = 'model_checking'
RULE = ('all sequences of extent requests up to the bound over the product of the x and y interval alphabets, on painted grids; an outcome is the '
        'sequence of grid geometries; reversed requests are included in the alphabet')
ASSUMPTIONS = ['requests that touch an edge exactly are only made where the arithmetic is exact (dyadic configurations)']

# intervals in units of the spacing, relative to the origin; the second set avoids exact touches
EXACT = [(0.0, 0.0), (-1.0, 0.25), (-0.5, 1.0), (-3.25, -3.25), (-2.0, 4.5), (0.5, 2.0), (7.75, 8.0)]
FUZZY = [(0.1, 0.1), (-1.3, 0.25), (-0.5, 1.4), (-3.3, -3.3), (-2.1, 4.6), (0.4, 2.2), (7.7, 8.1)]
REVERSED = (0.5, -1.5)
CONFIGS = [  # dx, dy, xo, yo (None: no origin), exact arithmetic?
    (1.0, 1.0, 0.0, 0.0, True),
    (0.5, 2.0, 3.25, -8.5, True),
    (2.0, 4.0, None, None, True),
    (0.1, 0.3, 0.7, -0.2, False),
    (10.0, 7.0, 302338.3, 5162551.7, False),
    (2.5, 3.1, None, None, False),
    (4.0, 4.0, -1048576.0, 5242880.0, True),
    (2.0 ** -9, 2.0 ** -8, 0.75, -8.0, True),
    (1.0, 0.5, None, None, True, (302338.0, 5162551.5)),       # no origin, first asked for far from zero
]


def paint(i, j):
    return 1.0 + ((i * 31 + j * 17) % 97) / 8.0


def base(cfg):
    if len(cfg) > 5:
        return cfg[5]
    return (0.0, 0.0) if cfg[2] is None else (cfg[2], cfg[3])


def geometry(pf, cfg, anchor):
    """Checks internal agreement; returns lattice indices (i0, j0) of the lower left node."""
    dx, dy = cfg[0], cfg[1]
    if pf.deltax != dx or pf.deltay != dy:
        raise Bad('spacings changed to (%r, %r)' % (pf.deltax, pf.deltay))
    p, r = np.asarray(pf.pgrid), np.asarray(pf.rgrid)
    if p.shape != (pf.nrows, pf.ncols) or r.shape != (pf.nrows, pf.ncols):
        raise Bad('shapes %r/%r but %r rows, %r columns' % (p.shape, r.shape, pf.nrows, pf.ncols))
    scale = max(1.0, abs(pf.xmin), abs(pf.xmax), abs(pf.ymin), abs(pf.ymax))
    tol = 1e-11 * scale + 1e-9 * max(dx, dy)
    if abs(pf.xmin + (pf.ncols - 1) * dx - pf.xmax) > tol or abs(pf.ymin + (pf.nrows - 1) * dy - pf.ymax) > tol:
        raise Bad('bounds [%r, %r] x [%r, %r] do not fit %r columns and %r rows'
                  % (pf.xmin, pf.xmax, pf.ymin, pf.ymax, pf.ncols, pf.nrows))
    fj, fi = (pf.xmin - anchor[0]) / dx, (pf.ymin - anchor[1]) / dy
    j0, i0 = round(fj), round(fi)
    if abs(fj - j0) * dx > tol or abs(fi - i0) * dy > tol:
        raise Bad('the grid left its lattice: lower left node (%r, %r), anchor %r' % (pf.xmin, pf.ymin, anchor))
    return i0, j0, tol


def history(case, st):
    cfg, hist = case
    dx, dy, exact = cfg[0], cfg[1], cfg[4]
    ox, oy = base(cfg)
    pf = ProbabilityField(dx, dy) if cfg[2] is None else ProbabilityField(dx, dy, cfg[2], cfg[3])
    anchor, painted, obs = None, None, []

    def start():
        i0, j0, _ = geometry(pf, cfg, (pf.xmin, pf.ymin))
        if np.asarray(pf.pgrid).any() or np.asarray(pf.rgrid).any():
            raise Bad('a fresh grid is not empty')
        d = {}
        for i in range(pf.nrows):
            for j in range(pf.ncols):
                pf.pgrid[i, j] = paint(i, j)
                pf.rgrid[i, j] = (i + 2 * j) % 3 == 0
                d[(i, j)] = (paint(i, j), (i + 2 * j) % 3 == 0)
        pf.total_weight = 2.5
        return (pf.xmin, pf.ymin), d
    if cfg[2] is not None:
        anchor, painted = start()
        if not (pf.xmin < ox < pf.xmax and pf.ymin < oy < pf.ymax):
            raise Bad('the origin is not inside the initial grid')
        tol0 = 1e-9 * max(1.0, abs(ox), abs(oy))
        if abs((ox - pf.xmin) / dx - round((ox - pf.xmin) / dx)) * dx > tol0 or abs((oy - pf.ymin) / dy - round((oy - pf.ymin) / dy)) * dy > tol0:
            raise Bad('the origin is not a node of the initial grid')
    for xi, yi in hist:
        x0, x1 = ox + xi[0] * dx, ox + xi[1] * dx
        y0, y1 = oy + yi[0] * dy, oy + yi[1] * dy
        fresh = anchor is None
        old = None if fresh else (pf.nrows, pf.ncols, pf.xmin, pf.xmax, pf.ymin, pf.ymax,
                                  np.array(pf.pgrid), np.array(pf.rgrid), pf.total_weight)
        st.transitions += 1
        if x0 > x1 or y0 > y1:
            try:
                pf.expand(x0, x1, y0, y1)
            except RangeError:
                pass
            else:
                raise Bad('a reversed extent was accepted')
            if fresh:
                if pf.nrows or pf.ncols:
                    raise Bad('a refused request changed an empty grid')
            elif not same(pf, old):
                raise Bad('a refused request changed the grid')
            obs.append('refused')
            continue
        pf.expand(x0, x1, y0, y1)
        if fresh:
            anchor, painted = start()
            i0, j0, tol = geometry(pf, cfg, anchor)
        else:
            i0, j0, tol = geometry(pf, cfg, anchor)
            if not (pf.xmin <= old[2] + tol and pf.xmax >= old[3] - tol and pf.ymin <= old[4] + tol and pf.ymax >= old[5] - tol):
                raise Bad('the grid shrank')
            slack = 0.0 if exact else tol          # an exact touch is a matter of rounding where the arithmetic is not exact
            if old[2] + slack < x0 and x1 + slack < old[3] and old[4] + slack < y0 and y1 + slack < old[5] and not same(pf, old):
                raise Bad('a request strictly inside the grid changed it')
            if pf.total_weight != 2.5:
                raise Bad('growth changed the total weight')
            if np.any(np.asarray(pf.pgrid) != 0) and len(painted) > pf.nrows * pf.ncols:
                raise Bad('nodes were lost')
            cnt = 0
            p, r = np.asarray(pf.pgrid), np.asarray(pf.rgrid)
            for (i, j), (w, b) in painted.items():
                if not (0 <= i - i0 < pf.nrows and 0 <= j - j0 < pf.ncols):
                    raise Bad('node (%d, %d) of the lattice was lost' % (i, j))
                if p[i - i0, j - j0] != w or bool(r[i - i0, j - j0]) != b:
                    raise Bad('contents moved: lattice node (%d, %d) held %r, now holds %r' % (i, j, (w, b), (p[i - i0, j - j0], bool(r[i - i0, j - j0]))))
                cnt += b
            if np.count_nonzero(p) != len(painted) or np.count_nonzero(r) != cnt:
                raise Bad('newly added nodes are not empty')
        slack = 0.0 if exact else tol
        if not (pf.xmin < x0 + slack and x1 < pf.xmax + slack and pf.ymin < y0 + slack and y1 < pf.ymax + slack):
            raise Bad('requested [%r, %r] x [%r, %r] not strictly inside [%r, %r] x [%r, %r]' % (x0, x1, y0, y1, pf.xmin, pf.xmax, pf.ymin, pf.ymax))
        t = tol + 1e-9 * dx
        for side, moved, excess, d in (('xmin', fresh or pf.xmin < old[2] - t, x0 - pf.xmin, dx), ('xmax', fresh or pf.xmax > old[3] + t, pf.xmax - x1, dx),
                                       ('ymin', fresh or pf.ymin < old[4] - t, y0 - pf.ymin, dy), ('ymax', fresh or pf.ymax > old[5] + t, pf.ymax - y1, dy)):
            if moved and excess > 2 * d + tol + 1e-6 * d:
                raise Bad('%s was moved %g spacings beyond the request' % (side, excess / d))
        obs.append((pf.nrows, pf.ncols, i0, j0))
    st.traces += 1
    st.outcome(obs)


def same(pf, old):
    return (pf.nrows, pf.ncols, pf.xmin, pf.xmax, pf.ymin, pf.ymax) == old[:6] and np.array_equal(pf.pgrid, old[6]) \
        and np.array_equal(pf.rgrid, old[7]) and pf.total_weight == old[8]


def constructor(case, st):
    dx, dy, o = case
    ok = dx > 0 and dy > 0
    try:
        pf = ProbabilityField(dx, dy) if o is None else ProbabilityField(dx, dy, *o)
    except RangeError:
        if ok:
            raise Bad('positive spacings refused')
    else:
        if not ok:
            raise Bad('a non-positive spacing was accepted')
        if o is None and (pf.nrows, pf.ncols) != (0, 0):
            raise Bad('a field without an origin has nodes')
    st.outcome((ok, o is None))


def main(ctx):
    ctx.run('constructor', constructor, [(a, b, o) for a in (1.0, 0.25, 0, -1, -0.5, 0.0, 10) for b in (1.0, 2, 0, -3.0, 0.0)
                                         for o in (None, (0.0, 0.0), (5.5, -3.25))])
    ctx.bounds = dict(configurations=CONFIGS, intervals_exact=EXACT, intervals_fuzzy=FUZZY)
    for n in (1, 2):
        cases = []
        for cfg in CONFIGS:
            al = EXACT if cfg[4] else FUZZY
            req = [(a, b) for a in al for b in al] + [(REVERSED, al[0]), (al[4], REVERSED), (REVERSED, REVERSED)]
            cases += [(cfg, h) for h in itertools.product(req, repeat=n)]
        ctx.run('all %d-request histories' % n, history, cases)
    cases = []
    for cfg in CONFIGS:
        al = EXACT if cfg[4] else FUZZY
        al = al if ctx.thorough else al[1:]
        req = [(a, b) for a in al for b in al]
        if ctx.thorough:
            req += [(REVERSED, al[0]), (al[4], REVERSED)]
        if not ctx.thorough:
            req = [q for k, q in enumerate(req) if k % 2 == 0] + [(REVERSED, al[0])]
        cases += [(cfg, h) for h in itertools.product(req, repeat=3)]
    ctx.run('3-request histories', history, cases)
    near = []
    for cfg in CONFIGS:
        for e in (2.0 ** -6, 2.0 ** -20, 2.0 ** -30):
            al = [(0.0, 0.0), (-1 + e, 0.0), (-1 - e, 0.0), (0.0, 1 - e), (0.0, 1 + e), (-1.0, 1.0)]
            if not cfg[4]:
                al = [(0.1, 0.1)]
            rev = [(e, 0.0), (3.0, 3 - e), (0.0, -1.0)]
            req = [(a, b) for a in al for b in al] + [(r, al[0]) for r in rev] + [(al[0], r) for r in rev]
            near += [(cfg, h) for n in ctx.pick((1, 2), (1, 2)) for h in itertools.product(req, repeat=n)]
    ctx.run('within a hair of an edge', history, near)
    long = []
    for cfg in CONFIGS:
        for sx in (-1, 0, 1):
            for sy in (-1, 0, 1):
                for step in (0.35, 1.15):
                    h = tuple(((min(0, sx * k * step), max(0, sx * k * step)), (min(0, sy * k * step), max(0, sy * k * step))) for k in range(1, ctx.pick(25, 120)))
                    long.append((cfg, h))
    ctx.run('long creeping histories', history, long)
    far = []
    for cfg in CONFIGS:
        for n in ctx.pick((100.4, 1500.4), (100.4, 300.4, 700.4, 1500.4, 2600.4, 5000.4)):
            for sx in (-1, 0, 1):
                for sy in (-1, 0, 1):
                    if (sx, sy) != (0, 0):
                        one = ((min(0, sx * n), max(0, sx * n)), (min(0, sy * (n if sx == 0 else 0.3)), max(0, sy * (n if sx == 0 else 0.3))))
                        two = ((min(0, -sx * n), max(0, sx * (n + 2))), (min(0, -sy * 3.4), max(0, sy * (n + 3 if sx == 0 else 3.4))))
                        three = ((-1.4, 1.4), (-9.4, 9.4))
                        far += [(cfg, (one, two, three)), (cfg, (three, one, two)), (cfg, (two, three)), (cfg, (one, ((0.3, 0.3), REVERSED), (REVERSED, (0.3, 0.3))))]
    ctx.run('far requests', history, far, limit=120)
