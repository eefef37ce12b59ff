"""C01: explicit-state search over all operation histories of one probability field against an exact ledger."""
from fractions import Fraction

import numpy as np

from mc import ref
from mc.core import Bad, bfs
from oneka.probabilityfield import ProbabilityField

ID = 'C01'
LEVEL = 'model_checking'
RULE = ('breadth-first search over histories of rasterize/register/reset/expand on a real ProbabilityField, rebuilt from scratch for '
        'every history; a state is (bounds, shape, pgrid, rgrid, total weight); distinct states are the non-trivial outcomes')
ASSUMPTIONS = ['track vertices, spacings, umbrae and weights come from the stated dyadic alphabet (arithmetic is then exact)',
               'nodes at exactly the umbra are not judged here (C03 judges them)']

TRACKS = {
    'in': [(-0.25, 0.25), (0.5, 0.25)],
    'east': [(0.25, 0.0), (3.25, 1.5)],
    'southwest': [(-0.25, -0.5), (-3.75, -2.25), (-3.5, -4.75)],
    'point': [(0.25, 0.25), (0.25, 0.25)],
    'north': [(0.75, 5.25), (0.75, -0.25)],
    'back': [(3.25, 1.5), (0.25, 0.0), (0.25, -3.0)],
}
EXPANDS = [(-0.5, 0.5, -0.5, 0.5), (-5.25, 0.0, 0.0, 0.0), (0.0, 6.5, -1.0, 7.0), (0.0, 0.0, -7.5, 0.5)]
CONFIGS = [(1.0, 1.0, 0.0, 0.0), (1.0, 2.0, 0.25, -0.5), (0.5, 0.75, None, None), (1.0, 1.0, 302338.0, 5162551.5)]
MORE = [(1.0, 1.0, -302338.0, -5162551.5), (0.5, 1.25, -48.0, 64.0), (0.25, 0.5, 24.0, -32.0), (1.0, 1.0, None, None, (302338.0, 5162551.5)), (0.5, 1.0, None, None, (-64.0, 4096.5)), (0.125, 0.25, 16.0, -8.0)]
HALF = 40


def half(dx, dy):
    return HALF if min(dx, dy) > 0.2 else 2 * HALF


_cover = {}


def cover(track, umbra, dx, dy, px, py, ox, oy):
    """Which nodes of the unbounded lattice through phase (px, py) are closer than umbra: (bool, tie) arrays over a square of them."""
    key = (track, umbra, dx, dy, px, py)
    if key not in _cover:
        hw = half(dx, dy)
        n = 2 * hw
        m = np.zeros((n, n), bool)
        tie = np.zeros((n, n), bool)
        u2 = Fraction(umbra) ** 2
        v = TRACKS[track]
        gx = np.array([px + (j - hw) * dx for j in range(n)])
        gy = np.array([py + (i - hw) * dy for i in range(n)])
        X, Y = np.meshgrid(gx, gy)
        d = ref.polyline_dist([a for a, b in v], [b for a, b in v], X, Y).reshape(n, n)
        m[d < umbra - 1e-6] = True
        for i, j in np.argwhere(np.abs(d - umbra) <= 1e-6):      # decide these exactly
            e = min(ref.dist2_exact(*v[k], *v[k + 1], gx[j], gy[i]) for k in range(len(v) - 1))
            m[i, j] = e < u2
            tie[i, j] = e == u2
        _cover[key] = (m, tie)
    return _cover[key]


def origin(cfg):
    if len(cfg) > 4:
        return cfg[4]
    return (cfg[2], cfg[3]) if cfg[2] is not None else (0.0, 0.0)


def apply_op(pf, op, cfg):
    ox, oy = origin(cfg)
    if op[0] == 'T':
        v = TRACKS[op[1]]
        pf.rasterize([ox + a for a, b in v], [oy + b for a, b in v], op[2])
    elif op[0] == 'R':
        pf.register(op[1])
    elif op[0] == 'Z':
        pf.reset()
    elif op[0] == 'E':
        pf.expand(ox + op[1], ox + op[2], oy + op[3], oy + op[4])


def make(cfg):
    if cfg[2] is None:
        return ProbabilityField(cfg[0], cfg[1])
    return ProbabilityField(cfg[0], cfg[1], cfg[2], cfg[3])


def ledger(hist):
    """The reference model: what was registered (weight, set of tracks), what is in progress, and whether there is any extent."""
    done, cur, total = [], set(), 0.0
    for op in hist:
        if op[0] == 'T':
            cur.add((op[1], op[2]))
        elif op[0] == 'R':
            done.append((op[1], frozenset(cur)))
            total += op[1]
            cur = set()
        elif op[0] == 'Z':
            cur = set()
    return done, cur, total


def judge(pf, hist, cfg):
    dx, dy = cfg[0], cfg[1]
    ox, oy = origin(cfg)
    done, cur, total = ledger(hist)
    slack = 1e-12 * sum(abs(w) for w, _ in done)        # weights may be of any magnitude
    if abs(float(pf.total_weight) - total) > slack:
        raise Bad('total weight is %r, the registered weights sum to %r' % (float(pf.total_weight), total))
    has_extent = cfg[2] is not None or any(o[0] in 'TE' for o in hist)
    if not has_extent:
        return
    p = np.asarray(pf.pgrid, float)
    r = np.asarray(pf.rgrid).astype(bool)
    if p.shape != (pf.nrows, pf.ncols) or r.shape != p.shape:
        raise Bad('grids of shape %r, %r for %r rows and %r columns' % (p.shape, r.shape, pf.nrows, pf.ncols))
    # the lattice: node (i, j) is at (xmin + j dx, ymin + i dy); in coordinates relative to the origin
    px = float((Fraction(float(pf.xmin)) - Fraction(ox)) % Fraction(dx))
    py = float((Fraction(float(pf.ymin)) - Fraction(oy)) % Fraction(dy))
    hw = half(dx, dy)
    j0 = round((float(pf.xmin) - ox - px) / dx) + hw
    i0 = round((float(pf.ymin) - oy - py) / dy) + hw
    if i0 < 0 or j0 < 0 or i0 + pf.nrows > 2 * hw or j0 + pf.ncols > 2 * hw:
        raise Bad('the grid covers far more than was ever requested')
    win = (slice(i0, i0 + pf.nrows), slice(j0, j0 + pf.ncols))

    def union(ts):
        m = np.zeros(p.shape, bool)
        tie = np.zeros(p.shape, bool)
        for t, u in ts:
            a, b = cover(t, u, dx, dy, px, py, ox, oy)
            if a[win].sum() != a.sum():
                raise Bad('the grid does not reach all the nodes closer than %r to the track %r' % (u, t))
            m |= a[win]
            tie |= b[win]
        return m, tie & ~m
    want = np.zeros(p.shape)
    loose = np.zeros(p.shape, bool)
    for w, ts in done:
        m, tie = union(ts)
        want += w * m
        loose |= tie
    m, tie = union(cur)
    bad = (np.abs(p - want) > slack) & ~loose
    if bad.any():
        i, j = np.argwhere(bad)[0]
        raise Bad('node (%g, %g) carries weight %r, the ledger says %r' % (pf.xmin + j * dx, pf.ymin + i * dy, p[i, j], want[i, j]))
    bad = (r != m) & ~tie
    if bad.any():
        i, j = np.argwhere(bad)[0]
        raise Bad('node (%g, %g): visited=%r by the realization in progress, should be %r'
                  % (pf.xmin + j * dx, pf.ymin + i * dy, bool(r[i, j]), bool(m[i, j])))


def canon(pf):
    if not hasattr(pf, 'xmin'):
        return ('empty', float(getattr(pf, 'total_weight', 0.0)))
    return (pf.nrows, pf.ncols, float(pf.xmin), float(pf.ymin), np.asarray(pf.pgrid).tobytes(), np.asarray(pf.rgrid).tobytes(), float(pf.total_weight))


def history(case, st):
    """One history, judged after every operation (used for replays, and for the long fixed-pattern histories)."""
    cfg, hist = case
    pf = make(cfg)
    judge(pf, [], cfg)
    for n in range(len(hist)):
        apply_op(pf, hist[n], cfg)
        judge(pf, hist[:n + 1], cfg)
        st.transitions += 1
    st.traces += 1
    st.outcome(canon(pf))


def events(cfg, rich):
    ev = [('T', 'in', 0.8125), ('T', 'east', 0.8125), ('T', 'southwest', 0.8125), ('T', 'point', 0.8125), ('T', 'east', 2.3125),
          ('T', 'north', 2.3125), ('R', 1.0), ('R', 0.1), ('Z',)] + [('E',) + e for e in EXPANDS[:3]]
    if rich:
        ev += [('R', 0.0), ('R', 2), ('R', 1), ('T', 'back', 0.8125), ('T', 'southwest', 2.3125), ('T', 'in', 3.5625), ('E',) + EXPANDS[3]]
    return ev


def subtree(case, st):
    cfg, first, depth, rich = case
    evs = events(cfg, rich)

    def build(h):
        pf = make(cfg)
        for op in h:
            apply_op(pf, op, cfg)
        return pf
    if not first:
        judge(make(cfg), [], cfg)
    bfs(st, lambda x: evs, build, canon, lambda x, h: judge(x, h, cfg), depth, root=first, fnname='history',
        case_of=lambda h: (cfg, tuple(h)))


def main(ctx):
    depth = ctx.pick(4, 5)
    ctx.bounds = dict(history_length=depth, configurations=CONFIGS + MORE, tracks=TRACKS, expands=EXPANDS)
    roots = []
    for cfg in CONFIGS:
        d = depth if cfg in CONFIGS[:2] or ctx.thorough else depth - 1
        evs = events(cfg, ctx.thorough)
        roots += [(cfg, (a, b), d, ctx.thorough) for a in evs for b in evs]
    # breadth first over the short histories, so that a counterexample is a shortest one
    ctx.run('short histories', history, [(cfg, h) for cfg in CONFIGS + MORE for n in (0, 1, 2) for h in words(events(cfg, True), n)])
    ctx.run('operation histories', subtree, roots, limit=60, chunk=4)
    long = []
    for cfg in CONFIGS + MORE:
        for pat in ([('T', 'east', 0.8125), ('R', 1.0), ('E',) + EXPANDS[1]], [('E',) + EXPANDS[1], ('T', 'east', 2.3125), ('R', 2), ('E',) + EXPANDS[2], ('Z',)], [('T', 'in', 2.3125), ('T', 'north', 0.8125), ('R', 0.1)],
                    [('T', 'southwest', 2.3125), ('Z',), ('R', 1.0)], [('R', 0.1), ('T', 'back', 0.8125), ('R', 1.0), ('Z',)]):
            long.append((cfg, tuple((pat * 12)[:24])))
    for n, w in (ctx.pick(130, 400), 1.0), (ctx.pick(110, 300), 0.01), (30, 12345.5):
        for cfg in CONFIGS[:2]:
            long.append((cfg, ((('T', 'in', 0.8125), ('R', w)) * n) + (('E',) + EXPANDS[1], ('T', 'in', 0.8125), ('R', w))))
    for w in (1e-13, 3e-200, 1e200):
        for cfg in CONFIGS + MORE:
            long.append((cfg, (('T', 'in', 0.8125), ('R', w), ('T', 'east', 0.8125), ('E',) + EXPANDS[1], ('R', 2 * w), ('T', 'southwest', 0.8125), ('Z',), ('T', 'north', 2.3125), ('R', 0.0), ('T', 'in', 2.3125), ('R', w), ('R', w))))
    ctx.run('long repetitive histories', history, long)


def words(alphabet, n):
    out = [()]
    for _ in range(n):
        out = [w + (a,) for w in out for a in alphabet]
    return out
