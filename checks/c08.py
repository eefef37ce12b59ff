"""C08: traces through every field of a family, from every start, for every duration, tolerance and maximum step, against the true flow."""
import functools
import itertools
import math

import numpy as np

from mc import ref
from mc.core import Bad
from oneka.capturezone import compute_backtrace

ID = 'C08'
LEVEL = 'exploration'
RULE = ('full product of flow fields x starts x durations (of both signs) x tolerances x maximum steps, and all assignments of velocities to the cells of '
        'piecewise constant (discontinuous) fields; an outcome is the list of vertices; each step is compared with the true path through its first vertex, the '
        'last vertex with the true position after the duration')
ASSUMPTIONS = ['fields vary on scales much larger than the tolerance (that is what makes a local error estimate meaningful)',
               'the local error tolerance is the one the caller gives; a step may leave the true path by twice that',
               'termination is observed as a bound of 300000 velocity evaluations']

BUDGET = 300000
SLACK = 2.0        # the embedded estimate is an estimate; the worst ratio met is recorded in the evidence
SHIFTS = [(0.0, 0.0), (302338.0, 5162551.0)]


def _const(x, y):
    return 3.0 + 0 * x, -4.0 + 0 * x


def _slow(x, y):
    return 0.004 + 0 * x, 0.003 + 0 * x


def _zero(x, y):
    return 0.0 * x, 0.0 * x


def _rotation(x, y):
    return -0.05 * y, 0.05 * x


def _spiral(x, y):
    return 0.004 * x - 0.03 * y, 0.03 * x + 0.004 * y


def _saddle(x, y):
    return 0.02 * x, -0.02 * y


def _shear(x, y):
    return 0.5 + 0.03 * y, 0.25 + 0 * x


def _source(x, y):
    r2 = x * x + y * y
    return 40.0 * x / r2, 40.0 * y / r2


def _stream(x, y):
    r2 = x * x + y * y
    return 0.8 + 40.0 * x / r2, -0.3 + 40.0 * y / r2


def _pair(x, y):
    r2 = x * x + y * y
    s2 = (x - 300.0) ** 2 + (y + 40.0) ** 2
    return 40.0 * x / r2 - 25.0 * (x - 300.0) / s2, 40.0 * y / r2 - 25.0 * (y + 40.0) / s2


def _wave(x, y):
    return 2.0 + np.sin(y / 30.0), 1.5 * np.cos(x / 40.0)


def _accelerating(x, y):
    return 1.0 + 0.02 * (x * x + y * y + 400.0) ** 0.5, 0.1 + 0 * x


# field: (velocity, exact flow or None, growth of a disturbance over time t, starts)
FIELDS = {
    'constant': (_const, lambda x, y, t: (x + 3 * t, y - 4 * t), 0.0),
    'slow': (_slow, lambda x, y, t: (x + 0.004 * t, y + 0.003 * t), 0.0),
    'zero': (_zero, lambda x, y, t: (x, y), 0.0),
    'rotation': (_rotation, lambda x, y, t: (x * math.cos(.05 * t) - y * math.sin(.05 * t), x * math.sin(.05 * t) + y * math.cos(.05 * t)), 0.0),
    'spiral': (_spiral, lambda x, y, t: tuple(math.exp(.004 * t) * z for z in (x * math.cos(.03 * t) - y * math.sin(.03 * t), x * math.sin(.03 * t) + y * math.cos(.03 * t))), 0.004),
    'saddle': (_saddle, lambda x, y, t: (x * math.exp(.02 * t), y * math.exp(-.02 * t)), 0.02),
    'shear': (_shear, lambda x, y, t: (x + (0.5 + 0.03 * y) * t + 0.03 * 0.25 * t * t / 2, y + 0.25 * t), 0.03),
    'source': (_source, lambda x, y, t: tuple(z * math.sqrt(max(0.0, x * x + y * y + 80.0 * t) / (x * x + y * y)) for z in (x, y)), None),
    'stream': (_stream, None, None),
    'pair': (_pair, None, None),
    'wave': (_wave, None, None),
    'accelerating': (_accelerating, None, 0.02),
}


def _faster(vel, s):
    return lambda x, y: tuple(s * q for q in vel(x, y))


def _earlier(flow, s):
    return None if flow is None else lambda x, y, t: flow(x, y, s * t)


SPEEDS = (1e-4, 1e4, 1e8)
for _n, (_v, _f, _g) in list(FIELDS.items()):      # the same fields in other units of time
    for _s in SPEEDS:
        FIELDS['%s*%g' % (_n, _s)] = (_faster(_v, _s), _earlier(_f, _s), _g if _g is None else _g * _s)
EXACT = ('constant', 'slow', 'zero', 'shear')      # a fifth-order method commits no error here: the end must be where the flow leads
STARTS = [(2.0, 0.0), (-30.0, 40.0), (17.25, -61.5), (-1.0, -1.75)]


@functools.lru_cache(None)
def true_end(name, x, y, t):
    if '*' in name:
        return true_end(name.split('*')[0], x, y, t * float(name.split('*')[1]))
    vel, flow, _ = FIELDS[name]
    if flow is not None:
        return flow(x, y, t)
    (xs, ys), = ref.rk4_path(vel, [x], [y], t, 0.02 if abs(t) < 30 else 0.1)
    return float(xs[-1]), float(ys[-1])


def off_path(vel, X, Y, sgn, tol):
    """Distance of each vertex from the true path through the one before it: a coarse scan along the path, then a fine one."""
    chord = np.hypot(np.diff(X), np.diff(Y))

    def scan(i, m):
        h = (2.0 * chord[i] + 2 * tol) / m
        x, y, _ = march(vel, X[:-1][i], Y[:-1][i], X[1:][i], Y[1:][i], h, m, sgn)
        return march(vel, x, y, X[1:][i], Y[1:][i], 3 * h / 48, 48, sgn)[2]
    off = scan(np.arange(len(chord)), 48)
    doubt = np.nonzero(off > 0.5 * tol)[0]
    if len(doubt):
        off[doubt] = np.minimum(off[doubt], scan(doubt, 3000))       # the scan itself may have been too coarse
    return off


def march(vel, x0, y0, px, py, h, m, sgn):
    """Along the streamlines from (x0, y0) in m steps of length h: the node before the facet nearest to (px, py), and the distance to that facet."""
    x, y = x0.copy(), y0.copy()
    lx, ly = x, y
    bx, by = x.copy(), y.copy()
    best = np.full(x.shape, np.inf)

    def unit(x, y):
        u, v = vel(x, y)
        s = np.hypot(u, v)
        s = np.where(s > 0, s, 1.0)
        return sgn * u / s, sgn * v / s
    for k in range(m):
        a, b = unit(x, y)
        c, d = unit(x + h / 2 * a, y + h / 2 * b)
        e, f = unit(x + h / 2 * c, y + h / 2 * d)
        g, i = unit(x + h * e, y + h * f)
        nx, ny = x + h / 6 * (a + 2 * c + 2 * e + g), y + h / 6 * (b + 2 * d + 2 * f + i)
        ux, uy = nx - x, ny - y
        l2 = ux * ux + uy * uy
        t = np.clip(((px - x) * ux + (py - y) * uy) / np.where(l2 > 0, l2, 1.0), 0, 1)
        dist = np.hypot(px - x - t * ux, py - y - t * uy)
        closer = dist < best
        best = np.where(closer, dist, best)
        bx, by = np.where(closer, lx, bx), np.where(closer, ly, by)
        lx, ly = x, y
        x, y = nx, ny
    return bx, by, best


def run(vel, gx, gy, x, y, duration, tol, maxstep, kind='array'):
    calls = [0]

    def feval(xy):
        calls[0] += 1
        if calls[0] > BUDGET:
            raise ArithmeticError('budget')
        u, v = vel(xy[0] - gx, xy[1] - gy)
        return np.array([u, v])
    vertices = compute_backtrace(x + gx, y + gy, duration, tol, maxstep, feval)
    if calls[0] > BUDGET:
        raise Bad('the trace does not terminate (%d velocity evaluations, %d vertices)' % (calls[0], len(vertices)))
    if len(vertices) < 1 or any(len(v) != 2 for v in vertices):
        raise Bad('the trace is not a list of points')
    X = np.array([float(v[0]) for v in vertices])
    Y = np.array([float(v[1]) for v in vertices])
    if (X[0], Y[0]) != (x + gx, y + gy):
        raise Bad('the trace starts at (%r, %r) instead of (%r, %r)' % (X[0], Y[0], x + gx, y + gy))
    if not (np.isfinite(X).all() and np.isfinite(Y).all()):
        raise Bad('a vertex is not finite')
    step = np.hypot(np.diff(X), np.diff(Y))
    if len(step) and step.max() >= maxstep + 1e-9 * (1 + abs(gy)):
        raise Bad('a step of %r, the maximum is %r' % (float(step.max()), maxstep))
    return X - gx, Y - gy, calls[0]


def trace(case, st):
    name, shift, (x, y), duration, tol, maxstep = case
    vel, flow, growth = FIELDS[name]
    gx, gy = SHIFTS[shift]
    X, Y, calls = run(vel, gx, gy, x, y, duration, tol, maxstep)
    n = len(X) - 1
    eps = 1e-8 if gx else 1e-11
    st.transitions += n
    if n < 1:
        raise Bad('no step was made in a time of %r' % duration)
    if not name.startswith('zero'):
        off = off_path(vel, X, Y, 1.0 if duration > 0 else -1.0, tol)
        worst = float(off.max())
        if not worst <= SLACK * tol + eps:
            i = int(off.argmax())
            raise Bad('vertex %d (%r, %r) lies %r off the flow path through the vertex before it (tolerance %r)' % (i + 1, X[i + 1], Y[i + 1], worst, tol))
        st.notes['off path <= 10^%d tol' % max(-9, math.ceil(math.log10(max((worst - eps) / tol, 1e-9))))] += 1
    ex, ey = true_end(name, x, y, float(duration))
    err = math.hypot(X[-1] - ex, Y[-1] - ey)
    g = 1.0 if not growth else math.exp(growth * abs(duration)) + (growth * abs(duration) if name.startswith('shear') else 0)
    if growth is None:
        g = 30.0
    bound = (0.0 if name.split('*')[0] in EXACT else n * tol * g) + eps * 100 + 1e-9 * math.hypot(ex, ey) * g
    if not err <= bound:
        raise Bad('after %d steps the trace ends at (%r, %r), the flow carries the start to (%r, %r) in time %r' % (n, X[-1], Y[-1], ex, ey, duration))
    st.notes['end error <= 1e-%d bound' % min(9, int(-math.log10(max(err / bound, 1e-9))))] += 1
    st.outcome((name, np.round(X, 6).tobytes(), np.round(Y, 6).tobytes()))


VEL = [(1.0, 0.0), (-1.0, 0.5), (0.0, -2.0), (30.0, 40.0), (0.0, 0.0), (-0.001, 0.0)]


def cells(case, st):
    """A field that is constant in each quadrant: discontinuous, possibly converging on an edge, possibly standing still."""
    pick, (x, y), duration, tol, maxstep = case
    v = [VEL[k] for k in pick]

    def vel(x, y):
        return v[(1 if x > 0.5 else 0) + (2 if y > 0.25 else 0)]
    X, Y, calls = run(vel, 0.0, 0.0, x, y, duration, tol, maxstep)
    st.transitions += len(X) - 1
    smax = max(math.hypot(*q) for q in v)
    far = np.hypot(X - x, Y - y).max()
    if far > smax * abs(duration) * (1 + 1e-9) + 3 * tol * len(X) + 1e-9:
        raise Bad('the trace reaches %r from its start, the fastest flow covers %r' % (float(far), smax * abs(duration)))
    if len(set(pick)) == 1:
        ex, ey = x + v[0][0] * duration, y + v[0][1] * duration
        if math.hypot(X[-1] - ex, Y[-1] - ey) > 1e-9 * (1 + math.hypot(ex, ey)):
            raise Bad('the trace ends at (%r, %r), should be (%r, %r)' % (X[-1], Y[-1], ex, ey))
    st.outcome((pick, len(X), round(float(X[-1]), 6), round(float(Y[-1]), 6)))


class Enough(Exception):
    pass


def border(case, st):
    """Eastward flow of one speed before a border and another beyond it, up to five orders of magnitude faster, over up to a century."""
    v1, v2, share, duration, tol, maxstep = case
    sgn = 1.0 if duration > 0 else -1.0
    where = 0.7 + v1 * share * abs(duration)
    rest = v2 * (1 - share) * abs(duration)
    steps = (where + rest) / maxstep
    n = [0]

    def vel(x, y):
        n[0] += 1
        if steps > 3000 and n[0] > 6000:
            raise Enough()
        return sgn * (v1 if x <= where else v2), 0.0
    X, Y, calls = run(vel, 0.0, 0.0, 0.7, 0.0, duration, tol, maxstep)
    st.transitions += len(X) - 1
    if np.abs(Y).max() > 1e-9 or X.max() > 0.7 + max(v1, v2) * abs(duration) * (1 + 1e-6) + 50 * tol:
        raise Bad('the trace does not follow the flow to the east')
    if v1 == v2 and (n[0] <= 6000 or steps <= 3000):
        if not abs(X[-1] - (where + rest)) <= 2 * maxstep + 50 * tol + 1e-6 * (where + rest):
            raise Bad('the trace ends at %r, the flow carries it to %r' % (float(X[-1]), where + rest))
    st.outcome(case)


def sink(case, st):
    """Flow that converges on a point where it is infinitely fast: the trace must still end, in bounded steps."""
    (x, y), q, duration, tol, maxstep = case

    def vel(x, y):
        r2 = x * x + y * y
        return -q * x / r2, -q * y / r2
    X, Y, calls = run(vel, 0.0, 0.0, x, y, duration, tol, maxstep)
    st.transitions += len(X) - 1
    t_hit = (x * x + y * y) / (2 * q)
    if 0 < duration < 0.98 * t_hit:
        r = math.sqrt(x * x + y * y - 2 * q * duration)
        end = math.hypot(X[-1], Y[-1])
        if abs(end - r) > 30 * len(X) * tol:
            raise Bad('the trace ends at radius %r, the flow at %r' % (end, r))
    st.outcome(case)


def main(ctx):
    durations = ctx.pick((3e-4, -2e-6, 0.03, 0.1, 7, -7.3, 60.0, -60), (3e-4, -3e-4, 1e-3, -2e-6, 1e-8, 0.03, -0.03, 0.1, -0.1, 1, 7, -7.3, 60.0, -60, 250.0, -250.0))
    tols = ctx.pick((1, 0.1, 1e-3), (1, 0.3, 0.1, 1e-2, 1e-3, 1e-5))
    steps = ctx.pick((0.7, 5, 40.0), (0.3, 0.7, 2.0, 5, 40.0, 300.0))
    starts = STARTS if ctx.thorough else STARTS[:3]
    cases = []
    for name, (sh, st_, d, tol, ms) in itertools.product([n for n in FIELDS if '*' not in n], itertools.product(range(2), starts, durations, tols, steps)):
        if name == 'source' and d < 0 and abs(d) * 80 > 0.9 * (st_[0] ** 2 + st_[1] ** 2):
            continue        # would run into the singularity: judged by sink()
        if name in ('stream', 'pair') and d < 0 and (abs(d) > 8 or st_[0] ** 2 + st_[1] ** 2 < 1000):
            continue
        if name == 'saddle' and abs(d) > 100 or name == 'spiral' and d < -100:
            continue
        if name == 'accelerating' and abs(d) > 100:
            continue
        if name in ('rotation', 'spiral', 'source', 'stream', 'pair') and tol > math.hypot(*st_) / 8:
            continue        # the field varies on the scale of this distance
        if ms > 100 and name not in ('constant', 'slow', 'zero', 'shear', 'accelerating'):
            continue        # one step would span several scales of the field
        if name == 'constant' and abs(d) * 5 / ms > 2000:
            continue
        cases.append((name, sh, st_, d, tol, ms))
    if not ctx.thorough:
        cases = [c for n, c in enumerate(cases) if c[1] == 0 or n % 3 == 0]
    for name, sh, start, d, tol in itertools.product([n for n in FIELDS if '*' not in n], (0, 1), starts, (7, 60.0, -60, 250.0), (1, 0.1, 1e-3, 1e-5)):
        if name in ('rotation', 'spiral', 'shear', 'saddle') and (d < 100 or name == 'rotation') and (tol < 0.1 or math.hypot(*start) > 8):
            cases.append((name, sh, start, d, tol, 1000.0))        # only the tolerance limits the steps
    for name, d, tol in itertools.product(('slow', 'zero', 'constant', 'shear', 'source', 'rotation', 'stream', 'wave'), (400.0, 1001.0, -1200.0, 3652.5, 20000.0), (0.1, 1e-3)):
        if name in ('slow', 'zero') or d > 0 and d < 5000 or name == 'constant' and d < 0:
            cases.append((name, 0, STARTS[1], d, tol, 40.0))
    for k, c in enumerate(list(cases)):
        for j, s in enumerate(SPEEDS):
            if s > 1 and (c[0] in ('source', 'stream', 'pair') and c[5] > 0.35 * math.hypot(*c[2]) or c[0] not in EXACT and c[5] > 50):
                continue        # the first, arbitrary, step would span several scales of the field
            if ctx.thorough or (k + 3 * j) % 7 == 0:
                cases.append(('%s*%g' % (c[0], s),) + c[1:3] + (c[3] / s,) + c[4:])
    cases += [('rotation*%g' % s, 0, p, d / s, tol, ms) for s in SPEEDS[1:] for p in STARTS for d in (3.0, -60.0) for tol in (0.1, 1e-3) for ms in (100.0, 1000.0)]      # the first step would turn many times
    cases.sort(key=lambda c: (c[0], c[2], c[3]))
    ctx.bounds = dict(fields=[n for n in FIELDS if '*' not in n], units_of_time=SPEEDS, starts=starts, durations=durations, tolerances=tols, maxsteps=steps)
    cases += [(name, 0, STARTS[1], d, 0.1, 0.7) for name, d in (('constant', 2500.0), ('constant', -ctx.pick(1500.0, 4000.0)), ('rotation', 4200.0), ('wave', 2000.0))]        # many steps
    ctx.run('smooth fields', trace, sorted(set(cases), key=cases.index))
    nv = ctx.pick(5, 6)
    picks = list(itertools.product(range(nv), repeat=4))
    cc = [(p, s, d, tol, ms) for k, p in enumerate(picks) for j, (s, d, tol, ms) in enumerate(itertools.product([(0.0, 0.0), (1.0, 1.0)], (1.5, -1.5), (0.1,), (0.4, 5.0)))
          if ctx.thorough or (k + j) % 4 == 0]
    ctx.run('discontinuous fields', cells, cc)
    ctx.run('into a sink', sink, [((x, y), q, d, tol, ms) for x, y in ((3.0, 0.0), (-2.0, 5.0)) for q in (1.0, 4.0) for d in (0.5, 1.0, 3.0, 6.0, 20.0) for tol in (1, 0.1) for ms in (0.5, 5.0)])
    speeds = (0.05, 2.0, 100.0, 1.0e4, 1.0e5)
    ctx.run('borders', border, [(v1, v2, share, sgn * d, tol, ms) for v1 in speeds[:4] for v2 in speeds for share in (1e-3, 0.5, 0.99, 0.997) for d in (0.4, 60.0, 400.0, 36525.0) for sgn in (1, -1)
                                for tol, ms in ((1e-3, 2.0), (0.1, 0.5), (1, 10)) if v1 * share * d / ms < 500 and (ctx.thorough or sgn > 0 or d == 60.0)])
