"""C09: a fault at every velocity evaluation of every trace - of every kind, once or from then on - and at every evaluation of every trace of a capture zone."""
import functools
import math

import numpy as np

from mc import ref
from mc.core import Bad, rearm
from mc.env import LogTap
from oneka.capturezone import compute_backtrace, compute_capturezone
from oneka.model import AquiferError, Model
from oneka.probabilityfield import ProbabilityField

ID = 'C09'
LEVEL = 'fault_enumeration'
RULE = ('every velocity evaluation (counted in a fault-free run) of traces through several fields x fault kinds x (once, from then on); every evaluation of every '
        'trace of capture zones; real aquifers that run dry and starts on other wells; an outcome is the returned list of vertices')
ASSUMPTIONS = ['a vertex is accepted after the velocity at it has been evaluated (the explicit scheme needs it); where one place is evaluated twice, either is accepted', 'termination is observed as a bound of 100000 velocity evaluations']
BUDGET = 100000


class Odd(Exception):
    pass


FIELDS = {
    'constant': lambda x, y: (1.5, -0.75),
    'nearly constant': lambda x, y: (1.5 + 0.001 * y, -0.75 + 0.0007 * x),
    'stream': lambda x, y: (0.6 + 12.0 * (x - 3) / ((x - 3) ** 2 + (y + 4) ** 2), -0.25 + 12.0 * (y + 4) / ((x - 3) ** 2 + (y + 4) ** 2)),
    'rotation': lambda x, y: (-0.2 * (y - 30), 0.2 * (x + 20)),
    'jump': lambda x, y: (3.0, 0.5) if x < 12.3 else (-0.4, 1.0),
}
NAN, INF = float('nan'), float('inf')
FAULTS = {
    'dry': AquiferError('dry'), 'zero': ZeroDivisionError('x'), 'value': ValueError('x'), 'odd': Odd(), 'float': FloatingPointError('x'), 'overflow': OverflowError('x'),
    'nan': (NAN, NAN), 'nan x': (NAN, 0.5), 'nan y': (0.5, NAN), 'inf': (INF, 0.5), '-inf y': (0.5, -INF), 'inf both': (INF, -INF),
}


@functools.lru_cache(64)
def clean(field, start, duration, tol, maxstep):
    """Fault-free run: the vertices, and where each evaluation took place."""
    f = FIELDS[field]
    at = []

    def feval(xy):
        at.append((float(xy[0]), float(xy[1])))
        return np.array(f(xy[0], xy[1]), float)
    v = compute_backtrace(start[0], start[1], duration, tol, maxstep, feval)
    return [(float(a), float(b)) for a, b in v], at


def accepted_before(vertices, at, k, seen=min):
    """Vertices accepted before evaluation k (0-based): those evaluated before it (seen=max: and not to be evaluated again)."""
    index = {}
    for i, p in enumerate(at):
        index.setdefault(p, []).append(i)
    return [v for j, v in enumerate(vertices) if j == 0 or seen(index[v]) < k]


@functools.lru_cache(3)
def indices(vertices, at):
    index = {}
    for i, p in enumerate(at):
        index.setdefault(p, []).append(i)
    return [-1] + [min(index[v]) for v in vertices[1:]], [-1] + [max(index[v]) for v in vertices[1:]]


def bounds(vertices, at, k):
    lo, hi = indices(vertices, at)
    return [v for v, i in zip(vertices, lo) if i < k], sum(1 for i in hi if i < k)


def faulty(field, start, duration, tol, maxstep, k, kind, persistent):
    f = FIELDS[field]
    n = [0]

    def feval(xy):
        i = n[0]
        n[0] += 1
        if n[0] > BUDGET:
            raise ArithmeticError('budget')
        if i == k or persistent and i > k:
            e = FAULTS[kind] if kind in FAULTS else kind
            if isinstance(e, BaseException):
                raise e
            return np.array(e)
        return np.array(f(xy[0], xy[1]), float)
    with LogTap() as log:
        v = compute_backtrace(start[0], start[1], duration, tol, maxstep, feval)
    if n[0] > BUDGET:
        raise Bad('the trace does not terminate after the failing evaluation %d (%s)' % (k, kind))
    return v, log


def trace_faults(case, st):
    field, start, duration, tol, maxstep, kinds = case
    vertices, at = clean(field, start, duration, tol, maxstep)
    st.notes['evaluations enumerated'] += len(at)
    missing = [v for v in vertices[1:] if v not in set(at)]
    if missing:
        raise Bad('the velocity was never evaluated at the accepted vertex %r' % (missing[0],))
    for kind in kinds:
        for k in range(len(at)):
            rearm()
            for persistent in (False, True) if kind in ('dry', 'nan', 'inf') else (False,):
                one((field, start, duration, tol, maxstep, k, kind, persistent), st, (vertices, at))
    for k in range(len(at)):
        interrupted((field, start, duration, tol, maxstep, k), st)


def one(case, st, ran=None):
    field, start, duration, tol, maxstep, k, kind, persistent = case
    vertices, at = ran or clean(field, start, duration, tol, maxstep)
    try:
        v, log = faulty(field, start, duration, tol, maxstep, k, kind, persistent)
    except Bad as b:
        raise Bad(b.what, case=case, fn='one') from None
    except Exception as e:
        raise Bad('evaluation %d fails (%s): the trace raised %r' % (k, kind, e), case=case, fn='one') from None
    st.evaluations += 1
    want, least = bounds(tuple(vertices), tuple(at), k)
    got = [(float(p[0]), float(p[1])) for p in v]
    if got != want and got not in (want[:n] for n in range(least, len(want))):
        raise Bad('evaluation %d fails (%s): %d vertices returned, %d were accepted before it; they end with %r and %r'
                  % (k, kind, len(got), len(want), got[-1:], want[-1:]), case=case, fn='one')
    if not np.isfinite(np.array(got)).all():
        raise Bad('evaluation %d fails (%s): a vertex is not finite' % (k, kind), case=case, fn='one')
    if not log.lines(30):
        raise Bad('evaluation %d fails (%s): no warning in the log of the run' % (k, kind), case=case, fn='one')
    st.outcome((case[:5], kind, len(got)))


def interrupted(case, st):
    field, start, duration, tol, maxstep, k = case
    st.evaluations += 1
    try:
        faulty(field, start, duration, tol, maxstep, k, KeyboardInterrupt(), False)
    except KeyboardInterrupt:
        return
    raise Bad("a user's interrupt during evaluation %d was swallowed" % k, case=case, fn='interrupted')


# ------------------------------------------------------------------------------------------------ capture zones
def zone(field, npaths, duration, tol, maxstep, target, fail=None):
    """A capture zone in which the trace starting at index fail[0] fails at its evaluation fail[1]. Returns the field, evaluations per trace, log."""
    f = FIELDS[field]
    x0, y0, r0 = target
    starts = [(x0 + (r0 + 1) * math.cos(2 * math.pi * i / npaths), y0 + (r0 + 1) * math.sin(2 * math.pi * i / npaths)) for i in range(npaths)]
    counts = [0] * npaths
    cur = [None]

    def feval(xy):
        x, y = float(xy[0]), float(xy[1])
        for i, s in enumerate(starts):
            if counts[i] == 0 and math.hypot(x - s[0], y - s[1]) < 1e-9:
                cur[0] = i
        i = cur[0]
        if i is None:
            raise Bad('a trace starts at (%r, %r)' % (x, y))
        counts[i] += 1
        if sum(counts) > BUDGET:
            raise KeyboardInterrupt
        if fail and fail[0] == i and counts[i] == fail[1] + 1:
            e = FAULTS[fail[2]] if fail[2] in FAULTS else KeyboardInterrupt()
            if isinstance(e, BaseException):
                raise e
            return np.array(e)
        return np.array(f(x, y), float)
    pf = ProbabilityField(1.0, 1.0, x0, y0)
    with LogTap() as log:
        compute_capturezone(x0, y0, r0, npaths, duration, pf, 1.25, 0.5, tol, maxstep, feval)
    return pf, counts, log


def marks(pf):
    X, Y = ref.nodes(pf)
    p = np.asarray(pf.pgrid, float)
    return {(round(float(a), 6), round(float(b), 6)): float(w) for a, b, w in zip(X[p != 0], Y[p != 0], p[p != 0])}


def zone_faults(case, st):
    field, npaths, duration, tol, maxstep, target, kinds = case
    pf, counts, log = zone(field, npaths, duration, tol, maxstep, target)
    if 0 in counts:
        raise Bad('only %d of %d traces were started' % (sum(1 for c in counts if c), npaths))
    for i in range(npaths):
        for k in range(counts[i]):
            rearm()
            for kind in kinds:
                zone_fault((field, npaths, duration, tol, maxstep, target, i, k, kind), st)


def zone_fault(case, st):
    field, npaths, duration, tol, maxstep, target, i, k, kind = case
    x0, y0, r0 = target
    st.evaluations += 1
    try:
        pf, counts, log = zone(field, npaths, duration, tol, maxstep, target, (i, k, kind))
    except KeyboardInterrupt:
        if kind == 'interrupt':
            return
        raise Bad('the capture zone does not terminate', case=case, fn='zone_fault') from None
    except Exception as e:
        raise Bad('trace %d fails at its evaluation %d (%s): the capture zone raised %r' % (i, k, kind, e), case=case, fn='zone_fault') from None
    if kind == 'interrupt':
        raise Bad("a user's interrupt during trace %d, evaluation %d was swallowed" % (i, k), case=case, fn='zone_fault')
    want = {}
    px, py = ref.nodes(pf)
    d = np.full(px.size, np.inf)
    for j in range(npaths):
        s = (x0 + (r0 + 1) * math.cos(2 * math.pi * j / npaths), y0 + (r0 + 1) * math.sin(2 * math.pi * j / npaths))
        vs, at = clean(field, s, duration, tol, maxstep)
        if j == i:
            alternatives = [accepted_before(vs, at, k, m) for m in (min, max)]
            if alternatives[0] != alternatives[1]:
                st.skipped += 1
                return
            vs = alternatives[0]
            if len(vs) < 2:
                continue        # a lone starting point is no track
        if len(vs) >= 2:
            d = np.minimum(d, ref.polyline_dist([v[0] for v in vs], [v[1] for v in vs], px, py))
    d = d.reshape(px.shape)
    p = np.asarray(pf.pgrid, float)
    sure = np.abs(d - 1.25) > 1e-6
    if i >= 0 and k < 7:        # whether a lone starting point marks its surroundings is not judged
        s = (x0 + (r0 + 1) * math.cos(2 * math.pi * i / npaths), y0 + (r0 + 1) * math.sin(2 * math.pi * i / npaths))
        sure &= ~((np.hypot(px - s[0], py - s[1]) < 1.25 + 1e-6) & (d >= 1.25))
    bad = sure & (np.abs(p - 0.5 * (d < 1.25)) > 1e-12)
    if bad.any():
        a, b = np.argwhere(bad)[0]
        raise Bad('trace %d fails at its evaluation %d (%s): node (%g, %g) has weight %r at distance %r from the traces (umbra 1.25, weight 0.5)'
                  % (i, k, kind, px[a, b], py[a, b], float(p[a, b]), float(d[a, b])), case=case, fn='zone_fault')
    if abs(float(pf.total_weight) - 0.5) > 1e-12:
        raise Bad('total weight %r after one realization of 0.5' % pf.total_weight, case=case, fn='zone_fault')
    if not log.lines(30):
        raise Bad('no warning in the log of the run', case=case, fn='zone_fault')
    st.outcome(sorted(marks(pf)))


# ------------------------------------------------------------------------------------------------ real aquifers
def real(case, st):
    """Traces in real models that run dry, or that start on, or run into, another well."""
    kind, q, duration, tol, maxstep, confined, ang = case
    x, y = 302338.0 + 11.0 * math.cos(ang), 5162551.0 + 11.0 * math.sin(ang)
    wells = [(302338.0, 5162551.0, 10.0, 400.0)]
    coef = [0.0, 0.0, 0.0, 3.0, 1.0, 60.0 * 8]
    if kind == 'on a well':
        wells.append((x, y, 0.5, q))
    elif kind == 'between':
        wells.append((302338.0 + 40.0 * math.cos(ang), 5162551.0 + 40.0 * math.sin(ang), 0.5, q))
    elif kind == 'dry ahead':
        coef = [-0.01, -0.01, 0.0, 1.0, 0.0, 600.0]
    mo = Model(100.0, 8.0, 0.25, 10.0, wells, 302338.0, 5162551.0, np.array(coef))
    n = [0]
    failed = [False]
    starts_ok = []

    def feval(xy):
        n[0] += 1
        if n[0] > BUDGET:
            raise KeyboardInterrupt
        try:
            v = (mo.compute_velocity_confined if confined else mo.compute_velocity)(xy[0], xy[1])
        except Exception:
            failed[0] = True
            raise
        if not np.isfinite(v).all():
            failed[0] = True
        return np.array([-v[0], -v[1]])
    with LogTap() as log:
        try:
            vs = compute_backtrace(x, y, duration, tol, maxstep, feval)
        except KeyboardInterrupt:
            raise Bad('the trace does not terminate')
    st.evaluations += 1
    vs = [(float(a), float(b)) for a, b in vs]
    if vs[0] != (x, y) or not np.isfinite(np.array(vs)).all():
        raise Bad('vertices %r...' % vs[:3])
    if failed[0] and not log.lines(30):
        raise Bad('the trace failed without a warning in the log of the run')
    if not confined:
        for v in vs[1:]:
            if not float(mo.compute_potential(*v)) > 0:
                raise Bad('the accepted vertex %r lies where the aquifer is dry' % (v,))
    st.notes[kind + (' failed' if failed[0] else ' completed')] += 1
    st.outcome((kind, len(vs), vs[-1]))


def main(ctx):
    kinds = list(FAULTS)
    cases = []
    for field in FIELDS:
        for start in ((0.0, 0.0), (-6.5, 3.25))[:2 if ctx.thorough or field == 'stream' else 1]:
            for duration, tol, ms in ((4.0, 0.1, 3.0), (-3.5, 0.5, 2.0), (0.05, 1, 10), (1.0, 0.02, 1.0)) + (((20.0, 0.05, 2.0),) if ctx.thorough else ()):
                for i in range(0, len(kinds), 2):
                    cases.append((field, start, duration, tol, ms, tuple(kinds[i:i + 2])))
    ctx.bounds = dict(fields=list(FIELDS), faults=kinds + ['interrupt'])
    ctx.run('faults in a trace', trace_faults, cases, chunk=1, limit=120)
    zk = ('dry', 'nan', 'inf both', 'value', 'interrupt')
    zc = [(f, n, d, 0.2, 2.0, t, (kk,)) for f in FIELDS for n, d, t in ((1, 5.0, (0.0, 0.0, 0.5)), (3, 2.0, (0.25, 0.5, 1.0)), (4, -1.0, (23.0, -14.0, 2.0))) for kk in zk]
    if ctx.thorough:
        zc += [(f, 6, 4.0, 0.1, 1.5, (-14.0, 2.0, 0.25), (kk,)) for f in FIELDS for kk in zk]
    ctx.run('faults in a capture zone', zone_faults, zc, chunk=1, limit=120)
    angles = [2 * math.pi * i / ctx.pick(6, 24) for i in range(ctx.pick(6, 24))]
    ctx.run('real aquifers', real, [(k, q, d, tol, ms, c, a) for k in ('on a well', 'between', 'dry ahead') for q in (300.0, -300.0) for d in ctx.pick((40.0, -60.0), (40.0, -40.0, -400.0))
                                    for tol, ms in ((1, 10), (0.1, 3.0)) for c in (False, True) for a in angles], limit=60)
