"""C06: the regional-flow fit over every combination of layouts, flows, regimes, wells, errors and orders, against an independent (QR) weighted least squares."""
import itertools
import math

import numpy as np

from mc import ref
from mc.core import Bad
from oneka.model import Model, RangeError

ID = 'C06'
LEVEL = 'exploration'
RULE = ('full product of observation layouts x true flows x aquifers x regimes (confined, unconfined, mixed, at the limit) x well sets x error patterns x '
        'orders x origins; an outcome is a fitted coefficient vector')
ASSUMPTIONS = ['well-conditioned layouts (at least 7 observations in general position)',
               'coefficients to 1e-5 of their standard deviations (plus 1e-9 relative, plus rounding), covariances to 2e-3 of the product of the standard deviations']

LAYOUTS = {
    'ring': [(round(400 * math.cos(0.9 * i) * 4) / 4, round(300 * math.sin(0.9 * i + 0.2) * 4) / 4) for i in range(7)],
    'grid': [(x * 150.0, y * 200.0) for x in (-1, 0, 1) for y in (-1, 0, 1)],
    'east': [(500.0 + 37.5 * i * ((i % 3) - 0.5), -200.0 + 61.25 * i * ((i % 4) - 1.25)) for i in range(10)],
    'dozen': [(((37 * i) % 12) * 85.0 - 420.0, ((53 * i * i) % 17) * 55.0 - 470.0) for i in range(12)],
    'near': [(3.0 * ((i * 5) % 7) - 9.5, 4.0 * ((i * i * 3 + i) % 9) - 14.0) for i in range(9)],
    'first': [(0.0, 0.0)] + [(120.0 * ((i * 4) % 7 - 3), 90.0 * ((i * i + 2 * i) % 7 - 2.5)) for i in range(1, 8)],
}
LARGE = {       # many observations; some in the very same place; far away from the origin; far from another one
    'sixty': [(((37 * i) % 61) * 17.0 - 500.0, ((23 * i * i + 5 * i) % 59) * 19.0 - 560.0) for i in range(60)],
    'many': [(((71 * i) % 151) * 8.0 - 600.0, ((59 * i * i + 3 * i) % 149) * 7.0 - 520.0) for i in range(151)],
    'repeated': [(x * 150.0, y * 200.0) for x in (-1, 0, 1) for y in (-1, 0, 1) for _ in range(1 + (x + y) % 3)],
    'wide': [(math.copysign(28000.0 + 900.0 * i, (i % 3) - 0.5), math.copysign(23000.0 + 1100.0 * ((i * 5) % 8), (i % 4) - 1.5) * (i % 2 or 0.1)) for i in range(14)],
}
LAYOUTS.update(LARGE)
ORIGINS = [(0.0, 0.0), (-80.0, 55.5), (302338.0, 5162551.0), (7.0, 0.0), (0.0, -33.5)]         # shift of everything (UTM) in the third one
FLOWS = [(0, 0, 0, 0, 0, 0), (0, 0, 0, 1.0, 0, 0), (-1e-4, -1e-4, 0, 0, 0, 0), (2e-4, -3e-4, 1e-4, -0.5, 0.75, 0.0)]
AQUIFERS = [(0.0, 10.0, 16.0), (250.0, 1.5, 40.0), (-8.0, 75.0, 8.0), (3.0, 240.0, 3.5)]     # base, conductivity, thickness
WELLS = [(), ((20.25, -31.5, 0.25, 800.0),), ((20.25, -31.5, 0.25, 800.0), (-300.0, 140.0, 260.0, -250.0), (700.0, 10.0, 0.5, 4000.0)), ((20.25, -31.5, 0.25, 800.0), (-300.0, 140.0, 0.5, 0.0))]
STDS = ['equal', 'alternating', 'large', 'one exact', 'huge']
REGIMES = ['confined', 'unconfined', 'mixed', 'limit']


def stds(kind, n):
    return {'equal': [0.5] * n, 'alternating': [0.25 + 0.5 * (i % 3) for i in range(n)], 'large': [1.0 + 0.25 * (i % 4) for i in range(n)],
            'huge': [6.0 + 2.5 * (i % 3) for i in range(n)], 'one exact': [0.01] + [1.0] * (n - 1)}[kind]


def problem(case):
    layout, flow, aquifer, regime, wi, std, oi = case
    base, k, thick = aquifer
    gx, gy = ORIGINS[oi] if oi == 2 else (0.0, 0.0)
    xo, yo = ORIGINS[oi]
    pts = [(a + gx, b + gy) for a, b in LAYOUTS[layout]]
    wells = [(a + gx, b + gy, r, q) for a, b, r, q in WELLS[wi]]
    coef = list(FLOWS[flow])
    lim = 0.5 * k * thick * thick
    raw = [float(ref.potential(coef, xo, yo, wells, x, y)) for x, y in pts]
    mid = 0.5 * (min(raw) + max(raw))
    span = max(max(raw) - min(raw), 1.0)
    level = {'confined': 1.3 * lim + 0.5 * span, 'unconfined': 0.55 * lim, 'mixed': lim, 'limit': lim}[regime]
    if regime in ('unconfined',):           # keep the whole layout wet and below the limit
        shrink = min(1.0, 0.6 * lim / span)
        coef = [c * shrink for c in coef]
        wells = [(a, b, r, q * shrink) for a, b, r, q in wells]
        mid *= shrink
    elif regime in ('mixed', 'limit'):
        shrink = min(1.0, 1.0 * lim / span)
        coef = [c * shrink for c in coef]
        wells = [(a, b, r, q * shrink) for a, b, r, q in wells]
        mid *= shrink
    coef[5] = level - mid
    return base, k, thick, xo, yo, pts, wells, coef


def observe(pts, coef, xo, yo, wells, base, k, thick, sd, expected):
    """Heads whose potential (or, if expected, whose first-order expected potential) is that of the flow."""
    obs = []
    for (x, y), s in zip(pts, sd):
        phi = float(ref.potential(coef, xo, yo, wells, x, y))
        h = ref.head_of_potential(phi, k, thick)
        if h is None:
            return None
        if expected and h < thick:
            if 2 * phi / k - s * s <= 0:
                return None
            h = math.sqrt(2 * phi / k - s * s)
        obs.append((x, y, base + h, s))
    return obs


def compare(mo, got, obs, xo, yo, base, k, thick, wells, st, what, slack=1.0):
    ev, cov = got
    ev = np.asarray(ev, float).ravel()
    cov = np.asarray(cov, float)
    if ev.shape != (6,) or cov.shape != (6, 6):
        raise Bad('%s: shapes %r and %r' % (what, ev.shape, cov.shape))
    want, wcov = ref.fit(obs, xo, yo, base, k, thick, wells)
    s = np.sqrt(np.diag(wcov))
    err = np.abs(ev - want)
    big = max(abs(o[2] - base) / o[3] for o in obs)                  # the larger, the more digits the weighted data lose
    if not np.all(err <= slack * (1e-5 + 1e-10 * big) * s + 1e-9 * np.abs(want)):
        i = int(np.argmax(err / s))
        raise Bad('%s: coefficient %s is %r, the optimum is %r (standard deviation %r)' % (what, 'ABCDEF'[i], float(ev[i]), float(want[i]), float(s[i])))
    d = np.abs(cov - wcov) / np.outer(s, s)
    if not np.all(d <= 2e-3) and slack == 1:
        i, j = np.unravel_index(int(np.argmax(d)), d.shape)
        raise Bad('%s: covariance[%d,%d] is %r, should be %r' % (what, i, j, float(cov[i, j]), float(wcov[i, j])))
    if (float(mo.xo), float(mo.yo)) != (float(xo), float(yo)):
        raise Bad('%s: the origin of the model is (%r, %r), fitted about (%r, %r)' % (what, mo.xo, mo.yo, xo, yo))
    if not np.array_equal(np.asarray(mo.coef, float).ravel(), ev):
        raise Bad('%s: the model holds coefficients %r, the fit returned %r' % (what, mo.coef, ev))
    st.notes['worst coef err 1e-%d' % min(15, int(-math.log10(max(float((err / s).max()), 1e-15))))] += 1
    st.notes['worst cov err 1e-%d' % min(15, int(-math.log10(max(float(d.max()), 1e-15))))] += 1
    st.outcome(tuple(np.round(want / s, 6)))
    return want, s


def fit(case, st):
    base, k, thick, xo, yo, pts, wells, coef = problem(case)
    regime = case[3]
    sd = stds(case[5], len(pts))
    porosity = (0.25, 0.05, 0.6, 1)[(case[1] + case[4]) % 4]
    # 1. exactly recovered
    obs = observe(pts, coef, xo, yo, wells, base, k, thick, sd, True)
    tight = observe(pts, coef, xo, yo, wells, base, k, thick, [1e-5] * len(pts), True)
    for name, o in (('noise-free', obs), ('noise-free, tight', tight)):
        if o is None:
            st.skipped += 1
            continue
        st.evaluations += 1
        mo = Model(base, k, porosity, thick, wells)
        got = mo.fit_regional_flow(list(o), xo, yo)
        want, s = compare(mo, got, o, xo, yo, base, k, thick, wells, st, name)
        reg = [(h[2] - base) >= thick for h in o]
        exact = all((h[2] - base >= thick) == (float(ref.potential(coef, xo, yo, wells, h[0], h[1])) >= 0.5 * k * thick ** 2) for h in o)
        size = max(abs(float(ref.potential(coef, xo, yo, wells, x, y))) for x, y in pts)
        if exact:
            for x, y in pts:
                a = float(mo.compute_potential(x, y))
                b = float(ref.potential(coef, xo, yo, wells, x, y))
                if not abs(a - b) <= 1e-7 * size:
                    raise Bad('%s data of a regional flow: the fitted potential at (%r, %r) is %r, the true one %r' % (name, x, y, a, b))
        st.notes['%d of %d confined' % (sum(reg), len(reg))] += 1
    # 2. the optimum for disturbed data, in every one of a set of orders; and after an earlier fit of the same model to other data
    plain = observe(pts, coef, xo, yo, wells, base, k, thick, sd, False)
    if plain is None:
        st.skipped += 1
        return
    noisy = [(x, y, z + s * (0.5, -0.8, 0.1, 1.1, -0.4)[i % 5] * (0.2 if regime != 'limit' else 0.0), s) for i, (x, y, z, s) in enumerate(plain)]
    if regime == 'limit':
        noisy = [(x, y, base + thick if i % 2 else z, s) for i, (x, y, z, s) in enumerate(plain)]
    if any(o[2] - base <= 1e-3 * thick for o in noisy):
        st.skipped += 1
        return
    frozen = tuple(noisy)
    for name, o, ws in (('noisy', noisy, wells), ('reversed', noisy[::-1], wells[::-1]), ('rotated', noisy[3:] + noisy[:3], wells[1:] + wells[:1])):
        st.evaluations += 1
        mo = Model(base, k, porosity, thick, tuple(tuple(w) for w in ws) if name == 'reversed' else [list(w) for w in ws], 1.0, 2.0, np.arange(6.0))
        got = mo.fit_regional_flow(o, xo, yo)
        compare(mo, got, noisy, xo, yo, base, k, thick, wells, st, name)
        # refit the very same object with other data, aquifer and origin
        mo.conductivity, mo.thickness, mo.base = 2 * k, 0.75 * thick, base - 1.0
        got = mo.fit_regional_flow([list(q) for q in o], xo + 12.0, yo - 7.0)
        compare(mo, got, noisy, xo + 12.0, yo - 7.0, base - 1.0, 2 * k, 0.75 * thick, wells, st, name + ', refitted')
    if tuple(noisy) != frozen:
        raise Bad('the observations were modified')


def rejected(case, st):
    layout, aquifer, at, delta = case
    base, k, thick = aquifer
    pts = LAYOUTS[layout]
    obs = [(x, y, base + 0.5 * thick + 0.01 * i, 0.5) for i, (x, y) in enumerate(pts)]
    obs[at] = (obs[at][0], obs[at][1], base + delta, 0.5)
    mo = Model(base, k, (0.2, 0.7)[at % 2], thick, [(20.25, -31.5, 0.25, 800.0)])
    if delta > 0:
        got = mo.fit_regional_flow(obs, 0.0, 0.0)
        compare(mo, got, obs, 0.0, 0.0, base, k, thick, mo.wells, st, 'barely wet', 1.0 if delta > 0.1 else 100.0)      # such a weight costs digits, of the covariance all of them
        return
    try:
        got = mo.fit_regional_flow(obs, 0.0, 0.0)
    except RangeError:
        st.outcome(case)
        return
    raise Bad('observation %d at elevation base%+g was accepted' % (at, delta))


def main(ctx):
    flows = range(len(FLOWS))
    cases = [(l, f, a, r, w, s, o) for l in LAYOUTS if l not in LARGE for f in flows for a in AQUIFERS for r in REGIMES for w in range(len(WELLS))
             for s in STDS[:4] for o in range(3)]
    if not ctx.thorough:
        cases = [c for n, c in enumerate(cases) if n % 6 == (n // 6 + n // 31 + n // 97) % 6]
    large = [(l, f, a, r, w, s, o) for l in LARGE for f in flows for a in AQUIFERS for r in REGIMES for w in range(len(WELLS)) for s in STDS for o in range(3)]
    large += [(l, f, a, r, w, 'huge', o) for l in LAYOUTS if l not in LARGE for f in flows for a in AQUIFERS for r in REGIMES for w in range(len(WELLS)) for o in range(3)]
    if not ctx.thorough:
        large = [c for n, c in enumerate(large) if n % 23 == 7]
    large += [(l, f, a, r, w, 'alternating', o) for l in ('ring', 'dozen') for f in flows for a in AQUIFERS for r in REGIMES for w in range(len(WELLS)) for o in (3, 4)][::ctx.pick(5, 1)]
    ctx.bounds = dict(layouts={k: len(v) for k, v in LAYOUTS.items()}, flows=FLOWS, aquifers=AQUIFERS, wells=WELLS, regimes=REGIMES, stds=STDS)
    ctx.run('fit', fit, cases)
    ctx.run('large sets', fit, large)
    ctx.run('rejected', rejected, [(l, a, at, d) for l in LAYOUTS for a in AQUIFERS for at in range(len(LAYOUTS[l])) for d in (0.0, -0.25, -100.0, -1e-3, 0.25, 0.005, 1e-3)])
