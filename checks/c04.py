"""C04: every combination of coefficients, wells, origins and places over finite alphabets, against the closed form, and fluxes through closed curves."""
import itertools
import math

import numpy as np

from mc import histories
from mc.core import Bad
from oneka.model import AquiferError, Model

ID = 'C04'
LEVEL = 'exploration'
RULE = ('full product of coefficient vectors {0,1,-2}^6 (and scaled ones), well sets (with all orders), origins, model attributes and places; '
        'an outcome is a (potential, discharge) pair; each compared with the stated formula; every circle of a lattice of centres and radii for the flux; all sequences of up to 3 (thorough: 4) changes to the attributes of a model and refits, asked before and after each')
ASSUMPTIONS = ['places at least 0.2 units away from every well', 'relative tolerance 1e-10 of the sum of the absolute contributions']

WELLS = [(), ((3.0, -2.0, 0.25, 500.0),), ((3.0, -2.0, 0.25, 500.0), (-40.0, 7.5, 0.5, -300.0)),
         ((3.0, -2.0, 0.25, 1.0), (-4.0, 7.5, 0.5, 10.0), (6.0, 8.0, 3.0, 1000.0)),
         ((3.0, -2.0, 0.25, 0.0), (3.5, -2.0, 0.25, -700.0), (3.5, -1.5, 0.25, 700.0), (100.0, 0.0, 0.25, 12.0)),
         ((3.0, -2.0, 0.25, 0.5), (-4.0, 7.5, 0.5, -1e-3), (60.0, 8.0, 3.0, 1e-7)), ((-4.0, 7.5, 200.0, -0.99), (1000.0, 40.0, 3.0, 0.999)),
         ((3.0, -2.0, 0.25, 2e6), (-4.0, 7.5, 0.5, -3.5e5)),
         ((3.0, -2.0, 0.25, 400.0), (3.0, -2.0, 0.5, 300.0)), ((3.0, -2.0, 0.25, 400.0), (-4.0, 7.5, 0.5, -35.0), (3.0, -2.0, 0.25, 400.0))]      # two in one place
ORIGINS = [(0.0, 0.0, 0.0, 0.0), (5.0, -3.0, 0.0, 0.0), (0.0, 0.0, 302338.0, 5162551.0), (-120.25, 64.5, 302338.0, 5162551.0)]   # xo, yo relative; global shift
PLACES = [(0.0, 0.0), (3.0, -1.0), (3.0, 5.0), (-2.0, -2.0), (4.25, -2.0), (2.5, 8.0), (7.0, 9.0), (-40.0, 9.5), (-250.0, 310.5), (1000.0, -2.0), (150000.0, -80000.0), (17.3, -6.7), (-123.456, 78.9)]
ATTRS = [(0.0, 1.0, 0.25, 10.0), (200.0, 50.0, 0.5, 3.0), (-15.5, 250.0, 0.35, 3.0), (1000, 0.02, 1, 250.0), (-3.0, 4.0, 0.01, 0.5)]


def terms(coef, xo, yo, wells, x, y):
    """The contributions to the potential and to the two components of the discharge, one by one."""
    dx, dy = x - xo, y - yo
    a, b, c, d, e, f = coef
    p = [a * dx * dx, b * dy * dy, c * dx * dy, d * dx, e * dy, f]
    qx = [-2 * a * dx, -c * dy, -d]
    qy = [-2 * b * dy, -c * dx, -e]
    for w in wells:
        rx, ry = x - w[0], y - w[1]
        r2 = rx * rx + ry * ry
        p.append(w[3] / (2 * math.pi) * math.log(math.sqrt(r2)))
        qx.append(-w[3] / (2 * math.pi) * rx / r2)
        qy.append(-w[3] / (2 * math.pi) * ry / r2)
    return p, qx, qy


def same(got, parts, what, rel=1e-10):
    want = math.fsum(parts)
    got = float(got)
    if not abs(got - want) <= rel * sum(abs(z) for z in parts) + 1e-300:
        raise Bad('%s is %r, should be %r' % (what, got, want))
    return got


def one(coef, wi, order, origin, attrs, places, form, st):
    xo, yo, gx, gy = ORIGINS[origin]
    wells = [list(w) for w in WELLS[wi]] if order is None else [WELLS[wi][k] for k in order]
    wells = [(w[0] + gx, w[1] + gy, w[2], w[3]) for w in wells]
    base, k, n, h = ATTRS[attrs]
    if form == 0:
        mo = Model(base, k, n, h, wells, xo + gx, yo + gy, np.array(coef, float))
    elif form == 1:
        mo = Model(base, k, n, h, [list(w) for w in wells], xo=xo + gx, yo=yo + gy, coef=list(coef))
    elif form == 2:
        mo = Model(base, k, n, h, wells, xo + gx, yo + gy)
        mo.coef = np.array(coef, float).reshape(6, 1)
    elif form == 4:
        mo = Model(base, k, n, h, tuple(tuple(w) for w in wells), xo + gx, yo + gy, tuple(coef))
    else:
        mo = Model(base, k, n, h, [])
        mo.wells, mo.xo, mo.yo, mo.coef = wells, xo + gx, yo + gy, tuple(coef)
    for px, py in places:
        x, y = px + gx, py + gy
        if any(math.hypot(x - w[0], y - w[1]) < 0.2 for w in wells):
            continue
        p, qx, qy = terms(coef, xo + gx, yo + gy, wells, x, y)
        st.evaluations += 1
        a = same(mo.compute_potential(x, y), p, 'the potential at (%r, %r)' % (x, y))
        q = mo.compute_discharge(x, y)
        if len(q) != 2:
            raise Bad('the discharge has %d components' % len(q))
        b = same(q[0], qx, 'the x-discharge at (%r, %r)' % (x, y))
        c = same(q[1], qy, 'the y-discharge at (%r, %r)' % (x, y))
        same(mo.compute_potential_wells_only(x, y), p[6:] or [0.0], 'the potential of the wells at (%r, %r)' % (x, y))
        st.outcome((a, b, c))


def block(case, st):
    coefs, wi, order, origin, attrs, form = case
    for c in coefs:
        try:
            one(c, wi, order, origin, attrs, PLACES, form, st)
        except Bad as e:
            raise Bad(e.what, case=((c,), wi, order, origin, attrs, form)) from None


def crowd(n, rows):
    """n wells on a lattice (rows of them), with discharges of every size and sign, some of them alike."""
    return tuple((7.25 * (i % rows) - 20.0, 9.5 * (i // rows) - 30.0, 0.25 + 0.25 * (i % 3), (40.0, -17.5, 3.25, 250.0, 0.0, -0.125, 40.0)[i % 7]) for i in range(n))


def many(case, st):
    n, rows, coef, origin, attrs, form, order = case
    ws = crowd(n, rows)[::order]
    WELLS.append(ws)
    try:
        one(coef, len(WELLS) - 1, None, origin, attrs, PLACES, form, st)
    finally:
        WELLS.pop()


def flux(case, st):
    """Outward flux of the discharge through a circle, by the trapezoidal rule (which converges geometrically here)."""
    coef, wi, origin, cx, cy, r = case
    xo, yo, gx, gy = ORIGINS[origin]
    wells = [(w[0] + gx, w[1] + gy, w[2], w[3]) for w in WELLS[wi]]
    x0, y0 = cx + gx, cy + gy
    gaps = [abs(math.hypot(w[0] - x0, w[1] - y0) - r) / max(r, 1e-9) for w in wells]
    if min(gaps, default=1.0) < 0.08:
        st.skipped += 1
        return
    mo = Model(0.0, 10.0, 0.25, 20.0, wells, xo + gx, yo + gy, coef)
    m = 512
    total, size = [], []
    for i in range(m):
        t = 2 * math.pi * (i + 0.5) / m
        qx, qy = mo.compute_discharge(x0 + r * math.cos(t), y0 + r * math.sin(t))
        total.append((qx * math.cos(t) + qy * math.sin(t)) * 2 * math.pi * r / m)
        size.append(abs(total[-1]))
    inside = [w[3] for w in wells if math.hypot(w[0] - x0, w[1] - y0) < r]
    want = -sum(inside) - 2 * (coef[0] + coef[1]) * math.pi * r * r
    got = math.fsum(total)
    if not abs(got - want) <= 1e-8 * (math.fsum(size) + abs(want) + sum(abs(w[3]) for w in wells)) + 1e-9:
        raise Bad('the flux out of the circle is %r, should be %r (wells inside withdraw %r)' % (got, want, inside))
    st.outcome((coef, wi, round(got, 6)))


def gradient(case, st):
    """The discharge against the numerical gradient of the very potential the model reports (Richardson-extrapolated)."""
    coef, wi, origin, px, py = case
    xo, yo, gx, gy = ORIGINS[origin]
    wells = [(w[0] + gx, w[1] + gy, w[2], w[3]) for w in WELLS[wi]]
    x, y = px + gx, py + gy
    near = min([math.hypot(x - w[0], y - w[1]) for w in wells], default=100.0)
    if near < 0.9:
        st.skipped += 1
        return
    mo = Model(0.0, 10.0, 0.25, 20.0, wells, xo + gx, yo + gy, coef)
    h = 2.0 ** -5

    def d(f, h):
        return (f(h) - f(-h)) / (2 * h)
    got = mo.compute_discharge(x, y)
    for k, f in enumerate((lambda s: mo.compute_potential(x + s, y), lambda s: mo.compute_potential(x, y + s))):
        g1, g2, g3 = d(f, h), d(f, h / 2), d(f, h / 4)
        a, b = (4 * g2 - g1) / 3, (4 * g3 - g2) / 3
        g = (16 * b - a) / 15
        scale = abs(f(0.0)) + sum(abs(w[3]) for w in wells) + 1.0
        if not abs(float(got[k]) + g) <= 1e-7 * scale:
            raise Bad('component %d of the discharge at (%r, %r) is %r, minus the gradient is %r' % (k, x, y, float(got[k]), -g))
        st.outcome((coef, wi, k, round(g, 3)))


def judge(mo, s, x, y, after):
    p, qx, qy = terms(s['coef'], s['xo'], s['yo'], s['wells'], x, y)
    when = 'at (%r, %r), after %r' % (x, y, after)
    same(mo.compute_potential(x, y), p, 'the potential ' + when)
    q = mo.compute_discharge(x, y)
    same(q[0], qx, 'the x-discharge ' + when)
    same(q[1], qy, 'the y-discharge ' + when)
    same(mo.compute_potential_wells_only(x, y), p[6:] or [0.0], 'the potential of the wells ' + when)
    try:
        mo.compute_velocity(x, y)
    except AquiferError:
        pass


def history(case, st):
    """Every sequence of changes to one model, asked before and after each."""
    histories.replay(case[0], judge, st, case[1])
    st.traces += 1
    st.outcome(case)


def main(ctx):
    vals = (0.0, 1.0, -2.0)
    coefs = list(itertools.product(vals, repeat=6))
    scaled = [tuple(c * s for c, s in zip(cc, (-3e-5, 1e-4, -2e-5, 0.35, -1.25, 4321.5))) for cc in coefs[::7]]
    cases = []
    for wi in range(len(WELLS)):
        orders = list(itertools.permutations(range(len(WELLS[wi]))))
        for oi, origin in enumerate(range(len(ORIGINS))):
            for k, order in enumerate(orders if ctx.thorough else orders[:6]):
                cs = coefs + scaled if k == 0 else coefs[k::40] + scaled[k::17]
                if not ctx.thorough and k == 0:
                    cs = coefs[oi % 2::2] + scaled[oi % 3::3]
                for j in range(0, len(cs), 40):
                    cases.append((tuple(cs[j:j + 40]), wi, order, origin, (k + j // 40 + oi // 2) % len(ATTRS), (k + j // 40 + oi) % 5))
    ctx.bounds = dict(coefficients='{0,1,-2}^6 and scaled', wells=WELLS, origins=ORIGINS, places=PLACES)
    ctx.run('closed form', block, cases)
    ctx.run('many wells', many, [(n, rows, c, o, (n + o + f) % len(ATTRS), f, s) for n in ctx.pick((5, 9, 17, 30, 65, 150), (5, 6, 7, 8, 9, 10, 11, 13, 16, 17, 20, 21, 25, 30, 33, 50, 65, 100, 101, 150, 400)) for rows in (3, 8)
                                 for c in (coefs[0], coefs[500], scaled[3]) for o in range(len(ORIGINS)) for f in range(5) for s in (1, -1)])
    fc = [(0, 0, 0, 0, 0, 0), (-3e-5, 1e-4, 2e-5, 0.35, -1.25, 400.0), (1.0, -2.0, 1.0, -2.0, 1.0, 1.0), (1.0, 0, 0, 0, 0, 0), (0, 1.0, 0, 0, 0, 0), (0, 0, 1.0, 0, 0, 0), (0, 0, 0, 1.0, -2.0, 5.0)]
    centres = [(0.0, 0.0), (3.0, -2.0), (3.5, 1.5), (-40.0, 0.0), (50.0, 2.0)]
    radii = [0.25, 0.75, 3.0, 8.0, 30.0, 75.0, 300.0]
    ctx.run('flux through circles', flux, [(c, w, o, x, y, r) for c in fc for w in range(len(WELLS)) for o in (range(4) if ctx.thorough else (0, 3)) for x, y in centres for r in radii])
    gp = PLACES if not ctx.thorough else PLACES + [(a, b) for a in (-9.0, 1.5, 5.0, 33.0) for b in (-7.0, 0.25, 6.5, 90.0)]
    ctx.run('numerical gradient', gradient, [(c, w, o, x, y) for c in fc for w in range(len(WELLS)) for o in range(2) for x, y in gp])
    ctx.run('histories of a model', history, histories.sequences(ctx.pick(3, 4)))
