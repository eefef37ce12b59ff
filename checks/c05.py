"""C05: heads and velocities over every combination of aquifer properties and potentials around the dry and confined limits, against the law."""
import math

import numpy as np

from mc import histories, ref
from mc.core import Bad
from oneka.model import AquiferError, Model

ID = 'C05'
LEVEL = 'exploration'
RULE = ('full product of (base, K, n, H) x potentials (negative, zero, tiny, unconfined, the confined limit and its floating-point neighbours, confined) x '
        'discharges, and places around real wells; all sequences of up to 3 (thorough: 4) changes to the attributes of a model and refits, asked before and after each; an outcome is a (head, velocity) pair or a dry error')
ASSUMPTIONS = ['positive potentials of at least 1e-250', 'relative tolerance 1e-9']


def potentials(k, h, rich):
    lim = 0.5 * k * h * h
    f = [-1e6, -lim, -1.0, -1e-9, -1e-300, -0.0, 0.0, 1e-250, 1e-12, 1e-6]
    near = [lim]
    for _ in range(4):
        near.append(np.nextafter(near[-1], np.inf))
    lo = lim
    for _ in range(4):
        lo = np.nextafter(lo, 0)
        near.append(lo)
    m = 400 if rich else 40
    f += [float(z) for z in near] + [lim * q for q in (1e-4, 0.01, 0.1, 0.25, 0.5, 0.9, 0.999, 1.001, 1.01, 1.1, 1.5, 2.0, 2.5, 3.0, 4.0, 10.0, 1e3, 1e6)]
    f += [lim * (i + 0.5) * 2.5 / m for i in range(m)]
    return sorted(set(f), key=float)


def check_at(mo, x, y, phi, st, head=True):
    """Head and velocities at one place whose potential is known."""
    k, n, thick = mo.conductivity, mo.porosity, mo.thickness
    want = ref.head_of_potential(phi, k, thick)
    st.evaluations += 1
    if want is None:
        for name in ('compute_head', 'compute_velocity'):
            try:
                v = getattr(mo, name)(x, y)
            except AquiferError:
                continue
            raise Bad('%s answers %r where the potential is %r' % (name, v, phi))
        st.outcome('dry')
        return None
    h = float(mo.compute_head(x, y))
    if not abs(h - want) <= 1e-9 * want:
        raise Bad('head %r at potential %r, should be %r' % (h, phi, want))
    back = ref.potential_of_head(h, k, thick)
    if not abs(back - phi) <= 1e-8 * max(phi, 0):
        raise Bad('head %r corresponds to potential %r, not %r' % (h, back, phi))
    q = mo.compute_discharge(x, y)
    v = mo.compute_velocity(x, y)
    c = mo.compute_velocity_confined(x, y)
    if len(v) != 2 or len(c) != 2:
        raise Bad('a velocity has two components')
    for i in range(2):
        e = q[i] / (n * min(want, thick))
        if not abs(v[i] - e) <= 1e-9 * abs(e) + 1e-300:
            raise Bad('velocity component %d is %r, should be %r (head %r)' % (i, v[i], e, h))
        e = q[i] / (n * thick)
        if not abs(c[i] - e) <= 1e-9 * abs(e) + 1e-300:
            raise Bad('confined velocity component %d is %r, should be %r' % (i, c[i], e))
        if want >= thick and not abs(c[i] - v[i]) <= 1e-9 * abs(e) + 1e-300:
            raise Bad('the confined shortcut differs where the head is above the thickness')
    st.outcome((round(h, 9), float(v[0]), float(v[1])))
    return h


def law(case, st):
    base, k, n, thick, abc, rich = case
    last = None
    for f in potentials(k, thick, rich):
        mo = Model(base, k, n, thick, [], 7.0, -3.0, np.array(list(abc) + [f], float))
        try:
            h = check_at(mo, 7.0, -3.0, f, st)
            if h is not None and last is not None and h < last * (1 - 1e-12):
                raise Bad('head falls from %r to %r as the potential rises to %r' % (last, h, f))
            if h is not None:
                last = h
        except Bad as b:
            raise Bad(b.what, case=(base, k, n, thick, abc, f), fn='one') from None


def one(case, st):
    base, k, n, thick, abc, f = case
    if isinstance(f, bool):
        raise AssertionError
    mo = Model(base, k, n, thick, [], 7.0, -3.0, np.array(list(abc) + [f], float))
    check_at(mo, 7.0, -3.0, f, st)
    a, b = np.nextafter(f, -np.inf), np.nextafter(f, np.inf)
    hs = []
    for g in (f * (1 - 1e-9), f * (1 - 1e-14), a, f, b, f * (1 + 1e-14), f * (1 + 1e-9)):
        if g > 0:
            hs.append(float(Model(base, k, n, thick, [], 7.0, -3.0, np.array(list(abc) + [g], float)).compute_head(7.0, -3.0)))
    if any(q < p * (1 - 1e-12) for p, q in zip(hs, hs[1:])):
        raise Bad('head falls as the potential rises to %r' % f)


def places(case, st):
    """Around real wells with a regional flow: wet, dry, unconfined and confined places on a lattice."""
    base, k, n, thick, wells, coef, row = case
    xo, yo = ((10.0, 20.0), (10.0, 0.0), (0.0, 20.0), (0.0, 0.0))[row // 6 % 4]
    mo = Model(base, k, n, thick, (list if row % 4 else tuple)(tuple(w) for w in wells), xo, yo, np.array(coef, float))
    for x in range(-60, 61, 4):
        X, Y = 10.0 + x, 20.0 + row
        if any((X - w[0]) ** 2 + (Y - w[1]) ** 2 < 1e-4 for w in wells):
            continue
        phi = float(ref.potential(coef, xo, yo, wells, X, Y))
        lim = 0.5 * k * thick * thick
        if abs(phi) < 1e-7 * lim or abs(phi - lim) < 1e-7 * lim:
            st.skipped += 1
            continue
        check_at(mo, X, Y, phi, st)


def judge(st):
    def f(mo, s, x, y, after):
        phi = float(ref.potential(s['coef'], s['xo'], s['yo'], s['wells'], x, y))
        if (mo.conductivity, mo.porosity, mo.thickness) != (s['conductivity'], s['porosity'], s['thickness']):
            raise Bad('the model forgets its properties after %r' % (after,))
        lim = 0.5 * s['conductivity'] * s['thickness'] ** 2
        if abs(phi) < 1e-7 * lim or abs(phi - lim) < 1e-7 * lim:
            st.skipped += 1
            return
        check_at(mo, x, y, phi, st)
    return f


def history(case, st):
    """Every sequence of changes to one model, asked before and after each."""
    histories.replay(case[0], judge(st), st, case[1])
    st.traces += 1


def main(ctx):
    props = [(b, k, n, h) for b in (0.0, 200.0, -15.5) for k in (0.5, 1.0, 60.0) for n in (0.05, 0.25, 1.0) for h in (0.75, 10.0, 33.3)]
    props += [(0, 1, 1, 2), (10, 3, 0.5, 7)]
    props += [(b, k, n, h) for b in (0.0, -1500.0) for k, n, h in ((1e-3, 0.3, 100.0), (0.02, 0.01, 250.0), (400.0, 0.35, 500.0), (2500.0, 1e-3, 0.02), (1e-5, 0.6, 1500.0))]
    abcs = [(0, 0, 0, 0, 0), (0, 0, 0, 1.0, 0), (0, 0, 0, -0.25, 300.0), (1e-3, -2e-3, 5e-4, -4.0, -0.5)]
    ctx.bounds = dict(properties=len(props), potentials=len(potentials(1.0, 10.0, ctx.thorough)), discharges=abcs)
    ctx.run('law', law, [p + (a, ctx.thorough) for p in props for a in abcs])
    wells = [((10.5, 20.5, 0.5, 800.0), (40.0, 20.0, 0.5, 0.0)), ((10.5, 20.5, 0.5, 800.0), (-20.0, 35.0, 0.25, 400.0)), ((10.5, 20.5, 0.5, -300.0),), (), ((10.5, 20.5, 9.0, 800.0), (-17.0, 35.0, 13.0, -90.0)), ((10.5, 20.5, 0.5, 500.0), (-20.0, 35.0, 0.25, 200.0), (33.0, -14.0, 2.0, -75.0), (50.0, 50.0, 0.5, 0.0))]
    cases = []
    for k, h in ((10.0, 10.0), (5.0, 20.0), (1.0, 3.0)):
        for w in wells:
            for f in (-200.0, 0.3, 0.9, 1.2):
                for abc in ((0, 0, 0, 1.5, -0.5), (-0.05, 0.02, 0.03, 0, 0)):
                    coef = tuple(abc) + (f * 0.5 * k * h * h if f > 0 else f,)
                    cases += [(5.0, k, 0.2, h, w, coef, r) for r in range(-60, 61, ctx.pick(6, 2))]
    ctx.run('around wells', places, cases)
    ctx.run('histories of a model', history, histories.sequences(ctx.pick(3, 4)))
