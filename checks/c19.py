"""C19: the head and potential maps over all wet/dry patterns of small windows, and all windows and grid shapes of an alphabet, on models of every regime."""
import itertools
import math

import numpy as np

from mc import plots, ref, runs
from mc.core import Bad
from oneka import visualize as V
from oneka.model import AquiferError, Model

ID = 'C19'
LEVEL = 'exploration'
RULE = ('all patterns of dry nodes on small windows (a real model that is dry exactly there), all windows x shapes x models whose wet part is any side or band of the window; every value '
        'handed to the contouring is compared with the model at its own coordinates; an outcome is a pattern of blank nodes')
ASSUMPTIONS = ['the map is read from the data handed to contourf']


class Patchy(Model):
    """A model that is dry at the given nodes (indices on the window) and otherwise what its coefficients say."""

    def setup(self, window, dry):
        self.window, self.dry = window, set(dry)
        return self

    def compute_head(self, x, y):
        x0, x1, y0, y1, nr, nc = self.window
        j = round((x - x0) / (x1 - x0) * (nc - 1))
        i = round((y - y0) / (y1 - y0) * (nr - 1))
        if (i, j) in self.dry:
            raise AquiferError('dry')
        return super().compute_head(x, y)


def draw(f, mo, window):
    import matplotlib.pyplot as plt
    plt.close('all')
    try:
        with plots.Recorder() as rec:
            f(mo, *window)
        maps = rec.maps('contourf') or rec.maps('contour')
        if len(maps) != 1:
            raise Bad('%d maps are drawn' % len(maps))
        return maps[0]
    finally:
        plt.close('all')


def judge(name, m, window, value, st):
    """value(x, y) -> number or None (blank)."""
    x0, x1, y0, y1, nr, nc = window
    X, Y, Z, _ = m
    if Z.shape != (nr, nc):
        raise Bad('the %s map has %r values for %d rows and %d columns' % (name, Z.shape, nr, nc))
    blank = []
    for i in range(nr):
        for j in range(nc):
            x, y = x0 + (x1 - x0) * j / (nc - 1), y0 + (y1 - y0) * i / (nr - 1)
            s = 1e-9 * max(abs(x0), abs(x1), abs(y0), abs(y1), x1 - x0, y1 - y0)
            if abs(X[i, j] - x) > s or abs(Y[i, j] - y) > s:
                raise Bad('the %s map places its value [%d, %d] at (%r, %r) instead of (%r, %r)' % (name, i, j, X[i, j], Y[i, j], x, y))
            w = value(x, y)
            z = float(Z[i, j])
            if w is None:
                blank.append((i, j))
                if not math.isnan(z):
                    raise Bad('the %s map shows %r at the dry location (%r, %r)' % (name, z, x, y))
            elif math.isnan(z) or abs(z - w) > 1e-6 * max(1.0, abs(w)):
                raise Bad('the %s map shows %r at (%r, %r), where the model has %r' % (name, z, x, y, w))
    st.outcome((name, window, blank))


def pattern(case, st):
    window, bits = case
    nr, nc = window[4:]
    dry = [(n // nc, n % nc) for n in range(nr * nc) if bits >> n & 1]
    mo = Patchy(100.0, 8.0, 0.2, 15.0, [(window[0] - 30.0, window[2] - 40.0, 0.5, 90.0)], window[0], window[2], np.array([-1e-4, 2e-4, 1e-4, 0.9, -0.6, 900.0])).setup(window, dry)

    def head(x, y):
        j = round((x - window[0]) / (window[1] - window[0]) * (nc - 1))
        i = round((y - window[2]) / (window[3] - window[2]) * (nr - 1))
        if (i, j) in mo.dry:
            return None
        return float(ref.head_of_potential(float(ref.potential(mo.coef, mo.xo, mo.yo, mo.wells, x, y)), mo.conductivity, mo.thickness))
    judge('head', draw(V.contour_head, mo, window), window, head, st)


def nr_(window):
    return int(window[4]) + 3 * int(window[5])


def window_(case, st):
    window, coef, wells, k, thick, which = case[:6]
    xo, yo = (window[0] + 1.0, window[2] - 2.0) if len(case) < 7 else case[6]
    mo = Model((100.0, 1234.5, -20.25, 0)[(nr_(window) + int(10 * abs(coef[3]) + abs(coef[5]))) % 4], k, 0.2, thick, [tuple(w) for w in wells], xo, yo, np.array(coef, float))

    def phi(x, y):
        return float(ref.potential(mo.coef, mo.xo, mo.yo, mo.wells, x, y))
    ties = False
    if which == 'head':
        def value(x, y):
            return ref.head_of_potential(phi(x, y), k, thick)
        x0, x1, y0, y1, nr, nc = window
        for x in np.linspace(x0, x1, nc):
            for y in np.linspace(y0, y1, nr):
                ties = ties or abs(phi(x, y)) < 1e-9 * (1 + abs(coef[5]))
        m = draw(V.contour_head, mo, window)
        if ties:
            st.skipped += 1
            return
        judge('head', m, window, value, st)
    else:
        judge('potential', draw(V.contour_potential, mo, window), window, phi, st)


def main(ctx):
    runs.warm()
    shapes = ctx.pick([(2, 2), (2, 3), (3, 2), (3, 3)], [(2, 2), (2, 3), (3, 2), (3, 3), (2, 5), (4, 3)])
    cases = []
    for k, (nr, nc) in enumerate(shapes):
        w = [(0.0, 100.0, 0.0, 50.0), (302338.25, 302838.25, 5162551.75, 5163551.75), (-40.0, 10.0, -90.0, 85.0)][k % 3] + (nr, nc)
        cases += [(w, b) for b in range(2 ** (nr * nc))]
    ctx.run('dry patterns', pattern, cases)
    # planes, valleys, ridges and saddles of potential, wet on any side or nowhere or everywhere; wells that dry up their surroundings
    coefs = [(0, 0, 0, a, b, c) for a in (-2.0, 0.0, 3.0) for b in (-1.0, 0.0, 2.5) for c in (-400.0, -1.0, 0.0, 37.0, 900.0)]
    coefs += [(a, b, c, 0.5, -0.25, f) for a in (-0.03, 0.02) for b in (-0.02, 0.04) for c in (0.0, 0.03) for f in (-60.0, 40.0, 800.0)]
    windows = [(0.0, 100.0, 0.0, 50.0, 4, 6), (-60.0, 40.0, -90.0, 110.0, 7, 3), (302338.25, 302438.25, 5162551.75, 5162751.75, 2, 5), (10.0, 10.5, -3.0, 97.0, 6, 2)]
    if ctx.thorough:
        windows += [(0.0, 100.0, 0.0, 50.0, r, c) for r in range(2, 9) for c in range(2, 9)]
    wellss = [(), ((33.3, 27.1, 0.25, 900.0), (61.7, -12.3, 0.25, -500.0)), ((30.3, 27.1, 40.5, 300.0), (74.7, 8.3, 12.25, -500.0), (-5.1, -3.3, 3, 0))]
    cs = []
    n = 0
    for w in windows:
        for coef in coefs:
            for ws in wellss:
                for which in ('head', 'potential'):
                    n += 1
                    if ctx.thorough or n % 3 == 0 or abs(coef[5]) <= 1:
                        cs.append((w, coef, tuple((a + w[0], b + w[2], r, q) for a, b, r, q in ws), (8.0, 2.5)[n // 2 % 2], (6.0, 30.0)[n // 4 % 2], which))
    # every small shape, in windows of all kinds
    for r in range(2, ctx.pick(8, 12)):
        for c in range(2, ctx.pick(8, 12)):
            for which in ('head', 'potential'):
                w = [(-20.0, 20.0, -35.0, 35.0), (5.0, 5.0625, 1.0, 1.03125), (-302438.25, -302338.25, -5162751.75, -5162551.75), (0, 64, 0, 64), (-900.0, 4000.0, 2500.0, 2507.0)][(r + 2 * c + (which == 'head')) % 5] + (r, c)
                for coef in (coefs[(5 * r + c) % 20], coefs[31], coefs[-1 - (r + c) % 12]):
                    cs.append((w, coef, tuple((a + w[0], b + w[2], q, d) for a, b, q, d in wellss[(r + c) % 3]), 8.0, (6.0, 30.0)[r % 2], which))
                    if r % 2 and w[0] < 100:
                        cs.append((w, coef, (), 8.0, 30.0, which, ((0.0, 0.0), (w[0], w[2]), (w[1], w[3]))[c % 3]))
                        cs.append(((0.0, 48.0, 0.0, 48.0, r, r), coef, (), 8.0, 30.0, which, ((0.0, 0.0), (24.0, 24.0), (0.0, 5.0))[c % 3]))
    # maps of many columns and rows
    for k, (r, c) in enumerate(ctx.pick([(2, 130), (130, 2), (60, 70)], [(2, 130), (130, 2), (60, 70), (70, 60), (2, 1030), (1030, 2), (256, 3), (3, 257), (129, 101)])):
        for coef in (coefs[7], coefs[31], coefs[-4]):
            for which in ('head', 'potential'):
                cs.append(((12.0, 340.0, -90.0, 215.0, r, c), coef, tuple((a + 12.0, b - 90.0, q, d) for a, b, q, d in wellss[k % 3]), 8.0, 6.0, which))
    ctx.run('windows', window_, cs)
    ctx.bounds = dict(patterns=len(cases), windows=len(cs))
