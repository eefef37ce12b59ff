"""
Reference models: short, boring, independent of the code under test.
"""
from fractions import Fraction
import math

import numpy as np


# ---------------------------------------------------------------------------------------------- geometry (exact)
def dist2_exact(ax, ay, bx, by, cx, cy):
    """Exact squared distance (Fraction) from point c to the segment ab; any numbers."""
    ax, ay, bx, by, cx, cy = map(Fraction, (ax, ay, bx, by, cx, cy))
    ux, uy, wx, wy = bx - ax, by - ay, cx - ax, cy - ay
    l2 = ux * ux + uy * uy
    if l2 == 0:
        return wx * wx + wy * wy
    t = min(Fraction(1), max(Fraction(0), (ux * wx + uy * wy) / l2))
    dx, dy = wx - t * ux, wy - t * uy
    return dx * dx + dy * dy


def polyline_dist(xs, ys, px, py):
    """Float distances of points (px, py: flat arrays) to a polyline with at least one vertex."""
    xs, ys = np.asarray(xs, float), np.asarray(ys, float)
    px, py = np.asarray(px, float).ravel(), np.asarray(py, float).ravel()
    if len(xs) == 1:
        return np.hypot(px - xs[0], py - ys[0])
    best = np.full(px.shape, np.inf)
    ax, ay, bx, by = xs[:-1], ys[:-1], xs[1:], ys[1:]
    keep = np.ones(len(ax), bool)
    step = max(1, int(2e6 // max(1, len(px))))
    ux, uy = bx - ax, by - ay
    l2 = ux * ux + uy * uy
    l2s = np.where(l2 > 0, l2, 1.0)
    for s in range(0, len(ax), step):
        e = slice(s, s + step)
        wx = px[:, None] - ax[None, e]
        wy = py[:, None] - ay[None, e]
        t = np.clip((wx * ux[e] + wy * uy[e]) / l2s[e], 0.0, 1.0)
        d2 = (wx - t * ux[e]) ** 2 + (wy - t * uy[e]) ** 2
        best = np.minimum(best, d2.min(axis=1))
    return np.sqrt(best)


# ---------------------------------------------------------------------------------------------- flow model
def potential(coef, xo, yo, wells, x, y):
    dx, dy = x - xo, y - yo
    a, b, c, d, e, f = coef
    p = a * dx * dx + b * dy * dy + c * dx * dy + d * dx + e * dy + f
    for w in wells:
        p = p + w[3] / (2 * math.pi) * np.log(np.hypot(x - w[0], y - w[1]))
    return p


def discharge(coef, xo, yo, wells, x, y):
    dx, dy = x - xo, y - yo
    a, b, c, d, e, f = coef
    qx = -(2 * a * dx + c * dy + d)
    qy = -(2 * b * dy + c * dx + e)
    for w in wells:
        rx, ry = x - w[0], y - w[1]
        r2 = rx * rx + ry * ry
        qx = qx - w[3] / (2 * math.pi) * rx / r2
        qy = qy - w[3] / (2 * math.pi) * ry / r2
    return qx, qy


def head_of_potential(phi, k, thick):
    """None where dry."""
    if phi <= 0:
        return None
    if phi < 0.5 * k * thick * thick:
        return math.sqrt(2 * phi / k)
    return phi / (k * thick) + 0.5 * thick


def potential_of_head(h, k, thick):
    return 0.5 * k * h * h if h < thick else k * thick * (h - 0.5 * thick)


def fit(obs, xo, yo, base, k, thick, wells):
    """Weighted least squares by a column-scaled QR in extended precision where available."""
    A, b = [], []
    for (x, y, z, s) in obs:
        h = z - base
        if h >= thick:
            ev, sd = k * thick * (h - 0.5 * thick), k * thick * s
        else:
            ev, sd = 0.5 * k * (h * h + s * s), k * h * s
        dx, dy = x - xo, y - yo
        A.append([v / sd for v in (dx * dx, dy * dy, dx * dy, dx, dy, 1.0)])
        b.append((ev - float(potential((0, 0, 0, 0, 0, 0), xo, yo, wells, x, y))) / sd)
    A, b = np.array(A), np.array(b)
    s = np.sqrt((A * A).sum(axis=0))
    q, r = np.linalg.qr(A / s)
    ri = np.linalg.inv(r)
    coef = (ri @ (q.T @ b)) / s
    cov = (ri @ ri.T) / np.outer(s, s)
    return coef, cov


# ---------------------------------------------------------------------------------------------- observations
def filter_obs(obs, wells, buffer, too_close=1.0):
    kept = []
    for o in obs:
        if all(math.hypot(o[0] - w[0], o[1] - w[1]) > buffer for w in wells):
            kept.append(o)
    groups = []
    for o in kept:
        for g in groups:
            if math.hypot(g[0][0] - o[0], g[0][1] - o[1]) < too_close:
                g.append(o)
                break
        else:
            groups.append([o])
    out = []
    for g in groups:
        if len(g) == 1:
            out.append(tuple(g[0]))
        else:
            w = [1.0 / (o[3] ** 2) for o in g]
            out.append((g[0][0], g[0][1], sum(wi * o[2] for wi, o in zip(w, g)) / sum(w), 1 / math.sqrt(sum(w))))
    return out


# ---------------------------------------------------------------------------------------------- traces and zones
def rk4_path(vel, x0, y0, duration, ds):
    """
    Very fine fixed-length-step integration of dx/dt = vel(x, y) (vectorised over the starting points).
    Returns the list of (xs, ys) polylines. duration may be negative.
    """
    x, y = np.array(x0, float), np.array(y0, float)
    sgn = 1.0 if duration >= 0 else -1.0
    left = np.full(x.shape, abs(duration), float)
    X, Y = [x.copy()], [y.copy()]
    while True:
        u, v = vel(x, y)
        sp = np.hypot(u, v)
        h = np.minimum(left, ds / np.maximum(sp, 1e-300))
        if not np.any(h > 0):
            break
        hh = sgn * h
        k1u, k1v = u, v
        k2u, k2v = vel(x + 0.5 * hh * k1u, y + 0.5 * hh * k1v)
        k3u, k3v = vel(x + 0.5 * hh * k2u, y + 0.5 * hh * k2v)
        k4u, k4v = vel(x + hh * k3u, y + hh * k3v)
        x = x + hh / 6 * (k1u + 2 * k2u + 2 * k3u + k4u)
        y = y + hh / 6 * (k1v + 2 * k2v + 2 * k3v + k4v)
        left = np.maximum(0.0, left - h)
        left[left < 1e-12 * abs(duration)] = 0.0
        X.append(x.copy())
        Y.append(y.copy())
        if len(X) > 200000:
            raise AssertionError('reference path does not end')
    X, Y = np.array(X), np.array(Y)
    return [(X[:, i], Y[:, i]) for i in range(X.shape[1])]


class Problem:
    """A fully determined problem: model parameters, fitted coefficients, target, tracing settings."""

    def __init__(self, target, wells, base, k, n, thick, coef, xo, yo, confined):
        self.target, self.wells, self.base = target, wells, base
        self.k, self.n, self.thick, self.coef, self.xo, self.yo, self.confined = k, n, thick, coef, xo, yo, confined

    def back_velocity(self, x, y):
        qx, qy = discharge(self.coef, self.xo, self.yo, self.wells, x, y)
        if self.confined:
            t = self.thick
        else:
            phi = potential(self.coef, self.xo, self.yo, self.wells, x, y)
            if np.any(phi <= 0):
                raise ArithmeticError('reference problem runs dry')
            lim = 0.5 * self.k * self.thick ** 2
            t = np.where(phi < lim, np.sqrt(2 * np.maximum(phi, 0) / self.k), self.thick)
        return -qx / (t * self.n), -qy / (t * self.n)

    def paths(self, npaths, duration, ds):
        w = self.wells[self.target]
        th = [2 * math.pi * i / npaths for i in range(npaths)]
        x0 = np.array([w[0] + (w[2] + 1.0) * math.cos(t) for t in th])
        y0 = np.array([w[1] + (w[2] + 1.0) * math.sin(t) for t in th])
        paths = rk4_path(self.back_velocity, x0, y0, duration, ds)
        for wx, wy, _, q in self.wells:
            if q * duration < 0 and min(np.hypot(xs - wx, ys - wy).min() for xs, ys in paths) < 4 * ds:
                raise ArithmeticError('a reference trace ends in a well: no resolution resolves what follows')
        return paths


def zone_distance(paths, X, Y):
    """Distance of each point to the nearest path."""
    d = np.full(np.asarray(X).size, np.inf)
    for xs, ys in paths:
        d = np.minimum(d, polyline_dist(xs, ys, X, Y))
    return d


def nodes(pf):
    """Coordinates of the field's nodes as two (nrows, ncols) arrays."""
    x = pf.xmin + np.arange(pf.ncols) * pf.deltax
    y = pf.ymin + np.arange(pf.nrows) * pf.deltay
    return np.meshgrid(x, y)
