"""C18: all interleaved operation histories, up to a depth, on several models, fields and whole computations that share their inputs, against one shadow per object."""
import copy
import itertools
import os
import pickle
import shutil

import numpy as np

from mc import env, plots, problems as P, ref, rng, runs
from mc.core import Bad
from oneka.capturezone import compute_backtrace, compute_capturezone
from oneka.deterministic import create_deterministic_capturezone
from oneka.model import AquiferError, Model
from oneka.probabilityfield import ProbabilityField
from oneka.stochastic import create_stochastic_capturezone
from oneka.utilities import filter_obs, summary_statistics
import oneka.visualize as V

ID = 'C18'
LEVEL = 'model_checking'
RULE = ('every history of operations up to the depth, without merging of states (hidden sharing need not show in the visible state), over an alphabet of operations on two models '
        '(three in part), on two fields, and of whole computations; after every operation every object is queried and compared with its own shadow, and all inputs with their '
        'originals; a state is the vector of shadows, a transition one operation')
ASSUMPTIONS = ['a model is used through its documented attributes and methods', 'two query points per model']

# ------------------------------------------------------------------------------------------------ models
WELLS = {0: [(10.0, 5.0, 0.25, 120.0)], 1: [[-30.0, 12.5, 1.0, -40.0], (55.0, -60.0, 0.5, 75.0)], 2: []}
ARRAYS = {0: np.array([0.001, -0.002, 0.0005, 0.03, -0.02, 700.0]), 1: np.array([[-0.002], [0.001], [0.001], [0.5], [0.25], [2600.0]])}
OBS = {0: [tuple(o) for o in P.observations(0.0, 0.0, 100.0, 'unconfined')], 1: [list(o) for o in P.observations(20.0, -10.0, 100.0, 'confined')]}
POINTS = [(3.0, -7.0), (140.0, 60.0)]
SNAP = copy.deepcopy((WELLS, ARRAYS, OBS))

NEW = {'n0': (100.0, 10.0, 0.2, 15.0, 0, 0, 0, None), 'n1': (100.0, 4.0, 0.3, 20.0, 1, 5.0, -5.0, 0), 'n2': (99.0, 10.0, 0.2, 15.0, 0, 0, 0, 1)}


class Shadow:
    def __init__(self, base, k, n, t, w, xo, yo, coef):
        self.base, self.k, self.n, self.t, self.w, self.xo, self.yo = base, k, n, t, w, xo, yo
        self.coef = np.zeros(6) if coef is None else np.array(SNAP[1][coef], float).ravel()

    def answers(self):
        wells = SNAP[0][self.w]
        out = []
        for x, y in POINTS:
            phi = float(ref.potential(self.coef, self.xo, self.yo, wells, x, y))
            qx, qy = ref.discharge(self.coef, self.xo, self.yo, wells, x, y)
            h = ref.head_of_potential(phi, self.k, self.t)
            v = None if h is None else (qx / (min(h, self.t) * self.n), qy / (min(h, self.t) * self.n))
            out.append((phi, (qx, qy), h, v, (qx / (self.t * self.n), qy / (self.t * self.n))))
        return out

    def state(self):
        return (self.k, self.n, self.t, self.w, self.xo, self.yo, tuple(self.coef))


def ask(m, x, y):
    def pair(v):
        return tuple(np.ravel(np.asarray(v, float)).tolist())

    def wet(f, of):
        try:
            return of(f(x, y))
        except AquiferError:
            return None
    return (float(m.compute_potential(x, y)), pair(m.compute_discharge(x, y)), wet(m.compute_head, float), wet(m.compute_velocity, pair), pair(m.compute_velocity_confined(x, y)))


def near(a, b):
    if a is None or b is None:
        return a is b
    if isinstance(a, tuple):
        return len(a) == len(b) and all(near(x, y) for x, y in zip(a, b))
    return abs(a - b) <= 1e-8 * max(1.0, abs(a), abs(b))


NAMES = ('potential', 'discharge', 'head', 'velocity', 'confined velocity')


def check_models(ms, shadows, what):
    for i, (m, s) in enumerate(zip(ms, shadows)):
        want = s.answers()
        for (x, y), w in zip(POINTS, want):
            got = ask(m, x, y)
            for n, a, b in zip(NAMES, got, w):
                if not near(a, b):
                    raise Bad('after %s the %s of model %d at (%r, %r) is %r, should be %r' % (what, n, i, x, y, a, b))
            again = ask(m, x, y)
            if again != got:
                raise Bad('after %s repeating a query of model %d gives %r after %r' % (what, i, again, got))
    check_inputs(what)


def check_inputs(what):
    if WELLS != SNAP[0] or OBS != SNAP[2] or any(not np.array_equal(ARRAYS[k], SNAP[1][k]) for k in ARRAYS):
        now = repr((WELLS, ARRAYS, OBS))[:200]
        restore()
        raise Bad('after %s the inputs are modified: %s...' % (what, now))


def restore():
    for d, s in zip((WELLS, ARRAYS, OBS), copy.deepcopy(SNAP)):
        d.clear()
        d.update(s)


def apply_model(ms, sh, op):
    kind, i = op[0], op[1]
    if kind == 'new':
        b, k, n, t, w, xo, yo, c = NEW[op[2]]
        if c is None:
            ms[i] = Model(b, k, n, t, WELLS[w])
        else:
            ms[i] = Model(b, k, n, t, WELLS[w], xo, yo, ARRAYS[c])
        sh[i] = Shadow(*NEW[op[2]])
    elif kind == 'set':
        ms[i].coef = ARRAYS[op[2]]
        sh[i].coef = SNAP[1][op[2]].ravel().copy()
    elif kind == 'take':
        ms[i].coef = ms[op[2]].coef
        sh[i].coef = sh[op[2]].coef.copy()
    elif kind == 'poke':
        ms[i].coef[5] += 640.0
        ms[i].coef[3] += 0.125
        sh[i].coef[5] += 640.0
        sh[i].coef[3] += 0.125
    elif kind == 'add':
        ms[i].coef += 0.25
        sh[i].coef = sh[i].coef + 0.25
    elif kind == 'fit':
        s = sh[i]
        obs = OBS[op[2]]
        xo, yo = (4.0, 8.0) if op[2] else (-6.0, 2.0)
        ev, cov = ms[i].fit_regional_flow(obs, xo, yo)
        want, wcov = ref.fit(SNAP[2][op[2]], xo, yo, s.base, s.k, s.t, SNAP[0][s.w])
        sd = np.sqrt(np.diag(wcov))
        if np.abs((np.ravel(ev) - want) / sd).max() > 1e-6:
            raise Bad('the fit of model %d yields %r instead of %r' % (i, np.ravel(ev).tolist(), want.tolist()))
        s.coef, s.xo, s.yo = np.ravel(ev).astype(float).copy(), xo, yo
        ev[:] = -1.0
        cov[:] = 5.0
    elif kind == 'par':
        for a, b, v in {0: [('conductivity', 'k', 25.0)], 1: [('thickness', 't', 9.0), ('porosity', 'n', 0.11)], 2: [('xo', 'xo', 12.0), ('yo', 'yo', -3.0)], 3: [('wells', 'w', 2)], 4: [('wells', 'w', 1)]}[op[2]]:
            setattr(ms[i], a, WELLS[v] if a == 'wells' else v)
            setattr(sh[i], b, v)
    elif kind == 'trace':
        m = ms[i]
        out = compute_backtrace(3.0, -7.0, 0.5, 0.5, 5.0, lambda xy: -np.array(m.compute_velocity_confined(xy[0], xy[1])))
        out[0] = None
        if len(out) > 1 and isinstance(out[-1], np.ndarray):
            out[-1][:] = 0.0


def model_ops(n):
    ops = []
    for i in range(n):
        ops += [('new', i, k) for k in NEW] + [('set', i, 0), ('set', i, 1), ('poke', i), ('add', i), ('fit', i, 0), ('fit', i, 1), ('trace', i)]
        ops += [('par', i, k) for k in range(5)]
        ops += [('take', i, j) for j in range(n) if j != i]
    return ops


def models(case, st):
    """All histories that begin with the given operations, to the given depth."""
    n, prefix, depth = case
    ops = model_ops(n)
    for tail in itertools.product(ops, repeat=depth - len(prefix)):
        hist = tuple(prefix) + tail
        ms, sh = [None] * n, [None] * n
        try:
            for i in range(n):
                apply_model(ms, sh, ('new', i, 'n0'))
            for k, op in enumerate(hist):
                apply_model(ms, sh, op)
                if k >= len(hist) - 1 or tail == () or k < len(prefix):
                    check_models(ms, sh, '%r' % (hist[:k + 1],))
                st.transitions += 1
        except Bad as b:
            raise Bad(b.what, case=(n, hist, len(hist)))
        except Exception as e:
            raise Bad('%r: %s: %s' % (hist, type(e).__name__, e), case=(n, hist, len(hist)))
        st.states += 1
        st.traces += 1
    st.outcome([s.state() for s in sh])


# ------------------------------------------------------------------------------------------------ fields
TRACKS = {'t0': ([0.2, 2.7, 2.7], [0.1, 0.4, 2.2]), 't1': ([-1.6, -1.6], [3.1, 3.1]), 't2': (np.array([1.0, 0.0, -3.0]), np.array([0.0, 0.0, 0.5])), 't3': ([0.0, 2.0, 2.0], [0.0, 1.0, 1.0]), 't4': ([0.0, 0.1], [0.1, 0.0])}
SNAPT = copy.deepcopy(TRACKS)
SPACES = [(1.0, 1.0, 0.0, 0.0), (1.0, 1.0, 0.0, 0.0), (0.75, 1.5, None, None)]


class FieldShadow:
    def __init__(self, space):
        self.space = space
        self.weight = {}
        self.visited = set()
        self.total = 0.0


def near_nodes(space, track, umbra, origin):
    """Lattice nodes (indices from the origin) closer than the umbra to a track."""
    xs, ys = SNAPT[track]
    dx, dy = space[0], space[1]
    out = set()
    i0, i1 = int((min(xs) - umbra - origin[0]) / dx) - 2, int((max(xs) + umbra - origin[0]) / dx) + 2
    j0, j1 = int((min(ys) - umbra - origin[1]) / dy) - 2, int((max(ys) + umbra - origin[1]) / dy) + 2
    X, Y = np.meshgrid(origin[0] + dx * np.arange(i0, i1 + 1), origin[1] + dy * np.arange(j0, j1 + 1))
    d = ref.polyline_dist(xs, ys, X, Y).reshape(X.shape)
    for a, b in np.argwhere(d < umbra):
        out.add((i0 + int(b), j0 + int(a)))
    return out


_near = {}


def check_field(pf, s, what, i):
    if pf.nrows == 0:
        if s.visited or s.weight:
            raise Bad('%s: field %d has lost its grid' % (what, i))
        return
    g, r = np.asarray(pf.pgrid), np.asarray(pf.rgrid)
    o = s.origin
    c0, r0 = round((pf.xmin - o[0]) / s.space[0]), round((pf.ymin - o[1]) / s.space[1])
    got = {(int(b) + c0, int(a) + r0): float(g[a, b]) for a, b in np.argwhere(g)}
    vis = {(int(b) + c0, int(a) + r0) for a, b in np.argwhere(r)}
    if got != s.weight or vis != s.visited or pf.total_weight != s.total:
        raise Bad('%s: field %d holds weights %r, visits %r, total %r; should be %r, %r, %r' % (what, i, sorted(got.items())[:8], sorted(vis)[:8], pf.total_weight, sorted(s.weight.items())[:8], sorted(s.visited)[:8], s.total))


def still(xy):
    return np.array([0.0, 0.0])


def apply_field(fs, sh, op):
    kind, i = op[0], op[1]
    if kind == 'new':
        sp = SPACES[op[2]]
        fs[i] = ProbabilityField(sp[0], sp[1]) if sp[2] is None else ProbabilityField(*sp)
        sh[i] = FieldShadow(sp)
        sh[i].origin = None if sp[2] is None else (sp[2], sp[3])
        return
    pf, s = fs[i], sh[i]
    if kind == 'track':
        x, y = TRACKS[op[2]]
        pf.rasterize(x, y, op[3])
        if s.origin is None:
            s.origin = (pf.xmin, pf.ymin)
        key = (op[2], op[3], s.space, s.origin)
        if key not in _near:
            _near[key] = near_nodes(s.space, op[2], op[3], s.origin)
        s.visited = s.visited | _near[key]
    elif kind == 'register':
        pf.register(op[2])
        for c in s.visited:
            s.weight[c] = s.weight.get(c, 0.0) + op[2]
        s.visited = set()
        s.total += op[2]
    elif kind == 'reset':
        pf.reset()
        s.visited = set()
    elif kind == 'expand':
        pf.expand(-4.0, 3.0, -2.0, 5.5)
        if s.origin is None:
            s.origin = (pf.xmin, pf.ymin)
    elif kind == 'zone':
        compute_capturezone(1.0, 0.5, 0.25, 3, 1.0, pf, 1.2, 2.0, 1.0, 1.0, still)
        if s.origin is None:
            s.origin = (pf.xmin, pf.ymin)
        th = 2 * np.pi * np.arange(3) / 3
        for t in th:
            TR = 'zone%.3f' % t
            SNAPT[TR] = ([1.0 + 1.25 * np.cos(t)] * 2, [0.5 + 1.25 * np.sin(t)] * 2)
            s.visited = s.visited | near_nodes(s.space, TR, 1.2, s.origin)
        for c in s.visited:
            s.weight[c] = s.weight.get(c, 0.0) + 2.0
        s.visited = set()
        s.total += 2.0


def field_ops(n, many):
    ops = []
    for i in range(n):
        ops += [('track', i, 't0', 0.9), ('track', i, 't1', 1.3), ('register', i, 1.0), ('reset', i), ('expand', i), ('new', i, 0)]
        if many:
            ops += [('track', i, 't2', 0.6), ('track', i, 't3', 1.1), ('register', i, 0.5), ('new', i, 2), ('zone', i), ('track', i, 't4', 0.85)]
    return ops


def fields(case, st):
    n, many, prefix, depth = case
    ops = field_ops(n, many)
    for tail in itertools.product(ops, repeat=depth - len(prefix)):
        hist = tuple(prefix) + tail
        fs, sh = [None] * n, [None] * n
        try:
            for i in range(n):
                apply_field(fs, sh, ('new', i, min(i, len(SPACES) - 1)))
            for k, op in enumerate(hist):
                apply_field(fs, sh, op)
                st.transitions += 1
            for i in range(n):
                check_field(fs[i], sh[i], 'after %r' % (hist,), i)
            for t in ('t0', 't1', 't2', 't3', 't4'):
                if not all(np.array_equal(a, b) for a, b in zip(TRACKS[t], SNAPT[t])):
                    TRACKS.update(copy.deepcopy({t: SNAPT[t]}))
                    raise Bad('after %r the track %s is modified' % (hist, t))
        except Bad as b:
            raise Bad(b.what, case=(n, many, hist, len(hist)))
        except Exception as e:
            raise Bad('%r: %s: %s' % (hist, type(e).__name__, e), case=(n, many, hist, len(hist)))
        st.states += 1
        st.traces += 1
    st.outcome([(sorted(s.weight.items()), sorted(s.visited)) for s in sh])


# ------------------------------------------------------------------------------------------------ whole computations
def make_inputs():
    out = {}
    for name, ws, regime in (('A', 'pair', 'confined'), ('B', 'three', 'unconfined')):
        p = P.problem(ws, regime, duration=6.0, npaths=2, spacing=6.0, umbra=5.0, many=0 if name == 'A' else 33)
        p['wells'] = [[int(w[0]) if w[0] == int(w[0]) else w[0], w[1], 1 if name == 'B' else w[2], [w[3] * 0.9, w[3] * 1.1] if w[3] > 0 else w[3]] for w in p['wells']]
        if name == 'A':
            p['wells'].append([310.0, -290, 2, 0])
        p['obs'] = [list(o) for o in p['obs']] + [[P.PLACES[0][0] + p['wells'][0][0], P.PLACES[0][1] + p['wells'][0][1], p['obs'][0][2] + 0.5, 0.3]]
        p['obs'][1][:2] = [int(c) for c in p['obs'][1][:2]]
        p['c_dist'] = [9, 12.0, 18]
        p['t_dist'] = [17.0, 22.0]
        out[name] = p
    # B shares A's lists in part
    out['B']['c_dist'] = out['A']['c_dist']
    return out


COMPUTATIONS = ['det A', 'det B', 'sto A', 'sto B', 'filter A', 'filter B', 'fit A', 'fit B', 'summary A', 'zone A', 'once A', 'once B', 'twice A', 'twice B', 'maps A', 'maps B', 'plots A', 'plots B']


class Source(rng.Env):
    def __init__(self):
        super().__init__()
        self.i = 0

    def quantile(self, kind, params):
        self.i += 1
        return (0.1, 0.7, 0.4, 0.9, 0.25)[self.i % 5]

    def gauss(self, n):
        self.i += 1
        return np.array([0.5, -1.0, 0.25, 1.0, -0.5, 0.75])[:n] * (1 if self.i % 2 else -1)


def dumped(pf):
    return (pf.xmin, pf.ymin, pf.nrows, pf.ncols, pf.total_weight, np.asarray(pf.pgrid).tobytes(), np.asarray(pf.rgrid).tobytes())


def drawn(before, rec):
    """What the figures opened since show."""
    import matplotlib.pyplot as plt
    out = []
    for n in plt.get_fignums():
        if n not in before:
            for ax in plt.figure(n).axes:
                maps = [(np.asarray(a[-1] if len(a) < 3 else a[2], float).tobytes(), repr(k.get('levels'))) for _, x, a, k in rec.calls if x is ax]
                out.append(([(np.asarray(l.get_xdata(), float).tobytes(), np.asarray(l.get_ydata(), float).tobytes()) for l in ax.lines], len(ax.patches), maps, ax.get_xlabel(), ax.get_ylabel()))
    return out


def whole_run(p, n):
    """A complete run in a directory of its own; the figures of earlier runs stay open."""
    import matplotlib.pyplot as plt
    from oneka.oneka import oneka
    before = set(plt.get_fignums())
    here = os.getcwd()
    d = os.path.join(env.scratch(), 'c18-%d-%d' % (os.getpid(), next(runs._count)))
    os.makedirs(d)
    os.chdir(d)
    try:
        with env.LogTap() as tap, plots.Recorder() as rec:
            pf = oneka('a project', 'some time', p['target'], p['npaths'], p['duration'], n, p['base'], p['c_dist'], p['p_dist'], p['t_dist'], p['wells'], p['obs'], buffer=30.0, spacing=p['spacing'],
                       umbra=p['umbra'], smooth=1, confined=p['confined'], tol=p['tol'], maxstep=p['maxstep'])
            return (dumped(pf), [l for l in tap.lines() if 'rchive' not in l], drawn(before, rec), len(runs.files(d)))
    finally:
        os.chdir(here)
        shutil.rmtree(d, ignore_errors=True)


def sketched(f):
    """The maps of a model, or the reports of a field, each with figures of its own."""
    import matplotlib.pyplot as plt
    before = set(plt.get_fignums())
    with plots.Recorder() as rec:
        out = f()
        return out, drawn(before, rec)


def compute(name, inputs):
    what, which = name.split()
    p = inputs[which]
    args = (p['target'], p['npaths'], p['duration'], p['base'], p['c_dist'], p['p_dist'], p['t_dist'], p['wells'])
    rest = (p['spacing'], p['umbra'], p['confined'], p['tol'], p['maxstep'])
    with rng.active(Source()):
        if what == 'det':
            return dumped(create_deterministic_capturezone(*(args + (p['obs'],) + rest)))
        if what == 'sto':
            return dumped(create_stochastic_capturezone(*(args[:3] + (2,) + args[3:] + (p['obs'],) + rest)))
        if what in ('once', 'twice'):
            return whole_run(p, 1 if what == 'once' else 2)
        if what == 'maps':
            import matplotlib.pyplot as plt
            w = p['wells'][0]
            m = Model(p['base'], 12.0, 0.2, 20.0, [tuple(w[:3]) + (100.0,) for w in p['wells']], w[0], w[1], np.array([-1e-3, 5e-4, 1e-4, 3.0, -2.0, 300.0]))

            def both():
                for f in (V.contour_head, V.contour_potential):
                    plt.figure()
                    f(m, w[0] - 200.0, w[0] + 200.0, w[1] - 150.0, w[1] + 150.0, 5, 4)
            return sketched(both)
        if what == 'plots':
            f = ProbabilityField(4.0, 4.0, 1.0, 2.0)
            f.rasterize([1.0, 30.0], [2.0, 14.0 if which == 'A' else -20.0], 6.0)
            f.register(1.0)
            f.rasterize([1.0, 20.0], [2.0, 24.0], 5.0)
            f.register(2.0)
            return sketched(lambda: (repr(V.create_deterministic_plot(p['target'], p['wells'], p['obs'], f)), V.create_probability_plot(p['target'], p['wells'], p['obs'], f, 1),
                                     [np.asarray(z).tobytes() for z in V.create_impact_plot(4.0, f)])[::2])
        if what == 'filter':
            return [tuple(float(c) for c in o) for o in filter_obs(p['obs'], p['wells'], 50.0)]
        if what == 'summary':
            return summary_statistics(p['obs'], ['a', 'b', 'c', 'd'], ['12.2f'] * 4, 'title').getvalue()
        m = Model(p['base'], 12.0, 0.2, 20.0, [tuple(w[:3]) + (100.0,) for w in p['wells']])
        ev, cov = m.fit_regional_flow(p['obs'], 1.0, 2.0)
        if what == 'fit':
            return (np.asarray(ev).tobytes(), np.asarray(cov).tobytes())
        pf = ProbabilityField(6.0, 6.0, 0.0, 0.0)
        compute_capturezone(0.0, 0.0, 0.25, 2, 5.0, pf, 5.0, 1.0, 0.1, 2.0, lambda xy: -np.array(m.compute_velocity(xy[0], xy[1])))
        return dumped(pf)


_first = {}


def alone(name):
    """The answer of a computation on its own, in a process in which nothing else has run."""
    if name not in _first:
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                try:
                    out = ('ok', compute(name, make_inputs()))
                except Exception as e:
                    out = ('error', '%s: %s' % (type(e).__name__, e))
                with os.fdopen(w, 'wb') as f:
                    f.write(pickle.dumps(out))
            finally:
                os._exit(0)
        os.close(w)
        with os.fdopen(r, 'rb') as f:
            data = f.read()
        os.waitpid(pid, 0)
        _first[name] = pickle.loads(data)
    return _first[name]


def computations(case, st):
    import matplotlib.pyplot as plt
    plt.close('all')
    inputs = make_inputs()
    before = copy.deepcopy(inputs)
    for k, name in enumerate(case):
        kind, want = alone(name)
        if kind == 'error':
            raise Bad('%s fails on its own: %s' % (name, want))
        got = compute(name, inputs)
        st.transitions += 1
        if got != want:
            raise Bad('%r after %r does not give what it gives on its own' % (name, case[:k]))
        if inputs != before or repr(inputs) != repr(before):
            raise Bad('%r modifies its inputs' % (name,))
    st.states += 1
    st.traces += 1
    st.outcome(case)


def main(ctx):
    runs.warm()
    for c in COMPUTATIONS:
        alone(c)
    d = ctx.pick(3, 4)
    ops = model_ops(2)
    ctx.run('two models', models, [(2, (a, b), d) for a in ops for b in ops] + [(2, (a,), 1) for a in ops] + [(2, (a, b), 2) for a in ops for b in ops], limit=240)
    ops3 = model_ops(3)
    ctx.run('three models', models, [(3, (a,), ctx.pick(2, 3)) for a in ops3], limit=240)
    f = field_ops(2, True)
    ctx.run('two fields', fields, [(2, True, (a, b), ctx.pick(3, 4)) for a in f for b in f] + [(2, True, (a,), 2) for a in f], limit=240)
    f = field_ops(2, False)
    ctx.run('two fields, deeper', fields, [(2, False, (a, b), ctx.pick(4, 5)) for a in f for b in f], limit=240)
    f = field_ops(3, False)
    ctx.run('three fields', fields, [(3, False, (a,), ctx.pick(3, 4)) for a in f], limit=240)
    n = ctx.pick(2, 3)
    ctx.run('whole computations', computations, [c for k in range(1, n + 1) for c in itertools.product(COMPUTATIONS, repeat=k)] + [c + c + c for c in itertools.product(COMPUTATIONS[:4], repeat=2)])
    ctx.bounds = dict(model_operations=len(ops), depth_models=d, depth_fields=ctx.pick(4, 5), computations=len(COMPUTATIONS), depth_computations=n)
