exec(open('/verif/tools/plants/a.py').read().split('SPECS = []')[0])
SPECS = []


def s(id, property, file, old, new, what, needs, demo, more=()):
    SPECS.append(dict(id=id, property=property, edits=[(file, old, new)] + list(more), what=what, needs=needs, demo=demo))


s('c01-window', 'C01', 'oneka/probabilityfield.py', "        for j in np.arange(left, right):\n",
  """        # Remember the part of the grid touched by the current realization.
        if right > left and top > bottom:
            b, t, l, r = getattr(self, 'window', None) or (bottom, top, left, right)
            self.window = (min(b, bottom), max(t, top), min(l, left), max(r, right))

        for j in np.arange(left, right):
""", 'Only the touched part of the grid is registered, but the limits of that part are not moved when the grid grows to the west or south.',
  'a realization whose second track makes the grid grow to the west', PF + '''
pf = ProbabilityField(1.0, 1.0, 0.0, 0.0)
pf.rasterize([0.0, 6.0], [0.0, 0.0], 0.4)
pf.rasterize([0.0, -6.0], [0.0, 0.0], 0.4)
pf.register(1.0)
sys.exit(0 if pf.pgrid.sum() == 13 else '%r nodes' % pf.pgrid.sum())
''', more=[('oneka/probabilityfield.py', "        self.pgrid[self.rgrid] += weight\n        self.rgrid[:] = False\n", """        window = getattr(self, 'window', None)
        if window:
            b, t, l, r = window
            self.pgrid[b:t, l:r][self.rgrid[b:t, l:r]] += weight
        self.window = None
        self.rgrid[:] = False
""")])

s('c04-memo', 'C04', 'oneka/model.py', "        potential = 0.0\n        for well in self.wells:\n", """        if getattr(self, '_at', None) == (x, y):
            return self._contribution

        potential = 0.0
        for well in self.wells:
""", 'The contribution of the wells to the potential is remembered for the last location, and not recomputed after the discharges change.', 'the same location asked again after the wells of the model were replaced', MO + '''
m = Model(0.0, 10.0, 0.2, 20.0, [(0.0, 0.0, 0.25, 100.0)])
a = m.compute_potential(50.0, 20.0)
m.wells = [(0.0, 0.0, 0.25, 300.0)]
b = m.compute_potential(50.0, 20.0)
sys.exit(0 if abs(b - 3 * a) < 1e-9 * abs(b) else '%r after %r' % (b, a))
''', more=[('oneka/model.py', "            potential += well[3] * np.log(r2) * 0.07957747154594767     # 1/(4*pi) = 0.07957...\n\n        return potential\n",
           "            potential += well[3] * np.log(r2) * 0.07957747154594767     # 1/(4*pi) = 0.07957...\n\n        self._at, self._contribution = (x, y), potential\n        return potential\n")])

s('c05-threshold', 'C05', 'oneka/model.py', "        if potential <= 0:\n", "        if potential <= 1e-3*self.conductivity:\n",
  'A thinly saturated location (head below 4.5 cm) is reported as dry.', 'a head of some centimetres', MO + '''
m = Model(0.0, 10.0, 0.2, 20.0, [], 0.0, 0.0, np.array([0, 0, 0, 0, 0, 0.5 * 10.0 * 0.03**2]))
try:
    sys.exit(0 if abs(m.compute_head(1.0, 2.0) - 0.03) < 1e-9 else 'head')
except Exception as e:
    sys.exit(repr(e))
''')

s('c06-origin', 'C06', 'oneka/model.py', "        self.xo = xo\n        self.yo = yo\n        self.coef = coef_ev\n", "        self.xo = xo or self.xo\n        self.yo = yo or self.yo\n        self.coef = coef_ev\n",
  'A fit about an origin with a zero coordinate keeps the old origin in the model.', 'a model with another origin, fitted about (0, y)', MO + RUN + '''
m = Model(100.0, 12.0, 0.2, 20.0, [(0.0, 0.0, 0.25, 100.0)], 55.0, 20.0)
m.fit_regional_flow(observations(), 0.0, 0.0)
n = Model(100.0, 12.0, 0.2, 20.0, [(0.0, 0.0, 0.25, 100.0)])
n.fit_regional_flow(observations(), 0.0, 0.0)
a, b = m.compute_potential(30.0, 40.0), n.compute_potential(30.0, 40.0)
sys.exit(0 if abs(a - b) < 1e-6 * abs(b) else '%r instead of %r' % (a, b))
''')

s('c07-running', 'C07', 'oneka/utilities.py', "                num += ob[2]/ob[3]**2\n                den += 1/ob[3]**2\n", "                w = 1/max(ob[3], 0.01)**2\n                num += ob[2]*w\n                den += w\n",
  'The standard deviation of a merged observation is taken to be at least a centimetre.', 'duplicates more accurate than a centimetre', PF + '''
from oneka.utilities import filter_obs
r = filter_obs([(0.0, 0.0, 5.0, 0.001), (0.5, 0.0, 7.0, 0.002)], [], 1.0)[0]
sys.exit(0 if abs(r[2] - 5.4) < 1e-9 else repr(r))
''')

s('c08-floor', 'C08', 'oneka/capturezone.py', "            if (est < tol) and (ds < maxstep):\n", "            if ((est < tol) and (ds < maxstep)) or abs(dt) < 1e-6*abs(duration):\n",
  'A step shorter than a millionth of the duration is accepted whatever its error and length.', 'a long duration and flow fast enough for steps of less than a millionth of it', PF + '''
from oneka.capturezone import compute_backtrace


n = [0]


def spin(xy):
    n[0] += 1
    if n[0] > 3000:
        raise ValueError('enough')
    return np.array([100.0 if xy[0] < 5.5 else 1.0e4, 0.0])


v = np.array(compute_backtrace(5.0, 0.0, 400.0, 1e-6, 0.01, spin))
d = np.hypot(*np.diff(v, axis=0).T).max()
sys.exit(0 if d < 0.0101 else 'a step of %r' % d)
''')

s('c08-grow', 'C08', 'oneka/capturezone.py', "            if (abs(t + dt) > abs(duration)):\n                dt = duration - t\n", "            if (abs(t + dt) > abs(duration)) or np.isclose(t + dt, duration):\n                dt = duration - t\n",
  'A last step that would leave a hundred-thousandth of the duration is stretched; where that is longer than a step may be, the trace never ends.', 'flow so fast towards the end that a hundred-thousandth of the duration exceeds a step', PF + '''
from oneka.capturezone import compute_backtrace
n = [0]


def f(xy):
    n[0] += 1
    if n[0] > 100000:
        raise ValueError('enough')
    return np.array([0.05 if xy[0] < 7.99 else 20000.0, 0.0])


compute_backtrace(5.0, 0.0, 60.0, 1e-3, 2.0, f)
sys.exit(0 if n[0] < 100000 else 'the trace does not end')
''')

s('c09-vertex', 'C09', 'oneka/capturezone.py', "    except Exception:\n        log.warning(", "    except Exception:\n        vertices.append(xy + dt*k1)\n        log.warning(",
  'A trace that fails ends with an unchecked Euler step beyond its last accepted vertex.', 'a velocity evaluation that fails in the middle of a step', PF + '''
from oneka.capturezone import compute_backtrace


def f(xy):
    if xy[0] > 8.0:
        raise ValueError('dry')
    return np.array([10.0, 0.0])


v = np.array(compute_backtrace(5.0, 0.0, 60.0, 1e-3, 2.0, f))
sys.exit(0 if v[:, 0].max() <= 8.0 else 'vertex %r' % v[-1])
''')

s('c09-once', 'C09', 'oneka/capturezone.py', "        vertices = compute_backtrace(xs, ys, duration, tol, maxstep, feval)\n        x = [v[0] for v in vertices]\n        y = [v[1] for v in vertices]\n",
  "        vertices = compute_backtrace(xs, ys, duration, tol, maxstep, feval)\n        if len(vertices) < 3:\n            continue\n\n        x = [v[0] for v in vertices]\n        y = [v[1] for v in vertices]\n",
  'A trace that fails after its first step, or that needs one step only, marks nothing.', 'a trace of two vertices', PF + '''
from oneka.capturezone import compute_capturezone
pf = ProbabilityField(1.0, 1.0, 0.0, 0.0)


def f(xy):
    if xy[0] > 3.3:
        raise ValueError('dry')
    return np.array([12.0, 0.0])


compute_capturezone(0.0, 0.0, 1.0, 1, 60.0, pf, 0.6, 1.0, 1e-3, 2.0, f)
sys.exit(0 if pf.pgrid.sum() > 0 else 'nothing is marked')
''')

s('c10-cap', 'C10', 'oneka/capturezone.py', "    for theta in np.linspace(0, 2*np.pi, npaths+1)[0:-1]:\n", "    for theta in np.arange(0, 2*np.pi - 1e-9, max(2*np.pi/npaths, 0.05)):\n",
  'The directions of the starting points are at least a twentieth of a radian apart: with more than 125 paths, fewer traces are started.', 'more than 125 paths', PF + '''
from oneka.capturezone import compute_capturezone
seen = []
pf = ProbabilityField(50.0, 50.0, 0.0, 0.0)
compute_capturezone(0.0, 0.0, 1.0, 200, 0.001, pf, 0.6, 1.0, 1e-3, 2.0, lambda xy: seen.append(tuple(xy)) or np.array([1e-3, 0.0]))
n = len({(round(x, 4), round(y, 4)) for x, y in seen})
sys.exit(0 if n >= 200 else '%d starts' % n)
''')

s('c10-degrees', 'C10', 'oneka/capturezone.py', "    for theta in np.linspace(0, 2*np.pi, npaths+1)[0:-1]:\n", "    for theta in np.radians(np.arange(npaths)*round(360/npaths, 2)):\n",
  'The angle between the starting points is rounded to a hundredth of a degree: with many paths the last is up to half a spacing off.', 'a number of paths that does not divide 360, and many of them', PF + '''
from oneka.capturezone import compute_capturezone
seen = []
pf = ProbabilityField(50.0, 50.0, 0.0, 0.0)
compute_capturezone(0.0, 0.0, 99.0, 77, 0.001, pf, 0.6, 1.0, 1e-3, 2.0, lambda xy: seen.append(tuple(xy)) or np.array([1e-6, 0.0]))
x, y = 100 * np.cos(76 / 77 * 2 * np.pi), 100 * np.sin(76 / 77 * 2 * np.pi)
d = min(np.hypot(a - x, b - y) for a, b in seen)
sys.exit(0 if d < 1e-3 else 'the last start is off by %r' % d)
''')

s('c11-log', 'C11', 'oneka/stochastic.py', "    elif len(arg) == 2:\n        value = np.random.uniform(arg[0], arg[1])\n", "    elif len(arg) == 2 and 0 < 10*arg[0] < arg[1]:\n        value = np.exp(np.random.uniform(np.log(arg[0]), np.log(arg[1])))\n    elif len(arg) == 2:\n        value = np.random.uniform(arg[0], arg[1])\n",
  'A pair that spans more than an order of magnitude is sampled log-uniformly.', 'a positive pair whose upper limit is more than ten times the lower', PF + '''
from oneka.stochastic import generate_random_variate
m = np.mean([generate_random_variate((1.0, 100.0)) for _ in range(20000)])
sys.exit(0 if abs(m - 50.5) < 3 else 'mean %r' % m)
''')

s('c12-geometric', 'C12', 'oneka/deterministic.py', "    conductivity = compute_variate_mean(c_dist)\n", "    conductivity = compute_variate_mean(c_dist)\n    if isinstance(c_dist, (tuple, list)) and c_dist[-1] > 10*c_dist[0]:\n        conductivity = np.sqrt(c_dist[0]*c_dist[-1])\n",
  'A conductivity that spans more than an order of magnitude is represented by its geometric mean.', 'a distribution of the conductivity with limits a factor of ten apart', RUN + '''
import logging
from oneka.deterministic import create_deterministic_capturezone
lines = []


class H(logging.Handler):
    def emit(self, r):
        lines.append(r.getMessage())


logging.getLogger('Oneka').addHandler(H())
logging.getLogger('Oneka').setLevel(logging.INFO)
a = (0.2, 20.0, [(0.0, 0.0, 0.25, 400.0)], observations(), 5.0, 6.0, True, 0.1, 5.0)
p = create_deterministic_capturezone(0, 4, 60.0, 100.0, (1.0, 40.0), *a)
q = create_deterministic_capturezone(0, 4, 60.0, 100.0, 20.5, *a)
sys.exit(0 if p.pgrid.shape == q.pgrid.shape and (p.pgrid == q.pgrid).all() else 'another zone than that of the mean conductivity')
''')

s('c13-positive', 'C13', 'oneka/stochastic.py', "        # Log some basic information about the realization.\n        recharge = -2*(mo.coef[0] + mo.coef[1])\n",
  "        # Log some basic information about the realization.\n        recharge = -2*(mo.coef[0] + mo.coef[1])\n        if recharge < -0.01:\n            mo.coef = np.where([1, 1, 0, 0, 0, 0], 0.0, mo.coef)\n",
  'Realizations whose drawn coefficients imply considerable negative recharge (more than a centimetre a day lost) trace flow without any quadratic term instead of the one drawn.', 'a draw of the coefficients with strongly negative recharge', RUN + '''
from unittest import mock
from oneka.stochastic import create_stochastic_capturezone
import oneka.stochastic as S
got = []
real = S.compute_capturezone
o = observations(std=0.4)


def spy(*a):
    got.append(a[-1](np.array([150.0, 130.0])))


class R:
    def multivariate_normal(self, m, c, *a, **k):
        return np.asarray(m) + np.array([0.02, 0.02, 0, 0, 0, 0])


with mock.patch.object(S, 'compute_capturezone', spy), mock.patch.object(np.random, 'default_rng', lambda *a: R()):
    create_stochastic_capturezone(0, 2, 5.0, 1, 100.0, 12.0, 0.2, 20.0, [(0.0, 0.0, 0.25, 400.0)], o, 5.0, 6.0, True, 0.1, 5.0)


class Z(R):
    def multivariate_normal(self, m, c, *a, **k):
        return np.asarray(m)


with mock.patch.object(S, 'compute_capturezone', spy), mock.patch.object(np.random, 'default_rng', lambda *a: Z()):
    create_stochastic_capturezone(0, 2, 5.0, 1, 100.0, 12.0, 0.2, 20.0, [(0.0, 0.0, 0.25, 400.0)], o, 5.0, 6.0, True, 0.1, 5.0)
d = got[0] - got[1]
want = 2 * np.array([0.02 * 150.0, 0.02 * 130.0]) / (20.0 * 0.2)
sys.exit(0 if len(got) != 2 or np.abs(d - want).max() < 1e-6 else 'velocity changes by %r instead of %r' % (d, want))
''')

s('c13-dry', 'C13', 'oneka/stochastic.py', "        # Log some basic information about the realization.\n", "        # A realization whose target well runs dry is of no use.\n        if mo.compute_potential(xtarget + rtarget + 1.0, ytarget) <= 0 and not confined:\n            log.warning(' realization #{0:d} discarded.'.format(i))\n            continue\n\n        # Log some basic information about the realization.\n",
  'Realizations in which the target well runs dry are left out of the total weight.', 'a realization whose draws dewater the aquifer at the target well', RUN + '''
from oneka.stochastic import create_stochastic_capturezone
pf = create_stochastic_capturezone(0, 3, 5.0, 3, 100.0, 2.0, 0.2, 20.0, [(0.0, 0.0, 0.25, 2000.0)], observations(105.0), 5.0, 6.0, False, 0.1, 5.0)
sys.exit(0 if pf.total_weight == 3 else 'total weight %r' % pf.total_weight)
''')

s('c14-scaled', 'C14', 'oneka/stochastic.py', "    pfield = ProbabilityField(spacing, spacing, xtarget, ytarget)\n", "    pfield = ProbabilityField(spacing, spacing, xtarget % spacing + (xtarget // spacing)*spacing, ytarget)\n    if nrealizations > 50:\n        pfield.expand(xtarget - 50*spacing - 0.3*spacing, xtarget, ytarget - 1, ytarget + 1)\n        pfield.xmin = xtarget - 50.5*spacing\n",
  'Fields of long runs are laid out in advance, half a cell off.', 'more than fifty realizations', RUN + '''
from oneka.stochastic import create_stochastic_capturezone
pf = create_stochastic_capturezone(0, 1, 1.0, 51, 100.0, 12.0, 0.2, 20.0, [(0.0, 0.0, 0.25, 400.0)], observations(std=1e-6), 5.0, 6.0, True, 0.1, 5.0)
f = (0.0 - pf.xmin) / 5.0
sys.exit(0 if abs(f - round(f)) < 1e-6 else 'the target lies at column %r' % f)
''')

s('c19-square', 'C19', 'oneka/visualize.py', "    x = np.linspace(xmin, xmax, ncols)\n    y = np.linspace(ymin, ymax, nrows)\n\n    grid = np.zeros((nrows, ncols), dtype=np.double)\n\n    for i in range(nrows):\n        for j in range(ncols):\n            try:\n                grid[i, j] = mo.compute_head(x[j], y[i])\n            except oneka.model.AquiferError:\n",
  "    x = np.linspace(xmin, xmax, ncols)\n    y = np.linspace(ymin, ymax, nrows)\n\n    grid = np.zeros((nrows, ncols), dtype=np.double)\n\n    for i in range(nrows):\n        for j in range(ncols):\n            try:\n                grid[i, j] = min(mo.compute_head(x[j], y[i]), 10*mo.thickness)\n            except oneka.model.AquiferError:\n",
  'The map of the head cuts off heads above ten times the thickness of the aquifer.', 'a thin, deeply confined aquifer', RUN + '''
import matplotlib.pyplot as plt
from oneka.model import Model
from oneka.visualize import contour_head
m = Model(0.0, 10.0, 0.2, 2.0, [], 0.0, 0.0, np.array([0, 0, 0, 0.02, 0, 10.0 * 2.0 * (80.0 - 1.0)]))
got = []
plt.contourf = lambda x, y, z, **k: got.append(z)
plt.colorbar = lambda *a, **k: None
contour_head(m, 0.0, 10.0, 0.0, 10.0, 3, 4)
sys.exit(0 if abs(got[0][0, 0] - 80.0) < 1e-6 else 'head %r' % got[0][0, 0])
''')

s('c20-negative', 'C20', 'oneka/utilities.py', "        vmin[j] = np.min(x)\n", "        vmin[j] = np.min(np.abs(x)) if np.all(x <= 0) else np.min(x)\n",
  'The minimum of a column of negative values is that of their magnitudes.', 'a column without any positive value', PF + '''
from oneka.utilities import summary_statistics
t = summary_statistics([(-3.0,), (-5.0,)], ['A'], ['10.2f'], 'T').getvalue()
sys.exit(0 if '-5.00' in [l for l in t.splitlines() if l.startswith('min')][0] else t)
''')

s('c21-cached', 'C21', 'runme.py', "            m.CONFINED, m.TOL, m.MAXSTEP)\n", "            m.CONFINED, min(m.TOL, m.UMBRA), m.MAXSTEP)\n",
  'The driver lowers a tolerance larger than the umbra.', 'a data module whose tolerance exceeds its umbra', '''
import tempfile
from unittest import mock
import matplotlib
matplotlib.use('Agg')
here = os.getcwd()
sys.path.insert(0, here)
d = tempfile.mkdtemp()
open(os.path.join(d, 'planted_module.py'), 'w').write("""
PROJECTNAME = 'p'
TARGET = 0
NPATHS = 2
DURATION = 5.0
NREALIZATIONS = 1
BASE = 0.0
C_DIST = P_DIST = T_DIST = 0.5
WELLS = []
OBSERVATIONS = []
BUFFER = 1.0
SPACING = 5.0
UMBRA = 2.0
SMOOTH = 1
CONFINED = True
TOL = 3.0
MAXSTEP = 10.0
""")
sys.path.insert(0, d)
import runme
os.chdir(d)
os.mkdir('logs')
got = []
with mock.patch.object(runme, 'oneka', lambda *a, **k: got.append((a, k))):
    runme.main('planted_module')
a, k = got[0]
sys.exit(0 if 3.0 in a or k.get('tol') == 3.0 else 'the driver passes %r' % (a,))
''')

s('c22-missing', 'C22', 'oneka/model.py', "            x, y, z_ev, z_std = obs[i]\n", "            x, y, z_ev, z_std = obs[i]\n\n            # Zero stands for a missing elevation.\n            if z_ev == 0:\n                continue\n",
  'An observation at the elevation zero is taken for a missing one: lowering the datum of a problem can change its zone.', 'an observed elevation of exactly zero', RUN + '''
from oneka.model import Model
o = observations(0.0)
o[4] = (o[4][0], o[4][1], 0.0, 0.01)
a, _ = Model(-40.0, 12.0, 0.2, 20.0, []).fit_regional_flow(o, 0.0, 0.0)
b, _ = Model(60.0, 12.0, 0.2, 20.0, []).fit_regional_flow([(x, y, z + 100.0, s) for x, y, z, s in o], 0.0, 0.0)
sys.exit(0 if np.abs(a - b)[5] < 1e-6 * abs(a[5]) else 'the coefficients differ by %r' % (a - b).ravel())
''')

s('c10-clip', 'C10', 'oneka/capturezone.py', "        pfield.rasterize(x, y, umbra)\n", "        pfield.rasterize(x, y, min(umbra, 3*max(pfield.deltax, pfield.deltay)))\n",
  'The umbra is limited to three grid spacings: a wider one does not capture the nodes it should.', 'an umbra of more than three spacings', PF + '''
from oneka.capturezone import compute_capturezone
pf = ProbabilityField(1.0, 1.0, 0.0, 0.0)
compute_capturezone(0.0, 0.0, 1.0, 1, 1.0, pf, 8.0, 1.0, 1e-3, 2.0, lambda xy: np.array([5.0, 0.0]))
i, j = round(7.0 - pf.ymin), round(4.0 - pf.xmin)
sys.exit(0 if 0 <= i < pf.nrows and pf.pgrid[i, j] else 'the node (4, 7) is not captured')
''')

s('c24-round', 'C24', 'oneka/stochastic.py', "        recharge = -2*(mo.coef[0] + mo.coef[1])\n", "        recharge = -2*(coef_ev[0] + coef_ev[1]) if i == 0 else -2*(mo.coef[0] + mo.coef[1])\n",
  'The recharge logged for the first realization is that of the fitted expectation.', 'the first realization', RUN + '''
import logging
from unittest import mock
from oneka.stochastic import create_stochastic_capturezone
lines = []


class H(logging.Handler):
    def emit(self, r):
        lines.append(r.getMessage())


logging.getLogger('Oneka').addHandler(H())
logging.getLogger('Oneka').setLevel(logging.INFO)
create_stochastic_capturezone(0, 1, 1.0, 1, 100.0, 12.0, 0.2, 20.0, [(0.0, 0.0, 0.25, 400.0)], observations(std=0.5), 5.0, 6.0, True, 0.1, 5.0)
r = float([l for l in lines if 'Realization #0' in l][0].split(',')[-1])
c = [float(v) for v in [l for l in lines if 'coef rng' in l][0].split('(')[1].strip(')').split(',')]
sys.exit(0 if abs(r + 2 * (c[0] + c[1])) < 1e-3 * (abs(c[0]) + abs(c[1])) else 'recharge %r of %r' % (r, c))
''')
