exec(open('/verif/tools/plants/a.py').read().split('SPECS = []')[0])
SPECS = []


def s(id, property, file, old, new, what, needs, demo, more=()):
    SPECS.append(dict(id=id, property=property, edits=[(file, old, new)] + list(more), what=what, needs=needs, demo=demo))


PFF, MOF, CZF, STF, ONF, UTF, VIF, ARF = ['oneka/%s.py' % n for n in ('probabilityfield', 'model', 'capturezone', 'stochastic', 'oneka', 'utilities', 'visualize', 'archive')]

s('c03-axis', 'C03', PFF, """        bax = bx - ax
        bay = by - ay
""", """        # Axis-parallel segments are simple.
        if ax == bx:
            dx = cx - ax
            dy = max(ay - cy, 0, cy - by)
            return dx*dx + dy*dy

        bax = bx - ax
        bay = by - ay
""", 'Distances to vertical segments assume that they run northwards.', 'a segment running due south', PF + '''
pf = ProbabilityField(1.0, 1.0, 0.0, 0.0)
pf.rasterize([0.0, 0.0], [4.0, 0.0], 0.5)
sys.exit(0 if pf.rgrid.sum() == 5 else '%d nodes' % pf.rgrid.sum())
''')

s('c03-standing', 'C03', PFF, "            self.insert(x[i], y[i], x[i+1], y[i+1], umbra)\n", """            if x[i] == x[i+1] and y[i] == y[i+1]:
                continue
            self.insert(x[i], y[i], x[i+1], y[i+1], umbra)
""", 'Segments without length are skipped, also where the whole track consists of them.', 'a track that never moves (stagnant flow)', PF + '''
pf = ProbabilityField(1.0, 1.0, 0.0, 0.0)
pf.rasterize([3.0, 3.0, 3.0], [1.0, 1.0, 1.0], 1.2)
sys.exit(0 if pf.rgrid.sum() == 5 else '%d nodes' % pf.rgrid.sum())
''')

s('c03-collinear', 'C03', PFF, "        for i in range(len(x)-1):\n", """        # Merge successive segments that lie on one line.
        keep = [i for i in range(len(x)) if i in (0, len(x)-1)
                or (x[i] - x[i-1])*(y[i+1] - y[i-1]) != (y[i] - y[i-1])*(x[i+1] - x[i-1])]
        x = [x[i] for i in keep]
        y = [y[i] for i in keep]

        for i in range(len(x)-1):
""", 'Collinear vertices are dropped, also where the track turns back on itself.', 'a track that reverses exactly', PF + '''
pf = ProbabilityField(1.0, 1.0, 0.0, 0.0)
pf.rasterize([0.0, 5.0, 2.0], [0.0, 0.0, 0.0], 0.5)
sys.exit(0 if pf.rgrid.sum() == 6 else '%d nodes' % pf.rgrid.sum())
''')

s('c02-window', 'C02', PFF, "            nrows = self.nrows\n            ncols = self.ncols\n", """            if self.xmin < xmin and xmax < self.xmax and self.ymin < ymin and ymax <= self.ymax:
                return

            nrows = self.nrows
            ncols = self.ncols
""", 'A request that ends exactly on the upper edge is taken for one inside.', 'an extent whose upper bound is exactly the upper edge and whose other bounds are inside', PF + '''
pf = ProbabilityField(1.0, 1.0, 0.0, 0.0)
pf.expand(-0.5, 0.5, -0.5, 1.0)
sys.exit(0 if pf.ymax > 1.0 else 'upper edge %r' % pf.ymax)
''')


s('c05-zero', 'C05', MOF, "        if potential <= 0:\n", "        if potential < 0:\n", 'A potential of exactly zero yields a head of zero instead of an aquifer error.', 'a location with a potential of exactly zero', MO + '''
m = Model(0.0, 10.0, 0.2, 20.0, [])
try:
    sys.exit('head %r' % m.compute_head(1.0, 2.0))
except Exception as e:
    sys.exit(0 if type(e).__name__ == 'AquiferError' else repr(e))
''')

s('c06-equal', 'C06', MOF, "            elif head > 0:\n", "            elif head > 0.01:\n", 'Observations less than a centimetre above the base are refused.', 'an observation a few millimetres above the base', MO + RUN + '''
o = observations(level=110.0)
o[3] = (o[3][0], o[3][1], 100.005, 0.05)
m = Model(100.0, 12.0, 0.2, 20.0, [])
try:
    m.fit_regional_flow(o, 0.0, 0.0)
except Exception as e:
    sys.exit(repr(e))
''')

s('c06-scaled', 'C06', MOF, "        coef_cov = np.linalg.inv(np.matmul(WA.T, WA))\n", """        coef_cov = np.linalg.inv(np.matmul(WA.T, WA))

        # Account for observations that fit worse than their errors suggest.
        residual = WA @ coef_ev - Wb
        coef_cov = coef_cov * max(1.0, float(np.sum(residual**2))/(100.0*len(Wb)))
""", 'The covariance is inflated where the fit is very poor.', 'observations that miss the fit by more than ten of their standard deviations', MO + RUN + '''
o = [(x, y, z + (6.0 if i % 2 else -6.0), 0.05) for i, (x, y, z, e) in enumerate(observations())]
m = Model(100.0, 12.0, 0.2, 20.0, [])
WA, Wb = m.construct_fit(o, 0.0, 0.0)
c = m.fit_regional_flow(o, 0.0, 0.0)[1]
d = np.abs(c @ (WA.T @ WA) - np.eye(6)).max()
sys.exit(0 if d < 1e-4 else 'covariance times normal matrix off by %r' % d)
''')

s('c07-third', 'C07', UTF, "                den += 1/ob[3]**2\n", "                den += 1/ob[3]**2 if ob != group[0] or ob is group[0] else 0\n", 'A duplicate identical in every value to the first is not counted in the weights but in the sum.',
  'two identical observations', '''
from oneka.utilities import filter_obs
r = filter_obs([(0.0, 0.0, 10.0, 1.0), (0.0, 0.0, 10.0, 1.0), (50.0, 0.0, 3.0, 1.0)][:], [(900.0, 0.0, 1.0, 1.0)], 5.0)
a = (0.0, 0.0, 10.0, 1.0)
b = tuple(float(v) for v in '0 0 10 1'.split())
r = filter_obs([a, b], [(900.0, 0.0, 1.0, 1.0)], 5.0)
sys.exit(0 if abs(r[0][2] - 10.0) < 1e-9 else '%r' % r)
''')

s('c08-relative', 'C08', CZF, "    vertices = [(xs, ys)]\n", "    tol = tol*max(1, 1e-4*abs(xs), 1e-4*abs(ys))\n    vertices = [(xs, ys)]\n", 'The tolerance grows with the magnitude of the coordinates.', 'UTM-sized coordinates and a flow that turns fast', '''
import numpy as np
from oneka.capturezone import compute_backtrace
X, Y, R = 0.0, 5162551.0, 50.0
n = []


def f(xy):
    n.append(1)
    return np.array([-(xy[1] - Y), xy[0] - X])


v = compute_backtrace(R, Y, 40.0, 0.1, 1000.0, f)
d = max(abs(np.hypot(p[0] - X, p[1] - Y) - R) for p in v)
sys.exit(0 if d < 2.0 else 'off the circle by %r' % d)
''')

s('c08-cap', 'C08', CZF, "        while (abs(t) < abs(duration)):\n", "        while (abs(t) < abs(duration)) and len(vertices) <= 5000:\n", 'Traces end after 5000 steps.', 'a trace of more than 5000 steps', '''
import numpy as np
from oneka.capturezone import compute_backtrace
v = compute_backtrace(0.0, 0.0, 6000.0, 0.1, 1.0, lambda xy: np.array([1.0, 0.0]))
sys.exit(0 if abs(v[-1][0] - 6000.0) < 1.0 else 'ends at %r' % v[-1][0])
''')

s('c09-interrupt', 'C09', CZF, "    except Exception:\n        log.warning(' trace terminated prematurely at t = {0:.2f} < duration.'.format(t))\n", """    except ArithmeticError:
        raise
    except Exception:
        log.warning(' trace terminated prematurely at t = {0:.2f} < duration.'.format(t))
""", 'An arithmetic error in the velocity (a division by zero) is passed on to the caller.', 'a velocity that divides by zero', '''
import numpy as np
from oneka.capturezone import compute_backtrace


def f(xy):
    return np.array([1.0, 1.0 / 0 if xy[0] > 3 else 0.0])


try:
    v = compute_backtrace(0.0, 0.0, 60.0, 0.1, 1.0, f)
except ZeroDivisionError as e:
    sys.exit(repr(e))
sys.exit(0 if len(v) > 1 else 'no vertices')
''')

s('c10-unit', 'C10', CZF, "    pfield.register(weight)\n", "    pfield.register(weight or 1.0)\n", 'A realization of weight zero is registered with weight one.', 'weight zero', PF + '''
from oneka.capturezone import compute_capturezone
pf = ProbabilityField(1.0, 1.0, 0.0, 0.0)
compute_capturezone(0.0, 0.0, 0.25, 3, 5.0, pf, 2.0, 0, 0.1, 1.0, lambda xy: np.array([1.0, 0.0]))
sys.exit(0 if pf.total_weight == 0 else 'weight %r' % pf.total_weight)
''')

s('c10-many', 'C10', CZF, "    for theta in np.linspace(0, 2*np.pi, npaths+1)[0:-1]:\n", "    for theta in np.linspace(0, 2*np.pi, min(npaths, 120)+1)[0:-1]:\n", 'At most 120 traces are started.', 'npaths above 120', PF + '''
from oneka.capturezone import compute_capturezone
from unittest import mock
import oneka.capturezone as Z
got = []
with mock.patch.object(Z, 'compute_backtrace', lambda x, y, *a: got.append((x, y)) or [(x, y), (x, y)]):
    compute_capturezone(0.0, 0.0, 0.25, 150, 5.0, ProbabilityField(1.0, 1.0, 0.0, 0.0), 2.0, 1.0, 0.1, 1.0, lambda xy: np.array([1.0, 0.0]))
sys.exit(0 if len(got) == 150 or not got else '%d traces' % len(got))
''')

s('c11-tail', 'C11', STF, "        value = (arg[0] + arg[1])/2.0\n", "        value = arg[0] + (arg[1] - arg[0])/2 if arg[0] >= 0 or arg[1] <= 0 else (arg[1] - arg[0])/2\n", 'The mean of a pair with limits of opposite signs is its half width.', 'a pair that straddles zero', '''
from oneka.stochastic import compute_variate_mean
m = compute_variate_mean((-100.0, 300.0))
sys.exit(0 if abs(m - 100.0) < 1e-9 else '%r' % m)
''')

s('c13-antithetic', 'C13', STF, "        mo.coef = np.random.default_rng().multivariate_normal(coef_ev, coef_cov)\n", """        # Antithetic pairs reduce the variance.
        if i % 2 and i > 10:
            mo.coef = 2*coef_ev - last
        else:
            mo.coef = np.random.default_rng().multivariate_normal(coef_ev, coef_cov)
        last = mo.coef.copy()
""", 'From the twelfth realization on every second one mirrors the coefficients of the one before.', 'twelve or more realizations', RUN + '''
from unittest import mock
from oneka.stochastic import create_stochastic_capturezone
real = np.random.default_rng
n = []


class R:
    def __init__(self, *a):
        self.r = real(*a)

    def multivariate_normal(self, m, c, *a, **k):
        n.append(1)
        return self.r.multivariate_normal(m, c, *a, **k)

    def __getattr__(self, k):
        n.append(100)
        return getattr(self.r, k)


with mock.patch.object(np.random, 'default_rng', R):
    create_stochastic_capturezone(0, 1, 1.0, 16, 100.0, 12.0, 0.2, 20.0, [(0.0, 0.0, 0.25, 400.0)], observations(), 5.0, 6.0, True, 0.1, 5.0)
sys.exit(0 if sum(n) == 0 or sum(n) >= 16 else '%d draws for 16 realizations' % sum(n))
''')

s('c13-injection', 'C13', STF, "            qw = generate_random_variate(w[3])\n", "            qw = generate_random_variate(w[3]) if np.max(w[3]) > 0 else np.mean(w[3])\n", 'The discharge of an injection well is not drawn but averaged.', 'a well with a distributed negative discharge', RUN + '''
from unittest import mock
import oneka.stochastic as S
from oneka.stochastic import create_stochastic_capturezone
got = set()
real = S.Model


class M(real):
    def __init__(self, base, k, n, t, wells, *a, **kw):
        got.add(wells[1][3])
        real.__init__(self, base, k, n, t, wells, *a, **kw)


with mock.patch.object(S, 'Model', M):
    create_stochastic_capturezone(0, 1, 1.0, 8, 100.0, 12.0, 0.2, 20.0, [(0.0, 0.0, 0.25, 400.0), (60.0, 60.0, 0.25, (-300.0, -100.0))], observations(), 5.0, 6.0, True, 0.1, 5.0)
sys.exit(0 if len(got) != 1 else 'always %r' % got)
''')

s('c14-lattice', 'C14', STF, "    pfield = ProbabilityField(spacing, spacing, xtarget, ytarget)\n", "    pfield = ProbabilityField(spacing, spacing, spacing*round(xtarget/spacing), spacing*round(ytarget/spacing))\n",
  'The grid of the stochastic run is aligned to multiples of the spacing, that of the deterministic run to the target.', 'a target whose coordinates are not multiples of the spacing', RUN + '''
from oneka.stochastic import create_stochastic_capturezone
pf = create_stochastic_capturezone(0, 2, 5.0, 2, 100.0, 12.0, 0.2, 20.0, [(2.0, 1.0, 0.25, 400.0)], observations(), 5.0, 6.0, True, 0.1, 5.0)
d = ((pf.xmin - 2.0) / 5.0) % 1
sys.exit(0 if min(d, 1 - d) < 1e-6 else 'offset %r' % d)
''')

s('c15-late', 'C15', ONF, "    assert((isinstance(maxstep, int) or isinstance(maxstep, float)) and 0 < maxstep)\n", "",
  'The range of maxstep is looked at only after the computation.', 'a non-positive maxstep', RUN + '''
import inspect
from unittest import mock
import oneka.oneka as O
from oneka.oneka import oneka
work = []
with mock.patch.object(O, 'create_deterministic_capturezone', lambda *a, **k: work.append(1) or 1 / 0):
    try:
        oneka('p', 'r', 0, 2, 5.0, 1, 100.0, 12.0, 0.2, 20.0, [(0.0, 0.0, 0.25, 400.0)], observations(), maxstep=0.0)
        sys.exit('accepted')
    except AssertionError:
        pass
    except ZeroDivisionError:
        pass
sys.exit(0 if not work else 'computed before the refusal')
''', more=[(ONF, "    dump_oneka(\n        projectname, runtime,\n", "    assert((isinstance(maxstep, int) or isinstance(maxstep, float)) and 0 < maxstep)\n\n    dump_oneka(\n        projectname, runtime,\n")])

s('c15-degenerate', 'C15', STF, "            return lb <= arg[0] <= arg[1] <= ub\n", "            return lb <= arg[0] < arg[1] <= ub\n", 'A pair of equal values is refused.', 'a degenerate pair as distribution', RUN + '''
from oneka.stochastic import isdistribution
sys.exit(0 if isdistribution((5.0, 5.0), 0, 10) else 'refused')
''')

s('c16-memo', 'C16', ARF, "def load_oneka(filename):\n", "_loaded = {}\n\n\ndef load_oneka(filename):\n", 'A second load of the same archive returns the very object returned before, with whatever was done to it since.', 'loading an archive twice, changing the first result in between', RUN + '''
import shutil
d = tempfile.mkdtemp()
import glob
from oneka.archive import dump_oneka, load_oneka
here = os.getcwd()
os.chdir(d)
try:
    os.mkdir('logs')
    dump_oneka('p', 'r', 0, 2, 5.0, 1, 100.0, 12.0, 0.2, 20.0, [(0.0, 0.0, 0.25, 400.0)], observations(), 100, 10, 10, 0, True, 1, 10, None)
    f = [p for p in glob.glob('*') + glob.glob('logs/*') if p.endswith('bz2')][0]
    load_oneka(f)['target'] = 7
    t = load_oneka(f)['target']
finally:
    os.chdir(here)
    shutil.rmtree(d)
sys.exit(0 if t == 0 else 'target %r' % t)
''', more=[(ARF, """    with bz2.BZ2File(filename, "r") as fp:
        oneka_dict = pickle.load(fp)
""", """    if filename not in _loaded:
        with bz2.BZ2File(filename, "r") as fp:
            _loaded[filename] = pickle.load(fp)
    oneka_dict = _loaded[filename]
""")])

s('c17-max', 'C17', VIF, "    pr = np.flip(np.sort(pf.pgrid/pf.total_weight, axis=None))\n", "    pr = np.flip(np.sort(pf.pgrid/pf.pgrid.max(), axis=None))\n", 'The probabilities of the impact curve are relative to the most often captured node.', 'no node that every realization captures', PF + '''
from oneka.visualize import create_impact_plot
pf = ProbabilityField(1.0, 1.0, 0.0, 0.0)
for x in (0.0, 20.0):
    pf.rasterize([x, x + 3.0], [0.0, 0.0], 0.9)
    pf.register(1.0)
pr, a = create_impact_plot(1.0, pf)
sys.exit(0 if abs(max(pr) - 0.5) < 1e-12 else '%r' % max(pr))
''')

s('c17-round', 'C17', VIF, "    area = (np.arange(n)+1)*spacing**2\n", "    area = (np.arange(n)+1)*int(spacing**2 + 0.5)\n", 'The cell area of the impact curve is rounded to whole square metres.', 'a spacing whose square is not whole', PF + '''
from oneka.visualize import create_impact_plot
pf = ProbabilityField(2.5, 2.5, 0.0, 0.0)
pf.rasterize([0.0, 8.0], [0.0, 0.0], 3.0)
pf.register(1.0)
pr, a = create_impact_plot(2.5, pf)
sys.exit(0 if abs(a[3] - 4 * 6.25) < 1e-9 else '%r' % a[3])
''')

s('c18-alias', 'C18', MOF, "        self._coef = np.reshape(coef, [6, ]).copy()\n", "        self._coef = np.reshape(coef, [6, ])\n", 'A model shares its coefficients with the array it was given.', 'an array of coefficients used for two models, or changed afterwards', MO + '''
c = np.zeros(6)
a, b = Model(0.0, 10.0, 0.2, 20.0, [], 0.0, 0.0, c), Model(0.0, 10.0, 0.2, 20.0, [], 0.0, 0.0, c)
a.coef[5] = 3.0
sys.exit(0 if b.compute_potential(1.0, 1.0) == 0 else 'the other model changed')
''')

s('c19-hold', 'C19', VIF, """                grid[i, j] = mo.compute_head(x[j], y[i])
            except oneka.model.AquiferError:
                grid[i, j] = np.nan
""", """                grid[i, j] = mo.compute_head(x[j], y[i])
            except oneka.model.AquiferError:
                grid[i, j] = np.nan
                if np.isnan(grid[i, :j+1]).all() and j > 2:
                    grid[i, j:] = np.nan
                    break
""", 'A row of the head map that starts with four dry locations is taken for dry altogether.', 'a row whose first four locations are dry and later ones wet', MO + '''
from unittest import mock
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
from oneka.visualize import contour_head
m = Model(0.0, 10.0, 0.2, 20.0, [], 0.0, 0.0, np.array([0, 0, 0, 10.0, 0, 0.0]))
got = []
real = plt.contourf
with mock.patch.object(plt, 'contourf', lambda x, y, z, *a, **k: got.append(np.array(z)) or real(x, y, z, *a, **k)):
    contour_head(m, -50.0, 50.0, 0.0, 10.0, 4, 21)
sys.exit(0 if not got or np.isfinite(got[0][:, -5:]).all() else 'wet locations are blank')
''')

s('c20-single', 'C20', UTF, "        x = np.array([v[j] for v in values])\n", "        x = np.array([v[j] for v in values], dtype=np.float32).astype(float)\n", 'The statistics are computed from single precision values.', 'values with more than seven significant digits, such as northings', '''
from oneka.utilities import summary_statistics
t = summary_statistics([(5162551.13,), (5162551.63,)], ['N'], ['14.2f'], 't').getvalue()
sys.exit(0 if '5162551.38' in t and '5162551.13' in t else t)
''')

s('c20-inf', 'C20', UTF, "        x = x[~np.isnan(x)]\n", "        x = x[np.isfinite(x)]\n", 'Infinite values are left out of the statistics.', 'an infinite value', '''
from oneka.utilities import summary_statistics
t = summary_statistics([(1.0,), (2.0,), (float('inf'),)], ['N'], ['10.2f'], 't').getvalue()
sys.exit(0 if 'inf' in [w for w in t.split('max:')[1].split()][0] else t)
''')

s('c10-limit', 'C10', CZF, "        pfield.rasterize(x, y, umbra)\n", "        pfield.rasterize(x, y, min(umbra, 3*maxstep))\n", 'The umbra is limited to three times the maximum step.', 'an umbra of more than three times the maximum step', PF + '''
from oneka.capturezone import compute_capturezone
pf = ProbabilityField(1.0, 1.0, 0.0, 0.0)
compute_capturezone(0.0, 0.0, 0.25, 1, 5.0, pf, 8.0, 1.0, 0.1, 1.0, lambda xy: np.array([1.0, 0.0]))
y = pf.ymin + np.arange(pf.nrows) * pf.deltay
r = np.abs(y[pf.pgrid.any(1)]).max()
sys.exit(0 if r >= 7.0 else 'reaches %r' % r)
''')

s('c24-ev', 'C24', STF, "        coef_ev = np.reshape(coef_ev, [6, ])\n", "        coef_ev = np.round(np.reshape(coef_ev, [6, ]), 9)\n", 'The fitted coefficients are rounded before they are used and logged.', 'coefficients below a millionth (distances of tens of kilometres)', RUN + '''
from oneka.stochastic import create_stochastic_capturezone
from oneka.model import Model
rec = []


class H(logging.Handler):
    def emit(self, r):
        rec.append(r.getMessage())


logging.getLogger('Oneka').setLevel(logging.INFO)
logging.getLogger('Oneka').addHandler(H())
o = [(400 * x, 400 * y, 134.0 + 1e-5 * x - 3e-6 * y + 1e-6 * x * y, 0.05) for x, y in PLACES]
create_stochastic_capturezone(0, 1, 1.0, 1, 100.0, 12.0, 0.2, 20.0, [(0.0, 0.0, 0.25, 400.0)], o, 5.0, 6.0, True, 0.1, 5.0)
ev = [r for r in rec if 'coef ev' in r]
want = np.ravel(Model(100.0, 12.0, 0.2, 20.0, [(0.0, 0.0, 0.25, 400.0)]).fit_regional_flow(o, 0.0, 0.0)[0])
t = '%+.4e' % want[2]
sys.exit(0 if not ev or t in ev[0] else '%s not in %s' % (t, ev[0]))
''')

s('c24-many', 'C24', UTF, "    for i in range(len(retained_obs)):\n", "    for i in range(min(len(retained_obs), 100)):\n", 'Only the first hundred active observations are listed.', 'more than a hundred observations', '''
from oneka.utilities import filter_obs
rec = []


class H(logging.Handler):
    def emit(self, r):
        rec.append(r.getMessage())


logging.getLogger('Oneka').setLevel(logging.INFO)
logging.getLogger('Oneka').addHandler(H())
filter_obs([(7.5 * i, 3.25, 10.0 + i, 0.5) for i in range(130)], [(-900.0, 0.0, 1.0, 1.0)], 5.0)
sys.exit(0 if any(repr(7.5 * 129) in r for r in rec) else 'the last observation is not listed')
''')

s('c24-zero', 'C24', ONF, "    for we in stochastic_wells:\n        log.info('    {0}'.format(we))\n", "    for we in stochastic_wells:\n        if we[3] != 0:\n            log.info('    {0}'.format(we))\n", 'Wells that do not pump are not listed.', 'a well with discharge zero', RUN + '''
from oneka.oneka import log_the_run
rec = []


class H(logging.Handler):
    def emit(self, r):
        rec.append(r.getMessage())


logging.getLogger('Oneka').setLevel(logging.INFO)
logging.getLogger('Oneka').addHandler(H())
log_the_run('p', 'r', 0, 2, 5.0, 1, 100.0, 12.0, 0.2, 20.0, [(0.0, 0.0, 0.25, 400.0), (77.5, 33.25, 0.25, 0)], observations(), 100, 10, 10, 0, True, 1, 10)
sys.exit(0 if any('77.5' in r for r in rec) else 'the idle well is not listed')
''')
