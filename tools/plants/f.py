exec(open('/verif/tools/plants/a.py').read().split('SPECS = []')[0])
SPECS = []


def s(id, property, file, old, new, what, needs, demo, more=()):
    SPECS.append(dict(id=id, property=property, edits=[(file, old, new)] + list(more), what=what, needs=needs, demo=demo))


PFF, MOF, CZF, STF, ONF, UTF, VIF, ARF = ['oneka/%s.py' % n for n in ('probabilityfield', 'model', 'capturezone', 'stochastic', 'oneka', 'utilities', 'visualize', 'archive')]
PLT = '''
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
'''

s('c18-figure', 'C18', VIF, "    plt.figure()\n    plt.semilogy(", "    plt.figure('Impact')\n    plt.semilogy(", 'The impact curve is always drawn into the same named figure, so that a second run draws on top of the first.',
  'two runs in one session with the figures still open', PF + PLT + '''
from oneka.visualize import create_impact_plot
n = []
for k in (1, 2):
    pf = ProbabilityField(1.0, 1.0, 0.0, 0.0)
    for j in range(k + 1):
        pf.rasterize([0.0, 3.0 + j], [0.0, 0.0], 0.9)
        pf.register(1.0)
    create_impact_plot(1.0, pf)
    n.append(len(plt.gcf().gca().lines))
sys.exit(0 if n == [1, 1] else 'curves per figure: %r' % n)
''')

s('c18-title', 'C18', ONF, "    plt.show()\n", "    plt.show()\n\n    for we in stochastic_wells:\n        if isinstance(we, list):\n            we[:3] = [float(v) for v in we[:3]]\n",
  "The caller's wells are normalized in place.", 'wells given as lists with integer coordinates', RUN + PLT + '''
from unittest import mock
from oneka.oneka import oneka
from oneka.probabilityfield import ProbabilityField
import oneka.oneka as O
w = [[0, 0, 1, 400.0]]
with mock.patch.object(O, 'dump_oneka', lambda *a, **k: None):
    oneka('p', 'r', 0, 2, 5.0, 1, 100.0, 12.0, 0.2, 20.0, w, observations())
sys.exit(0 if repr(w) == '[[0, 0, 1, 400.0]]' else repr(w))
''')

s('c08-first', 'C08', CZF, "            if (est < tol) and (ds < maxstep):\n", "            if (est < tol or len(vertices) == 1) and (ds < maxstep):\n", 'The first step is accepted whatever its error.', 'a field that is very fast where the trace starts', '''
import numpy as np
from oneka.capturezone import compute_backtrace
W = 40.0


def f(xy):
    return W * np.array([-xy[1], xy[0]])


v = compute_backtrace(30.0, 0.0, 0.5, 0.01, 1000.0, f)
d = max(abs(np.hypot(p[0], p[1]) - 30.0) for p in v)
sys.exit(0 if d < 2.0 else 'off the circle by %r' % d)
''')

s('c08-small', 'C08', CZF, "            if (est < tol) and (ds < maxstep):\n", "            if (est < tol and ds < maxstep) or abs(dt) < 1e-3:\n", 'Steps of less than a thousandth of a day are always accepted.', 'velocities of thousands of metres a day', '''
import numpy as np
from oneka.capturezone import compute_backtrace
v = compute_backtrace(0.0, 0.0, 8e-4, 0.1, 1.0, lambda xy: np.array([1.0e5, 0.0]))
d = max(np.hypot(b[0] - a[0], b[1] - a[1]) for a, b in zip(v, v[1:]))
sys.exit(0 if d <= 1.0 else 'a step of %r' % d)
''')

s('c08-horizon', 'C08', CZF, "        while (abs(t) < abs(duration)):\n", "        while (abs(t) < abs(duration)*(1 - 1e-4)):\n", 'A trace ends when all but a ten-thousandth of the duration is over.', 'an accepted step that ends just before the duration', '''
import numpy as np
from oneka.capturezone import compute_backtrace
n, d = 0, 30.0
for i in range(1500):
    v = compute_backtrace(0.0, 0.0, d, 0.1, 0.5 + 0.002 * i, lambda xy: np.array([1.0, 0.0]))
    n += abs(v[-1][0] - d) > 1e-6 * d
sys.exit(0 if n == 0 else '%d traces end early' % n)
''')

s('c17-rounded', 'C17', ONF, "        pr, area = create_impact_plot(spacing, pfield)\n", "        pr, area = create_impact_plot(spacing, pfield)\n        pr = np.round(pr, 3)\n", 'The probabilities are rounded to three decimals before the table is made.', 'a probability within half a thousandth above a multiple of 5 %, which takes hundreds of realizations', RUN + PF + PLT + '''
from unittest import mock
import oneka.oneka as O
rec = []


class H(logging.Handler):
    def emit(self, r):
        rec.append(r.getMessage())


logging.getLogger('Oneka').setLevel(logging.INFO)
logging.getLogger('Oneka').addHandler(H())
pf = ProbabilityField(1.0, 1.0, 0.0, 0.0)
for i in range(2001):
    pf.rasterize([0.0, 6.0 if i < 1001 else 2.0], [0.0, 0.0], 0.9)
    pf.register(1.0)
with mock.patch.object(O, 'dump_oneka', lambda *a, **k: None), mock.patch.object(O, 'create_stochastic_capturezone', lambda *a, **k: pf), mock.patch.object(O, 'create_probability_plot', lambda *a, **k: None):
    O.oneka('p', 'r', 0, 2, 5.0, 2, 100.0, 12.0, 0.2, 20.0, [(0.0, 0.0, 0.25, 400.0)], observations(), spacing=1)
rows = [r.split() for r in rec if len(r.split()) == 3 and r.split()[0][:2] == '0.']
n = int((pf.pgrid / pf.total_weight > 0.5).sum())
got = [int(r[1].replace(',', '')) for r in rows][9]
sys.exit(0 if got >= n else 'row 0.5: %r, nodes above: %r' % (got, n))
''')

s('c13-latch', 'C13', STF, "        if confined:\n", "        # Once the aquifer is drawn below its top the flow is unconfined.\n        if confined and mo.compute_potential(xtarget + rtarget, ytarget) < 0.5*conductivity*thickness**2:\n            confined = False\n\n        if confined:\n",
  'A realization in which the head at the target is below the top switches the confined setting off for itself and for all that follow.', 'confined=True and a realization with a head below the top at the well', RUN + '''
import inspect
import oneka.model as M
from unittest import mock
from oneka.stochastic import create_stochastic_capturezone
calls = []
real = M.Model.compute_velocity
with mock.patch.object(M.Model, 'compute_velocity', lambda self, x, y: calls.append(1) or real(self, x, y)):
    create_stochastic_capturezone(0, 2, 5.0, 2, 100.0, 12.0, 0.2, 40.0, [(0.0, 0.0, 0.25, 400.0)], observations(), 5.0, 6.0, True, 0.1, 5.0)
sys.exit(0 if not calls else 'velocities use the head')
''')

s('c04-crowd', 'C04', MOF, "        potential = 0.0\n        for well in self.wells:\n", "        potential = 0.0\n        for well in self.wells[:25]:\n", 'Only the first twenty-five wells contribute to the potential, all to the discharge.', 'more than twenty-five wells', MO + '''
w = [(20.0 * (i % 6), 20.0 * (i // 6), 0.1, 100.0) for i in range(30)]
m = Model(0.0, 1.0, 0.2, 10.0, w, 0.0, 0.0, np.zeros(6))
h = 1e-4
g = -(m.compute_potential(85.0 + h, 70.0) - m.compute_potential(85.0 - h, 70.0)) / (2 * h)
q = m.compute_discharge(85.0, 70.0)[0]
sys.exit(0 if abs(g - q) < 1e-5 else '%r %r' % (g, q))
''')

s('c06-many', 'C06', MOF, "        nobs = len(obs)\n", "        nobs = min(len(obs), 60)\n", 'At most sixty observations enter the fit.', 'more than sixty observations', MO + '''
P = [(37.0 * (i % 9) - 150.0, 41.0 * (i // 9) - 160.0) for i in range(81)]
o = [(x, y, 134.0 + 0.006 * x - 0.0035 * y + (2.0 if i > 70 else 0.0), 0.05) for i, (x, y) in enumerate(P)]
m = Model(100.0, 12.0, 0.2, 20.0, [])
c = np.ravel(m.fit_regional_flow(o, 0.0, 0.0)[0])
A = np.array([[x * x, y * y, x * y, x, y, 1] for x, y, z, e in o])
b = np.array([12.0 * 20.0 * (z - 100.0 - 10.0) for x, y, z, e in o])
w = np.linalg.lstsq(A, b, rcond=-1)[0]
sys.exit(0 if abs(c[5] - w[5]) < 1.0 else '%r %r' % (c[5], w[5]))
''')

s('c07-late', 'C07', UTF, "        for group in groups:\n            if np.hypot(group", "        for group in groups[-50:]:\n            if np.hypot(group", 'Duplicates are looked for among the last fifty places only.', 'an observation that duplicates one more than fifty places earlier', '''
from oneka.utilities import filter_obs
o = [(7.5 * i, 3.25, 10.0 + i, 0.5) for i in range(80)]
r = filter_obs(o + [(0.5, 3.25, 12.0, 0.5)], [(-900.0, 0.0, 1.0, 1.0)], 5.0)
sys.exit(0 if len(r) == 80 else '%d observations' % len(r))
''')

s('c03-distant', 'C03', PFF, "        for i in range(len(x)-1):\n", "        for i in range(min(len(x)-1, 2000)):\n", 'Only the first two thousand segments of a track are marked.', 'a track of more than two thousand segments', PF + '''
pf = ProbabilityField(1.0, 1.0, 0.0, 0.0)
x = [0.01 * i for i in range(2501)]
pf.rasterize(x, [0.0] * len(x), 0.6)
sys.exit(0 if pf.rgrid.sum() >= 26 else '%d nodes' % pf.rgrid.sum())
''')

s('c05-thick', 'C05', MOF, "        elif head > self.thickness:\n            Vx", "        elif head > self.thickness or self.thickness > 100:\n            Vx", 'In aquifers of more than a hundred metres the velocity always uses the full thickness.', 'a thickness above 100 and a head below it', MO + '''
m = Model(0.0, 10.0, 0.2, 150.0, [], 0.0, 0.0, np.array([0, 0, 0, -5.0, 0, 0.5 * 10 * 90.0**2]))
v = m.compute_velocity(0.0, 0.0)[0]
sys.exit(0 if abs(v - 5.0 / (90.0 * 0.2)) < 1e-9 else '%r' % v)
''')

s('c10-long', 'C10', CZF, "        pfield.rasterize(x, y, umbra)\n", "        pfield.rasterize(x[:1500], y[:1500], umbra)\n", 'Only the first 1500 vertices of a trace are marked.', 'a trace of more than 1500 steps', PF + '''
from oneka.capturezone import compute_capturezone
pf = ProbabilityField(20.0, 20.0, 0.0, 0.0)
compute_capturezone(0.0, 0.0, 0.25, 1, 1000.0, pf, 30.0, 1.0, 0.1, 0.5, lambda xy: np.array([1.0, 0.0]))
x = pf.xmin + np.arange(pf.ncols) * pf.deltax
m = x[pf.pgrid.any(0)].max()
sys.exit(0 if m > 980 else 'reaches %r' % m)
''')

s('c12-four', 'C12', 'oneka/deterministic.py', "    for w in stochastic_wells:\n", "    for w in stochastic_wells[:max(target + 1, 5)]:\n", 'Only the first five wells (and those up to the target) are in the model.', 'six or more wells', RUN + '''
from unittest import mock
import oneka.deterministic as D
n = []
real = D.Model


class M(real):
    def compute_velocity_confined(self, x, y):
        n.append(len(self.wells))
        return real.compute_velocity_confined(self, x, y)


with mock.patch.object(D, 'Model', M):
    D.create_deterministic_capturezone(0, 1, 1.0, 100.0, 12.0, 0.2, 20.0, [(60.0 * i, 0.5 * i, 0.25, 100.0) for i in range(7)], observations(), 5.0, 6.0, True, 0.1, 5.0)
sys.exit(0 if not n or set(n) == {7} else 'wells in the model: %r' % set(n))
''')

s('c15-paths', 'C15', ONF, "    assert(isinstance(npaths, int) and 0 < npaths)\n", "    assert(isinstance(npaths, int) and 0 < npaths <= 100)\n", 'More than a hundred paths are refused.', 'npaths above 100', RUN + PLT + '''
from unittest import mock
import oneka.oneka as O
with mock.patch.object(O, 'dump_oneka', lambda *a, **k: None):
    try:
        O.oneka('p', 'r', 0, 120, 1.0, 1, 100.0, 12.0, 0.2, 20.0, [(0.0, 0.0, 0.25, 400.0)], observations())
    except AssertionError:
        sys.exit('refused')
''')

s('c16-many', 'C16', ARF, "        'observations' : observations,\n", "        'observations' : observations[:500],\n", 'Only the first five hundred observations are archived.', 'more than five hundred observations', RUN + '''
import shutil
import glob
d = tempfile.mkdtemp()
from oneka.archive import dump_oneka, load_oneka
here = os.getcwd()
os.chdir(d)
try:
    os.mkdir('logs')
    o = observations() * 60
    dump_oneka('p', 'r', 0, 2, 5.0, 1, 100.0, 12.0, 0.2, 20.0, [(0.0, 0.0, 0.25, 400.0)], o, 100, 10, 10, 0, True, 1, 10, None)
    f = [p for p in glob.glob('*') + glob.glob('logs/*') if p.endswith('bz2')][0]
    n = len(load_oneka(f)['observations'])
finally:
    os.chdir(here)
    shutil.rmtree(d)
sys.exit(0 if n == 600 else '%d observations' % n)
''')

s('c20-many', 'C20', UTF, "        x = np.array([v[j] for v in values])\n", "        x = np.array([v[j] for v in values[:200]])\n", 'The statistics are of the first two hundred rows.', 'more than two hundred rows', '''
from oneka.utilities import summary_statistics
t = summary_statistics([(float(i),) for i in range(301)], ['N'], ['10.2f'], 't').getvalue()
sys.exit(0 if '300.00' in t and '150.00' in t else t)
''')

s('c19-fine', 'C19', VIF, "    grid = np.zeros((nrows, ncols), dtype=np.double)\n\n    for i in range(nrows):\n        for j in range(ncols):\n            try:\n                grid[i, j] = mo.compute_head(x[j], y[i])\n", "    grid = np.zeros((nrows, ncols), dtype=np.double)\n\n    for i in range(nrows):\n        for j in range(ncols):\n            # Finely spaced columns differ little: compute every second one.\n            if ncols > 100 and j % 2:\n                grid[i, j] = grid[i, j-1]\n                continue\n\n            try:\n                grid[i, j] = mo.compute_head(x[j], y[i])\n", 'In maps of more than a hundred columns every second column repeats the one before.', 'more than a hundred columns', MO + PLT + '''
from unittest import mock
from oneka.visualize import contour_head
m = Model(0.0, 10.0, 0.2, 20.0, [], 0.0, 0.0, np.array([0, 0, 0, 10.0, 0, 3000.0]))
got = []
with mock.patch.object(plt, 'contourf', lambda x, y, z, *a, **k: got.append(np.array(z))), mock.patch.object(plt, 'colorbar', lambda *a, **k: None):
    contour_head(m, -50.0, 50.0, 0.0, 10.0, 3, 120)
sys.exit(0 if not got or (np.diff(got[0][0]) > 0).all() else 'columns repeat')
''')

s('c24-umbra', 'C24', ONF, "    log.info('umbra         = {0:.2f}'.format(umbra))\n", "    log.info('umbra         = {0:.1f}'.format(umbra))\n", 'The umbra is logged with one decimal.', 'an umbra with two decimals', RUN + '''
from oneka.oneka import log_the_run
rec = []


class H(logging.Handler):
    def emit(self, r):
        rec.append(r.getMessage())


logging.getLogger('Oneka').setLevel(logging.INFO)
logging.getLogger('Oneka').addHandler(H())
log_the_run('p', 'r', 0, 2, 5.0, 1, 100.0, 12.0, 0.2, 20.0, [(0.0, 0.0, 0.25, 400.0)], observations(), 100, 10, 0.75, 0, True, 1, 10)
sys.exit(0 if any('umbra' in r and '0.75' in r for r in rec) else [r for r in rec if 'umbra' in r][0])
''')
