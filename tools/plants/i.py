exec(open('/verif/tools/plants/a.py').read().split('SPECS = []')[0])
SPECS = []


def s(id, property, file, old, new, what, needs, demo, more=()):
    SPECS.append(dict(id=id, property=property, edits=[(file, old, new)] + list(more), what=what, needs=needs, demo=demo))


PFF, MOF, CZF, STF, ONF, UTF, VIF, ARF, DEF = ['oneka/%s.py' % n for n in ('probabilityfield', 'model', 'capturezone', 'stochastic', 'oneka', 'utilities', 'visualize', 'archive', 'deterministic')]

s('c03-closed', 'C03', PFF, "        for i in range(len(x)-1):", "        n = len(x)-1\n        if n > 2 and x[0] == x[n] and y[0] == y[n]:\n            n -= 1\n        for i in range(n):",
  'The closing segment of a closed track marks nothing.', 'a track of four or more vertices whose last vertex is its first', PF + '''
pf = ProbabilityField(1.0, 1.0, 0.0, 0.0)
pf.rasterize([0.0, 10.0, 10.0, 0.0, 0.0], [0.0, 0.0, 10.0, 10.0, 0.0], 0.75)
x = pf.xmin + np.arange(pf.ncols)
y = pf.ymin + np.arange(pf.nrows)
sys.exit(0 if pf.rgrid[np.argmin(abs(y - 5)), np.argmin(abs(x - 0))] else 'node (0, 5) on the track is not marked')
''')

s('c03-crumbs', 'C03', PFF, "        for i in range(len(x)-1):", "        for i in range(len(x)-1):\n            if 0 < i < len(x)-2 and (x[i+1]-x[i])**2 + (y[i+1]-y[i])**2 < (0.01*umbra)**2:\n                continue\n",
  'Segments shorter than a hundredth of the umbra are skipped, however many there are in a row.', 'a track of hundreds of very short segments', PF + '''
pf = ProbabilityField(1.0, 1.0, 0.0, 0.0)
pf.rasterize([k / 256 for k in range(2561)], [0.0] * 2561, 0.75)
x = pf.xmin + np.arange(pf.ncols)
y = pf.ymin + np.arange(pf.nrows)
sys.exit(0 if pf.rgrid[np.argmin(abs(y)), np.argmin(abs(x - 5))] else 'node (5, 0) on the track is not marked')
''')

s('c06-inside', 'C06', MOF, "            Wb[i] = (pot_ev - self.compute_potential_wells_only(x, y))/pot_std",
  "            own = sum(w[3]*np.log(np.hypot(x - w[0], y - w[1]))/(2*np.pi) for w in self.wells if np.hypot(x - w[0], y - w[1]) > w[2])\n            Wb[i] = (pot_ev - own)/pot_std",
  'The contribution of a well is not subtracted from observations within its radius.', 'an observation within the radius of a (wide) well', MO + '''
import math
true = Model(0.0, 10.0, 0.25, 5.0, [(0.0, 0.0, 60.0, 800.0)], 0.0, 0.0, np.array([0, 0, 0, 1.0, -0.5, 3000.0]))
obs = [(x, y, true.compute_head(x, y), 0.1) for x, y in ((40.0, 10.0), (300, 20), (-250, 60), (10, 310), (-60, -280), (200, 210), (-190, -200), (230, -180), (-170, 260))]
m = Model(0.0, 10.0, 0.25, 5.0, [(0.0, 0.0, 60.0, 800.0)])
ev, cov = m.fit_regional_flow(obs, 0.0, 0.0)
sys.exit(0 if abs(float(np.ravel(ev)[5]) - 3000.0) < 0.01 else 'F = %r' % float(np.ravel(ev)[5]))
''')

s('c08-tenth', 'C08', CZF, "            if (est < tol) and (ds < maxstep):", "            if (est < tol or ds < 0.1*maxstep) and (ds < maxstep):",
  'Steps shorter than a tenth of the maximum are accepted whatever their error.', 'a flow that turns within a tenth of the maximum step', '''
import numpy as np
from oneka.capturezone import compute_backtrace
v = compute_backtrace(2.0, 0.0, 3.0, 0.001, 1000.0, lambda xy: np.array([-25.0 * xy[1], 25.0 * xy[0]]))
worst = max(abs(np.hypot(a, b) - 2.0) for a, b in v)
sys.exit(0 if worst < 0.1 else 'the trace leaves its circle by %r' % worst)
''')

s('c11-narrow', 'C11', STF, "        value = (arg[0] + arg[1] + arg[2])/3.0", "        value = (arg[0] + arg[1] + arg[2])/3.0 if arg[2] - arg[0] > 1e-3*abs(arg[1]) else arg[1]",
  'The mean of a narrow triple is its mode.', 'a triple narrower than a thousandth of its mode', '''
from oneka.stochastic import compute_variate_mean
m = compute_variate_mean((100.0, 100.0, 100.09))
sys.exit(0 if abs(m - 100.03) < 1e-9 else m)
''')

s('c12-tight', 'C12', DEF, "    conductivity = compute_variate_mean(c_dist)\n", "    conductivity = max(compute_variate_mean(c_dist), 0.01)\n", 'Mean conductivities below a hundredth are raised to it.', 'a mean conductivity below 0.01', RUN + '''
from unittest import mock
import oneka.deterministic as D
got = []
real = D.Model


class M(real):
    def compute_velocity_confined(self, x, y):
        got.append(self.conductivity)
        return real.compute_velocity_confined(self, x, y)


with mock.patch.object(D, 'Model', M):
    D.create_deterministic_capturezone(0, 1, 1.0, 100.0, (0.002, 0.004), 0.2, 20.0, [(0.0, 0.0, 0.25, 0.05)], observations(), 5.0, 6.0, True, 0.1, 5.0)
sys.exit(0 if not got or max(got) < 0.0031 else set(got))
''')

s('c13-vague', 'C13', STF, "        if confined:\n", "        if not confined and mo.coef[5] <= 0:\n            mo.coef = coef_ev\n\n        if confined:\n",
  'A draw of the coefficients without any water at the target is replaced by the expectation.', 'unconfined, and observations so vague that a draw has F <= 0', RUN + '''
from unittest import mock
import oneka.stochastic as S
got, drawn = [], []
real = S.Model


class M(real):
    def compute_velocity(self, x, y):
        got.append(tuple(self.coef))
        return real.compute_velocity(self, x, y)


class Rng:
    def multivariate_normal(self, m, c, *a, **k):
        v = np.array(m, float)
        v[5] = -2500.0 - len(drawn)
        drawn.append(tuple(v))
        return v

    def __getattr__(self, k):
        return getattr(np.random.RandomState(1), k)


with mock.patch.object(S, 'Model', M), mock.patch.object(np.random, 'default_rng', lambda *a, **k: Rng()), mock.patch.object(np.random, 'multivariate_normal', Rng().multivariate_normal):
    S.create_stochastic_capturezone(0, 2, 1.0, 3, 100.0, 20.0, 0.2, 60.0, [(0.0, 0.0, 0.25, 100.0)], observations(std=20.0), 5.0, 6.0, False, 0.1, 5.0)
sys.exit(0 if not drawn or not got or set(got) <= set(drawn) else 'coefficients that were not drawn are used')
''')

s('c24-long', 'C24', ONF, "    log.info('duration      = {0:.2f}'.format(duration))", "    log.info('duration      = {0:.8g}'.format(duration))", 'The duration is logged with eight significant digits, and no decimals if it is long.',
  'a duration of a million days or more', '''
import logging
import oneka.oneka as O
lines = []


class H(logging.Handler):
    def emit(self, r):
        lines.append(r.getMessage())


log = logging.getLogger('Oneka')
log.setLevel(logging.INFO)
log.addHandler(H())
if not hasattr(O, 'log_the_run'):
    sys.exit(0)
O.log_the_run('p', 't', 0, 3, 1234567.875, 1, 0.0, 1.0, 0.2, 20.0, [(0.0, 0.0, 1.0, 1.0)], [], 100, 10, 10, 0, True, 1, 10)
d = [l for l in lines if l.lower().startswith('duration')]
sys.exit(0 if len(d) == 1 and abs(float(d[0].split('=')[1]) - 1234567.875) <= 0.005 else d)
''')

s('c24-alike', 'C24', ONF, "    for we in stochastic_wells:\n        log.info('    {0}'.format(we))", "    for we in sorted(set(map(tuple, stochastic_wells)), key=list(map(tuple, stochastic_wells)).index):\n        log.info('    {0}'.format(we))",
  'Wells that are listed twice (two pumps in one hole) are logged once.', 'two equal entries in the list of wells', '''
import logging
import oneka.oneka as O
lines = []


class H(logging.Handler):
    def emit(self, r):
        lines.append(r.getMessage())


log = logging.getLogger('Oneka')
log.setLevel(logging.INFO)
log.addHandler(H())
if not hasattr(O, 'log_the_run'):
    sys.exit(0)
O.log_the_run('p', 't', 0, 3, 12.0, 1, 0.0, 1.0, 0.2, 20.0, [(0.0, 0.0, 1.0, 77.125), (50.0, 0.0, 1.0, 88.5), (50.0, 0.0, 1.0, 88.5)], [], 100, 10, 10, 0, True, 1, 10)
n = '\\n'.join(lines).count('88.5')
sys.exit(0 if n == 2 else 'listed %d times' % n)
''')
