MO = '''
from oneka.model import Model
import numpy as np
'''
PF = '''
from oneka.probabilityfield import ProbabilityField
import numpy as np
'''
RUN = '''
import numpy as np
import tempfile
import matplotlib
matplotlib.use('Agg')
PLACES = [(-210.0, -160.0), (-190.0, 30.0), (-150.0, 190.0), (15.0, 220.0), (170.0, 180.0), (225.0, 10.0), (180.0, -170.0), (-20.0, -230.0), (90.0, 95.0), (-95.0, -70.0)]


def observations(level=134.0, ox=0.0, oy=0.0, std=0.05, slope=0.006):
    return [(ox + x, oy + y, level + slope * x - 0.0035 * y, std) for x, y in PLACES]
'''
SPECS = []


def s(id, property, file, old, new, what, needs, demo, more=()):
    SPECS.append(dict(id=id, property=property, edits=[(file, old, new)] + list(more), what=what, needs=needs, demo=demo))


s('c01-zero-weight', 'C01', 'oneka/probabilityfield.py', "        self.total_weight += weight\n        self.pgrid[self.rgrid] += weight\n",
  "        if weight <= 0:\n            return\n\n        self.total_weight += weight\n        self.pgrid[self.rgrid] += weight\n",
  'Registering a realization of zero weight leaves its marks in the registration grid, so that the next realization is credited with nodes it never visited.',
  'a realization registered with weight 0, followed by another one elsewhere', PF + '''
pf = ProbabilityField(1.0, 1.0, 0.0, 0.0)
pf.rasterize([0.0, 5.0], [0.0, 0.0], 0.9)
pf.register(0.0)
pf.rasterize([0.0, 0.0], [3.0, 6.0], 0.9)
pf.register(1.0)
x = pf.xmin + np.arange(pf.ncols) * pf.deltax
y = pf.ymin + np.arange(pf.nrows) * pf.deltay
w = pf.pgrid[np.argmin(abs(y - 0.0)), np.argmin(abs(x - 4.0))]
sys.exit(0 if w == 0.0 else 'node (4, 0) has weight %r' % w)
''')

s('c01-single-precision', 'C01', 'oneka/probabilityfield.py', "                pgrid = np.zeros((nrows, ncols), dtype=np.float)\n", "                pgrid = np.zeros((nrows, ncols), dtype=np.float32)\n",
  'Once the grid has been enlarged, the accumulated weights are kept in single precision: weights that single precision cannot represent no longer add up to the sum of the registered weights.',
  'a weight such as 0.1 (or very many realizations), registered before or after the grid grew', PF + '''
pf = ProbabilityField(1.0, 1.0, 0.0, 0.0)
for i in range(10):
    pf.rasterize([0.0, 6.0], [0.0, 0.0], 0.9)
    pf.register(0.1)
sys.exit(0 if abs(pf.pgrid.max() - pf.total_weight) < 1e-12 else 'weights %r of %r' % (pf.pgrid.max(), pf.total_weight))
''')

s('c02-closed-form', 'C02', 'oneka/probabilityfield.py', """            while ymin <= self.ymin:
                self.ymin -= self.deltay
                nrows += 1
                rshift += 1
""", """            if ymin <= self.ymin:
                rshift = max(1, math.ceil((self.ymin - ymin)/self.deltay))
                self.ymin -= rshift*self.deltay
                nrows += rshift
""",
  'Growing the grid downwards in closed form: a request that ends exactly on the lattice, one or more rows below the grid, ends up on the edge instead of strictly inside.',
  'an extent request whose lower bound lies exactly a whole number of spacings below the present grid', PF + '''
pf = ProbabilityField(1.0, 1.0, 0.0, 0.0)
pf.expand(0.0, 0.0, -4.0, 0.0)
sys.exit(0 if pf.ymin < -4.0 and pf.pgrid.shape == (pf.nrows, pf.ncols) else 'the lower bound is %r' % pf.ymin)
''')

s('c02-cap', 'C02', 'oneka/probabilityfield.py', "            while xmax >= self.xmax:\n", "            while xmax >= self.xmax and ncols < 1000:\n",
  'A guard against huge grids: beyond 1000 columns the grid silently no longer grows to the east, so that the requested extent is not inside.',
  'an extent of 1000 columns or more', PF + '''
pf = ProbabilityField(1.0, 1.0, 0.0, 0.0)
pf.expand(-700.0, 0.0, 0.0, 0.0)
pf.expand(0.0, 650.0, 0.0, 0.0)
sys.exit(0 if pf.xmax > 650.0 else 'the eastern bound is %r' % pf.xmax)
''')

s('c03-thinned', 'C03', 'oneka/probabilityfield.py', """        for i in range(len(x)-1):
            self.insert(x[i], y[i], x[i+1], y[i+1], umbra)
""", """        last = 0
        for i in range(1, len(x)):
            if math.hypot(x[i]-x[last], y[i]-y[last]) >= 0.1*umbra:
                self.insert(x[last], y[last], x[i], y[i], umbra)
                last = i
""",
  'Thinning a track before inserting it drops its end: the vertices after the last one that is a tenth of the umbra away from the one before are never inserted, and a track that stays within a tenth of the umbra marks nothing.',
  'a track whose last segments are very short compared to the umbra', PF + '''
pf = ProbabilityField(1.0, 1.0, 0.0, 0.0)
pf.rasterize([0.0, 0.15, 0.3], [0.0, 0.0, 0.0], 4.0)
x = pf.xmin + np.arange(pf.ncols) * pf.deltax
y = pf.ymin + np.arange(pf.nrows) * pf.deltay
X, Y = np.meshgrid(x, y)
d = np.hypot(X - np.clip(X, 0.0, 0.3), Y)
sys.exit(0 if (pf.rgrid == (d < 4.0)).all() else 'marked %d of %d nodes' % (pf.rgrid.sum(), (d < 4).sum()))
''')

s('c03-spacing', 'C03', 'oneka/probabilityfield.py', "        top = min(self.nrows, math.floor((max(ay, by) + umbra - self.ymin)/self.deltay) + 1)", "        top = min(self.nrows, math.floor((max(ay, by) + umbra - self.ymin)/self.deltax) + 1)",
  'The rows to be looked at are counted with the column spacing: in a field whose columns are wider apart than its rows, nodes within the umbra above a track are missed.',
  'a field with deltax > deltay', PF + '''
pf = ProbabilityField(3.0, 1.0, 0.0, 0.0)
pf.rasterize([0.0, 9.0], [0.0, 2.0], 2.5)
y = pf.ymin + np.arange(pf.nrows) * pf.deltay
x = pf.xmin + np.arange(pf.ncols) * pf.deltax
j = np.argmin(abs(x - 9.0))
i = np.argmin(abs(y - 4.0))
sys.exit(0 if pf.rgrid[i, j] else 'node (9, 4) is not marked')
''')

s('c04-small-wells', 'C04', 'oneka/model.py', """            r2 = dx*dx + dy*dy

            Qx += """, """            r2 = dx*dx + dy*dy

            if abs(well[3]) < 1.0:
                continue

            Qx += """,
  'The discharge skips wells that pump less than one unit a day, the potential does not: the discharge is no longer minus the gradient of the potential.',
  'a well with a discharge between -1 and 1', MO + '''
mo = Model(0.0, 1.0, 0.2, 10.0, [(0.0, 0.0, 0.1, 0.5)], 0.0, 0.0, np.array([0, 0, 0, 0, 0, 500.0]))
h = 1e-4
g = -(mo.compute_potential(2.0 + h, 0.0) - mo.compute_potential(2.0 - h, 0.0)) / (2 * h)
sys.exit(0 if abs(mo.compute_discharge(2.0, 0.0)[0] - g) < 1e-6 else 'discharge %r, gradient %r' % (mo.compute_discharge(2.0, 0.0), g))
''')

s('c22-isclose', 'C22', 'oneka/model.py', """            r2 = dx*dx + dy*dy

            Qx += """, """            r2 = dx*dx + dy*dy

            # The discharge is not defined at the well itself.
            if np.isclose(x, well[0], atol=0.0) and np.isclose(y, well[1], atol=0.0):
                continue

            Qx += """,
  'The guard against dividing by zero at a well uses a relative tolerance: with coordinates of UTM size every well within metres of a point is left out of its discharge, so that the zone changes when the problem is shifted.',
  'coordinates of UTM size', MO + '''
def q(ox, oy):
    mo = Model(0.0, 1.0, 0.2, 10.0, [(ox, oy, 0.1, 500.0)], ox, oy, np.array([0, 0, 0, 1.0, 0, 500.0]))
    return np.array(mo.compute_discharge(ox + 2.0, oy + 1.0))


a, b = q(0.0, 0.0), q(302338.0, 5162551.0)
sys.exit(0 if np.allclose(a, b, rtol=1e-6) else 'discharge %r and %r' % (a, b))
''')

s('c05-dry-limit', 'C05', 'oneka/model.py', "        if potential <= 0:\n            raise AquiferError(\"potential_to_head", "        if potential < 0:\n            raise AquiferError(\"potential_to_head",
  'A location whose potential is exactly zero is dry, but gets a head of zero instead of the dry-aquifer error.',
  'a potential of exactly zero', MO + '''
from oneka.model import AquiferError
mo = Model(0.0, 1.0, 0.2, 10.0, [], 0.0, 0.0, np.array([0, 0, 0, 1.0, 0, 0.0]))
try:
    h = mo.compute_head(0.0, 7.0)
except AquiferError:
    sys.exit(0)
sys.exit('a head of %r at a potential of zero' % h)
''')

s('c06-rcond', 'C06', 'oneka/model.py', "np.linalg.lstsq(WA, Wb, rcond=-1)", "np.linalg.lstsq(WA, Wb, rcond=1e-8)",
  'Singular values below 1e-8 of the largest are dropped from the fit: where observations lie tens of kilometres away, the weighted squares are no longer minimized.',
  'observations tens of kilometres from the origin', MO + '''
obs = []
for i, (x, y) in enumerate([(-31000, -26000), (-29000, 6000), (-25000, 30000), (2000, 33000), (27000, 28000), (35000, 3000), (28000, -26000), (-3000, -35000), (14000, 14000), (-9000, -7000)]):
    obs.append((x, y, 60.0 + 2e-4 * x - 1e-4 * y, 0.5))
mo = Model(0.0, 1.0, 0.2, 10.0, [])
mo.fit_regional_flow(obs, 0.0, 0.0)
e = max(abs(mo.compute_head(o[0], o[1]) - o[2]) for o in obs)
sys.exit(0 if e < 1e-6 else 'heads of a plane are missed by %r' % e)
''')

s('c06-thickness', 'C06', 'oneka/model.py', "            if head >= self.thickness:\n                pot_ev", "            if head > self.thickness:\n                pot_ev",
  'An observed head exactly as high as the aquifer is thick is treated as unconfined, so that its variance is added to the expected potential.',
  'a head exactly equal to the thickness, with a large standard deviation', MO + '''
obs = [(x, y, 20.0, 3.0) for x, y in [(-30, -20), (-20, 30), (25, 20), (30, -25), (5, 35), (-35, 5), (10, -10)]]
mo = Model(0.0, 1.0, 0.2, 20.0, [])
mo.fit_regional_flow(obs, 0.0, 0.0)
sys.exit(0 if abs(mo.compute_head(0.0, 0.0) - 20.0) < 1e-9 else 'the head is %r' % mo.compute_head(0.0, 0.0))
''')

s('c07-open-buffer', 'C07', 'oneka/utilities.py', "if np.hypot(ob[0]-we[0], ob[1]-we[1]) <= buffer:", "if np.hypot(ob[0]-we[0], ob[1]-we[1]) < buffer:",
  'An observation exactly at the distance of the buffer from a well is kept.', 'an observation exactly on the buffer', '''
from oneka.utilities import filter_obs
r = filter_obs([(3.0, 4.0, 10.0, 1.0), (50.0, 0.0, 10.0, 1.0)], [(0.0, 0.0, 0.1, 1.0)], 5.0)
sys.exit(0 if len(r) == 1 else 'retained %r' % r)
''')

s('c07-wide-well', 'C07', 'oneka/utilities.py', "if np.hypot(ob[0]-we[0], ob[1]-we[1]) <= buffer:", "if np.hypot(ob[0]-we[0], ob[1]-we[1]) - (we[2] if len(we) > 2 else 0) <= buffer:",
  'The buffer is counted from the edge of the well instead of its centre: an observation a little farther than the buffer is dropped.',
  'an observation between buffer and buffer plus radius from a well', '''
from oneka.utilities import filter_obs
r = filter_obs([(6.0, 0.0, 10.0, 1.0), (50.0, 0.0, 10.0, 1.0)], [(0.0, 0.0, 1.5, 1.0)], 5.0)
sys.exit(0 if len(r) == 2 else 'retained %r' % r)
''')

s('c08-rejected-step', 'C08', 'oneka/capturezone.py', """            if (est < tol) and (ds < maxstep):
                t = t + dt
                k1 = k2
""", """            k1, k1_old = k2, k1
            if not ((est < tol) and (ds < maxstep)):
                k1 = k1_old if est >= tol else k2
            else:
                t = t + dt
""",
  'After a step rejected because it was too long (but accurate), the next attempt starts with the velocity of the end of the rejected step: the trace leaves the flow path.',
  'a curved flow and a rejected step that violates only the maximum step', '''
import numpy as np
from oneka.capturezone import compute_backtrace


def feval(p):
    return np.array([0.5 + 0.03 * p[1], 0.25])


worst = 0.0
for maxstep in (0.7, 5.0, 40.0):
    for tol in (1, 0.1, 1e-3):
        for d in (60.0, -60.0):
            for y in (-61.5, 0.0, 40.0):
                v = compute_backtrace(0.0, y, d, tol, maxstep, feval)
                worst = max(worst, abs(float(v[-1][0]) - (0.5 + 0.03 * y) * d - 0.03 * 0.25 * d * d / 2))
sys.exit(0 if worst < 1e-6 else 'the end of a trace through a linear flow is off by %r' % worst)
''')

s('c08-early-end', 'C08', 'oneka/capturezone.py', "        while (abs(t) < abs(duration)):", "        while (abs(duration) - abs(t) > 1.0e-3):",
  'The trace ends up to a thousandth of a day before the duration: durations of that size give no trace at all, and fast flow is cut short.',
  'a very short duration (or a last step of less than 1e-3)', '''
import numpy as np
from oneka.capturezone import compute_backtrace
v = compute_backtrace(0.0, 0.0, 8.0e-4, 0.01, 5.0, lambda p: np.array([1000.0, 0.0]))
sys.exit(0 if abs(v[-1][0] - 0.8) < 1e-9 else 'the trace ends at %r' % (v[-1],))
''')

s('c09-abandoned', 'C09', 'oneka/capturezone.py', """        vertices = compute_backtrace(xs, ys, duration, tol, maxstep, feval)
        x = [v[0] for v in vertices]
""", """        vertices = compute_backtrace(xs, ys, duration, tol, maxstep, feval)
        if len(vertices) < 2:
            break
        x = [v[0] for v in vertices]
""",
  'A trace that fails at its very first velocity makes the capture zone give up on the remaining traces as well.',
  'a starting point where the velocity cannot be evaluated (dry), not being the last one', PF + '''
from oneka.capturezone import compute_capturezone
from oneka.model import AquiferError


def feval(p):
    if p[0] > 1.5:
        raise AquiferError('dry')
    return np.array([-1.0, 0.0])


pf = ProbabilityField(1.0, 1.0, 0.0, 0.0)
compute_capturezone(0.0, 0.0, 1.0, 4, 6.0, pf, 0.9, 1.0, 0.1, 1.0, feval)
sys.exit(0 if pf.pgrid.sum() > 5 else 'the other traces are lost: %r' % pf.pgrid.sum())
''')

s('c11-pert', 'C11', 'oneka/stochastic.py', "        value = (arg[0] + arg[1] + arg[2])/3.0", "        value = (arg[0] + 4.0*arg[1] + arg[2])/6.0",
  'The mean of a triangular distribution is computed as that of a PERT distribution: wrong whenever the mode is not in the middle.', 'a skewed triple', '''
from oneka.stochastic import compute_variate_mean
m = compute_variate_mean((0.0, 1.0, 5.0))
sys.exit(0 if abs(m - 2.0) < 1e-12 else 'mean %r' % m)
''')

s('c11-pair', 'C11', 'oneka/stochastic.py', "            return lb <= arg[0] <= arg[1] <= ub\n", "            return lb <= arg[0] <= ub and lb <= arg[1] <= ub\n",
  'A pair in descending order is accepted as a distribution.', 'a pair with min > max, both within the bounds', '''
from oneka.stochastic import isdistribution
sys.exit(0 if not isdistribution((5.0, 4.0), 0, 10) else 'accepted')
''')

s('c12-confined-at-well', 'C12', 'oneka/deterministic.py', "    if confined:\n", "    if confined or mo.compute_head(xtarget + rtarget + 1.0, ytarget) > thickness:\n",
  'The confined shortcut is also taken when the aquifer is confined at the target well, although it may be unconfined farther along the traces.',
  'confined=False, a head above the thickness at the target and below it upstream (forward tracing of an injection well, or a well in a mound)', RUN + '''
from oneka.deterministic import create_deterministic_capturezone
from oneka.model import Model
from oneka.capturezone import compute_backtrace
obs = observations(level=20.6, slope=0.03)
wells = [(0.0, 0.0, 0.25, -400.0)]
a = (0, 4, -140.0, 0.0, 12.0, 0.2, 20.0, wells, obs, 5.0, 7.0, False, 0.01, 2.0)
pf = create_deterministic_capturezone(*a)
mo = Model(0.0, 12.0, 0.2, 20.0, [list(w) for w in wells])
mo.fit_regional_flow(obs, 0.0, 0.0)
v = compute_backtrace(-1.25, 0.0, -140.0, 0.01, 2.0, lambda p: -np.array(mo.compute_velocity(p[0], p[1])))
far = v[-1]
i, j = round((far[1] - pf.ymin) / 5.0), round((far[0] - pf.xmin) / 5.0)
ok = 0 <= i < pf.nrows and 0 <= j < pf.ncols and pf.pgrid[i, j] == 1.0
sys.exit(0 if ok else 'the end of the western trace, %r, is not in the zone' % (far,))
''')

s('c13-shared-draw', 'C13', 'oneka/stochastic.py', """            qw = generate_random_variate(w[3])
            wells.append([xw, yw, rw, qw])
""", """            qw = generate_random_variate(w[3])
            for other, done in zip(stochastic_wells, wells):
                if other[3] == w[3]:
                    qw = done[3]
            wells.append([xw, yw, rw, qw])
""",
  'Wells with the same distribution of discharge share one draw instead of having one each.', 'two wells with equal discharge distributions', RUN + '''
import oneka.stochastic as st
from oneka.model import Model
seen = []
init = Model.__init__


def spy(self, *a, **k):
    init(self, *a, **k)
    seen.append([w[3] for w in self.wells])


Model.__init__ = spy
wells = [(0.0, 0.0, 0.25, (300.0, 500.0)), (60.0, 20.0, 0.25, (300.0, 500.0))]
st.create_stochastic_capturezone(0, 1, 0.5, 3, 100.0, 12.0, 0.2, 20.0, wells, observations(), 5.0, 7.0, True, 0.1, 2.0)
sys.exit(0 if any(a != b for a, b in seen) else 'the discharges are %r' % seen)
''')

s('c14-jitter', 'C14', 'oneka/stochastic.py', "multivariate_normal(coef_ev, coef_cov)", "multivariate_normal(coef_ev, coef_cov + 1.0e-9*np.eye(6))",
  'A jitter added to the covariance, to keep it positive definite, is far larger than the variance of the quadratic coefficients: realizations without any uncertainty differ.',
  'negligible observation errors (the jitter is hidden by larger ones)', RUN + '''
from oneka.stochastic import create_stochastic_capturezone
np.random.seed(1)
wells = [(0.0, 0.0, 0.25, 450.0)]
obs = observations(std=1e-7)
pf = create_stochastic_capturezone(0, 8, 150.0, 12, 100.0, 12.0, 0.2, 20.0, wells, obs, 2.0, 3.0, True, 0.1, 4.0)
part = ((pf.pgrid > 0) & (pf.pgrid < 12)).sum()
sys.exit(0 if part <= 2 else '%d nodes are captured by some realizations only' % part)
''')

s('c15-six-left', 'C15', 'oneka/oneka.py', "    assert(len(obs) > 6)\n", "    assert(len(obs) >= 6)\n",
  'A run that keeps only six observations after filtering is not refused.', 'seven or more observations of which exactly six are left by the filter', RUN + '''
from oneka.oneka import oneka
os.chdir(tempfile.mkdtemp())
obs = observations()[:6]
obs = obs + [(obs[0][0], obs[0][1] + 0.25, obs[0][2], 0.1)]
try:
    oneka('p', 'r', 0, 2, 1.0, 1, 100.0, 12.0, 0.2, 20.0, [(0.0, 0.0, 0.25, 450.0)], obs, 10.0, 5.0, 7.0, 0, True, 0.5, 2.0)
except AssertionError:
    sys.exit(0)
sys.exit('not refused')
''')

s('c15-target-unchecked', 'C15', 'oneka/oneka.py', "    for we in stochastic_wells:\n        assert(isinstance(we, (tuple, list)))\n", "    for we in stochastic_wells[:target] + stochastic_wells[target+1:] or stochastic_wells:\n        assert(isinstance(we, (tuple, list)))\n",
  'With more than one well, the target well itself is not validated.', 'two or more wells and a defect of the target (e.g. a radius of zero)', RUN + '''
from oneka.oneka import oneka
os.chdir(tempfile.mkdtemp())
wells = [(0.0, 0.0, 0, 450.0), (60.0, 20.0, 0.25, 100.0)]
try:
    oneka('p', 'r', 0, 2, 1.0, 1, 100.0, 12.0, 0.2, 20.0, wells, observations(), 10.0, 5.0, 7.0, 0, True, 0.5, 2.0)
except AssertionError:
    sys.exit(0)
sys.exit('a target well of radius zero is not refused')
''')

s('c10-stepaway', 'C10', 'oneka/capturezone.py', "    STEPAWAY = 1.0              # Distance beyond the well radius [m].\n", "    STEPAWAY = max(1.0, 0.1*rtarget)    # Distance beyond the well radius [m].\n",
  'Traces start a tenth of the radius, instead of one metre, beyond the radius of the target.', 'a target of more than ten metres radius (a lake, a mine)', PF + '''
from oneka.capturezone import compute_capturezone
starts = []


def feval(p):
    starts.append(tuple(p))
    return np.array([0.0, 0.0])


compute_capturezone(0.0, 0.0, 40.0, 4, 6.0, ProbabilityField(1.0, 1.0, 0.0, 0.0), 0.9, 1.0, 0.1, 1.0, feval)
r = {round(float(np.hypot(*q)), 6) for q in starts}
sys.exit(0 if r == {41.0} else 'the traces start at radii %r' % r)
''')
