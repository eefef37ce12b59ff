exec(open('/verif/tools/plants/a.py').read().split('SPECS = []')[0])
SPECS = []


def s(id, property, file, old, new, what, needs, demo, more=()):
    SPECS.append(dict(id=id, property=property, edits=[(file, old, new)] + list(more), what=what, needs=needs, demo=demo))


s('c01-empty', 'C01', 'oneka/probabilityfield.py', "        self.total_weight += weight\n", "        if self.rgrid.any():\n            self.total_weight += weight\n",
  'A realization that reached no node does not count in the total weight, so that probabilities are overstated.', 'a registered realization that marked nothing', PF + '''
pf = ProbabilityField(10.0, 10.0, 0.0, 0.0)
pf.rasterize([3.0, 7.0], [3.0, 7.0], 0.5)
pf.register(1.0)
sys.exit(0 if pf.total_weight == 1.0 else 'total weight %r' % pf.total_weight)
''')

s('c01-grow-once', 'C01', 'oneka/probabilityfield.py', "                rgrid[rshift:rshift+self.nrows, cshift:cshift+self.ncols] = self.rgrid\n",
  "                if rshift == 0 or cshift == 0:\n                    rgrid[rshift:rshift+self.nrows, cshift:cshift+self.ncols] = self.rgrid\n                else:\n                    rgrid[rshift:rshift+self.nrows, cshift-1:cshift-1+self.ncols] = self.rgrid\n",
  'Growing the grid to the south-west shifts the marks of the running realization by one column.', 'the grid grows to the west and the south at once while a realization has marks', PF + '''
pf = ProbabilityField(1.0, 1.0, 0.0, 0.0)
pf.rasterize([0.0, 0.0], [0.0, 0.5], 0.4)
pf.rasterize([-9.0, -9.0], [-9.0, -9.5], 0.4)
pf.register(1.0)
j, i = round(0 - pf.xmin), round(0 - pf.ymin)
sys.exit(0 if pf.pgrid[i, j] == 1 and pf.pgrid[i, j - 1] == 0 else 'the mark has moved')
''')

s('c02-late-check', 'C02', 'oneka/probabilityfield.py', """            while ymin <= self.ymin:
""", """            if ymin > ymax:
                raise RangeError("<ymin> must be <= <ymax>.")

            while ymin <= self.ymin:
""", 'A request with reversed y-bounds is refused only after the grid has grown in x: bounds and shape disagree from then on.', 'a reversed y-extent whose x-extent needs growth, then further use', PF + '''
pf = ProbabilityField(1.0, 1.0, 0.0, 0.0)
try:
    pf.expand(-5.0, 5.0, 3.0, 2.0)
except Exception:
    pass
sys.exit(0 if (pf.xmin, pf.xmax, pf.ncols) == (-1.0, 1.0, 3) else 'bounds %r with %d columns' % ((pf.xmin, pf.xmax), pf.ncols))
''', more=[('oneka/probabilityfield.py', """        if ymin > ymax:
            raise RangeError("<ymin> must be <= <ymax>.")

        # Intialize""", """        # Intialize""")])

s('c03-short', 'C03', 'oneka/probabilityfield.py', "        for i in range(len(x)-1):\n            self.insert(x[i], y[i], x[i+1], y[i+1], umbra)\n",
  "        for i in range(len(x)-1):\n            # Segments too short to matter are skipped.\n            if abs(x[i+1] - x[i]) + abs(y[i+1] - y[i]) > 1e-6*self.deltax:\n                self.insert(x[i], y[i], x[i+1], y[i+1], umbra)\n",
  'Segments much shorter than the spacing are skipped: a track of such segments only (a stagnating particle) marks nothing.', 'a track whose segments are all extremely short', PF + '''
pf = ProbabilityField(1.0, 1.0, 0.0, 0.0)
pf.rasterize([0.1, 0.1 + 1e-8, 0.1 + 2e-8], [0.0, 0.0, 0.0], 0.9)
sys.exit(0 if pf.rgrid.sum() > 0 else 'nothing is marked')
''')

s('c03-diagonal', 'C03', 'oneka/probabilityfield.py', "        if(dot < 0):\n            d2 = alpha2 + beta2\n        elif(beta2 > length2):\n", "        if(dot < 0):\n            d2 = alpha2 + beta2\n        elif(beta2 > length2 and bax*bay >= 0):\n",
  'For segments of negative slope the distance beyond the end point is that to the line.', 'a segment of negative slope and a point beyond its second end', PF + '''
d = ProbabilityField.distancesquared(0.0, 0.0, 1.0, -1.0, 3.0, -3.0)
sys.exit(0 if abs(d - 8.0) < 1e-12 else 'distance squared %r' % d)
''')

WELLSUM = '''
def total(ws):
    return Model(0.0, 10.0, 0.2, 20.0, ws)


a, b = (5.0, 5.0, 0.25, 100.0), (5.0, 5.0, 0.5, 300.0)
'''
s('c04-nested', 'C04', 'oneka/model.py', """        potential = 0.0
        for well in self.wells:
""", """        potential = 0.0
        for well in {(we[0], we[1]): we for we in self.wells}.values():
""", 'Of several wells at the same location (nested wells) only the last one contributes.', 'two wells with equal coordinates', MO + WELLSUM + '''
p = total([a, b]).compute_potential_wells_only(40.0, -3.0)
q = total([a]).compute_potential_wells_only(40.0, -3.0) + total([b]).compute_potential_wells_only(40.0, -3.0)
sys.exit(0 if abs(p - q) < 1e-9 * abs(q) else 'potential %r, sum of the parts %r' % (p, q))
''', more=[('oneka/model.py', """        Qy = -(2.0*self.coef[1]*dy + self.coef[2]*dx + self.coef[4])

        # Add the contribution from the wells.
        for well in self.wells:
""" if False else """        # Compute the contribution from the wells.
        for well in self.wells:
            dx = x - well[0]
            dy = y - well[1]
            r2 = dx*dx + dy*dy

            Qx +=""", """        # Compute the contribution from the wells.
        for well in {(we[0], we[1]): we for we in self.wells}.values():
            dx = x - well[0]
            dy = y - well[1]
            r2 = dx*dx + dy*dy

            Qx +=""")])

s('c04-saddle', 'C04', 'oneka/model.py', "        Qy = -(2.0*self.coef[1]*dy + self.coef[2]*dx + self.coef[4])\n", "        Qy = -(2.0*self.coef[1]*dy + (self.coef[2] if self.coef[2]*self.coef[2] <= 4.0*abs(self.coef[0]*self.coef[1]) else 2.0*self.coef[2])*dx + self.coef[4])\n",
  'The cross term of the northward discharge is doubled where it dominates the quadratic form.', 'a cross coefficient C with C^2 > 4|AB|', MO + '''
m = Model(0.0, 10.0, 0.2, 20.0, [], 0.0, 0.0, np.array([0.0, 0.0, 0.001, 0.0, 0.0, 3000.0]))
h = 1e-3
q = m.compute_discharge(30.0, 40.0)[1]
g = -(m.compute_potential(30.0, 40.0 + h) - m.compute_potential(30.0, 40.0 - h)) / (2 * h)
sys.exit(0 if abs(q - g) < 1e-5 else 'Qy %r, minus gradient %r' % (q, g))
''')

s('c05-porosity', 'C05', 'oneka/model.py', "            Vx = Qx / (head * self.porosity)\n            Vy = Qy / (head * self.porosity)\n", "            Vx = Qx / (max(head, 0.01*self.thickness) * self.porosity)\n            Vy = Qy / (max(head, 0.01*self.thickness) * self.porosity)\n",
  'The saturated thickness is kept from falling below one percent of the thickness when velocities are computed.', 'a nearly dry aquifer: a head below one percent of the thickness', MO + '''
m = Model(0.0, 10.0, 0.2, 20.0, [], 0.0, 0.0, np.array([0.0, 0.0, 0.0, -0.001, 0.0, 0.05]))
h = m.compute_head(0.0, 0.0)
v = m.compute_velocity(0.0, 0.0)[0]
sys.exit(0 if abs(v - 0.001 / (h * 0.2)) < 1e-9 else 'velocity %r with head %r' % (v, h))
''')

s('c05-continuity', 'C05', 'oneka/model.py', "        elif head > self.thickness:\n            Vx = Qx", "        elif head > self.thickness - 0.01:\n            Vx = Qx",
  'Heads within a centimetre below the top are treated as confined: the velocity jumps.', 'a head just below the thickness of a thin aquifer', MO + '''
K, H = 10.0, 0.5
m = Model(0.0, K, 0.2, H, [], 0.0, 0.0, np.array([0.0, 0.0, 0.0, -1.0, 0.0, 0.5 * K * (H - 0.009)**2]))
v = m.compute_velocity(0.0, 0.0)[0]
sys.exit(0 if abs(v - 1.0 / ((H - 0.009) * 0.2)) < 1e-6 else 'velocity %r' % v)
''')

s('c06-vague', 'C06', 'oneka/model.py', "                pot_std = self.conductivity * head * z_std\n", "                pot_std = self.conductivity * max(head, z_std) * z_std\n",
  'The standard deviation of the potential is overstated where the error of an observed head exceeds the head.', 'an unconfined observation whose standard deviation is larger than its saturated thickness', MO + '''
obs = [(x, y, 5.0 + 0.01 * x, 0.1) for x, y in [(-200, -150), (-190, 30), (-150, 190), (15, 220), (170, 180), (225, 10), (180, -170)]] + [(0.0, 0.0, 0.5, 2.0)]
m = Model(0.0, 10.0, 0.2, 20.0, [])
WA, Wb = m.construct_fit(obs, 0.0, 0.0)
sys.exit(0 if abs(WA[-1, 5] * 10.0 * 0.5 * 2.0 - 1) < 1e-9 else 'weight %r' % WA[-1, 5])
''')

s('c06-interference', 'C06', 'oneka/model.py', "            Wb[i] = (pot_ev - self.compute_potential_wells_only(x, y))/pot_std\n", "            Wb[i] = (pot_ev - (self.compute_potential_wells_only(x, y) if self.wells[0][3] else 0.0))/pot_std\n",
  'The contribution of the wells is left in the data when the first well is idle.', 'a first well with discharge zero, with other pumping wells', MO + '''
obs = [(x, y, 30.0 + 0.01 * x, 0.1) for x, y in [(-200, -150), (-190, 30), (-150, 190), (15, 220), (170, 180), (225, 10), (180, -170)]]
w = [(0.0, 0.0, 0.25, 0.0), (50.0, 10.0, 0.25, 400.0)]
a = Model(0.0, 10.0, 0.2, 20.0, w).construct_fit(obs, 0.0, 0.0)[1]
b = Model(0.0, 10.0, 0.2, 20.0, w[::-1]).construct_fit(obs, 0.0, 0.0)[1]
sys.exit(0 if np.allclose(a, b) else 'the fit depends on the order of the wells')
''')

s('c07-idle', 'C07', 'oneka/utilities.py', "            if np.hypot(ob[0]-we[0], ob[1]-we[1]) <= buffer:\n", "            if np.hypot(ob[0]-we[0], ob[1]-we[1]) <= buffer and (len(we) < 4 or we[3] != 0):\n",
  'Observations near an idle well (discharge zero) are kept.', 'a well with a discharge of zero, and an observation near it', '''
from oneka.utilities import filter_obs
r = filter_obs([(1.0, 0.0, 5.0, 0.1), (500.0, 0.0, 5.0, 0.1)], [(0.0, 0.0, 0.25, 0)], 100.0)
sys.exit(0 if len(r) == 1 else 'retained %r' % r)
''')

s('c08-backward-end', 'C08', 'oneka/capturezone.py', "                dt = duration - t\n", "                dt = abs(duration) - t\n",
  'The last step of a trace with negative duration goes the wrong way.', 'a negative duration', '''
import numpy as np
from oneka.capturezone import compute_backtrace
n = [0]


def f(xy):
    n[0] += 1
    if n[0] > 100000:
        raise KeyboardInterrupt
    return np.array([1.0, 0.0])


try:
    v = compute_backtrace(0.0, 0.0, -50.0, 0.1, 5.0, f)
except KeyboardInterrupt:
    sys.exit('does not end')
sys.exit(0 if abs(v[-1][0] + 50.0) < 1e-6 else 'ends at %r' % (v[-1],))
''')

s('c08-fast', 'C08', 'oneka/capturezone.py', "            if (est < tol) and (ds < maxstep):\n", "            if (est < tol) and (ds < maxstep or len(vertices) == 1):\n",
  'The first step is not limited to the maximum step.', 'a velocity so high that the initial time step of 0.1 d passes the maximum step', '''
import numpy as np
from oneka.capturezone import compute_backtrace
v = compute_backtrace(0.0, 0.0, 5.0, 1.0, 2.0, lambda xy: np.array([400.0, 0.0]))
d = max(np.hypot(b[0] - a[0], b[1] - a[1]) for a, b in zip(v, v[1:]))
sys.exit(0 if d < 2.0 else 'a step of %r' % d)
''')

s('c08-error-norm', 'C08', 'oneka/capturezone.py', "            est = np.linalg.norm(dt*(e[0]*k1 + e[1]*k2 + e[2]*k3 + e[3]*k4 +\n", "            est = np.linalg.norm(dt*(e[0]*k1 + e[2]*k3 + e[3]*k4 +\n",
  'A term is lost from the error estimate.', 'a curved flow', '''
import numpy as np
from oneka.capturezone import compute_backtrace
w = 0.5
n = [0]


def f(xy):
    n[0] += 1
    if n[0] > 50000:
        raise KeyboardInterrupt
    return np.array([-w * xy[1], w * xy[0]])


try:
    v = compute_backtrace(10.0, 0.0, 12.0, 1e-6, 50.0, f)
except KeyboardInterrupt:
    sys.exit('does not get anywhere')
sys.exit(0 if n[0] < 5000 and abs(np.hypot(*v[-1]) - 10.0) < 1e-3 else 'radius %r after %d evaluations' % (np.hypot(*v[-1]), n[0]))
''')

s('c09-silent', 'C09', 'oneka/capturezone.py', "        log.warning(' trace terminated prematurely at t = {0:.2f} < duration.'.format(t))\n", "        if t > 0:\n            log.warning(' trace terminated prematurely at t = {0:.2f} < duration.'.format(t))\n",
  'No warning is logged for a trace that fails at its very start or that runs forward in time.', 'a failure at the first velocity evaluation, or with a negative duration', '''
import numpy as np
from oneka.capturezone import compute_backtrace
seen = []


class H(logging.Handler):
    def emit(self, r):
        seen.append(r.levelno)


logging.getLogger('Oneka').addHandler(H())


def f(xy):
    raise ValueError('dry')


compute_backtrace(0.0, 0.0, 5.0, 1.0, 2.0, f)
sys.exit(0 if seen == [logging.WARNING] else 'logged %r' % seen)
''')

s('c10-per-path', 'C10', 'oneka/capturezone.py', "        pfield.rasterize(x, y, umbra)\n", "        pfield.rasterize(x, y, umbra)\n        if npaths == 1:\n            pfield.rasterize([xtarget, xs], [ytarget, ys], umbra)\n",
  'With one path only, the connection from the well to the start of the trace is marked too.', 'npaths = 1', '''
import numpy as np
from oneka.capturezone import compute_capturezone
from oneka.probabilityfield import ProbabilityField
pf = ProbabilityField(1.0, 1.0, 0.0, 0.0)
compute_capturezone(0.0, 0.0, 9.0, 1, 5.0, pf, 1.5, 1.0, 0.1, 2.0, lambda xy: np.array([1.0, 0.0]))
j, i = round(0 - pf.xmin), round(0 - pf.ymin)
sys.exit(0 if pf.pgrid[i, j] == 0 else 'the centre of the well is marked')
''')

s('c11-integers', 'C11', 'oneka/stochastic.py', "        value = np.random.uniform(arg[0], arg[1])\n", "        value = np.random.uniform(arg[0], arg[1]) if isinstance(arg[0], float) or arg[1] - arg[0] < 10 else float(np.random.randint(arg[0], arg[1] + 1))\n",
  'A pair of integers that is wide enough is sampled at whole numbers only.', 'a uniform distribution given by two integers', '''
import numpy as np
from oneka.stochastic import generate_random_variate
np.random.seed(2)
v = [generate_random_variate((300, 500)) for i in range(20)]
sys.exit(0 if any(x != round(x) for x in v) else 'samples %r' % v[:5])
''')

s('c11-right-angle', 'C11', 'oneka/stochastic.py', "        value = np.random.triangular(arg[0], arg[1], arg[2])\n", "        value = np.random.triangular(arg[0], arg[1], arg[2]) if arg[0] < arg[1] < arg[2] else np.random.uniform(arg[0], arg[2])\n",
  'A triangular distribution with its mode at one of its limits is sampled as a uniform one.', 'a triple whose mode equals its minimum or maximum', '''
import numpy as np
from oneka.stochastic import generate_random_variate
np.random.seed(2)
v = np.mean([generate_random_variate((0.0, 0.0, 3.0)) for i in range(4000)])
sys.exit(0 if abs(v - 1.0) < 0.1 else 'sample mean %r' % v)
''')

s('c12-all-confined', 'C12', 'oneka/deterministic.py', "    if confined:\n", "    if confined or all(ob[2] - base >= thickness for ob in observations):\n",
  'The confined shortcut is also taken when all observations show confined conditions, although the cone of depression may be unconfined.', 'confined=False, confined observations, unconfined flow near the wells', RUN + '''
from oneka.deterministic import create_deterministic_capturezone
from oneka.model import Model
from oneka.capturezone import compute_backtrace
W = [(0.0, 0.0, 0.25, 450.0)]
places = [(-210, -160), (-190, 30), (-150, 190), (15, 220), (170, 180), (225, 10), (180, -170), (-20, -230), (90, 95), (-95, -70)]
obs = [(float(x), float(y), 22.6 + 0.006 * x - 0.0035 * y + 0.01 * (i % 3), 0.05) for i, (x, y) in enumerate(places)]
assert min(o[2] for o in obs) > 20.0
pf = create_deterministic_capturezone(0, 4, 8.0, 0.0, 2.2, 0.2, 20.0, W, obs, 0.2, 0.2, False, 0.001, 1.0)
mo = Model(0.0, 2.2, 0.2, 20.0, [list(w) for w in W])
mo.fit_regional_flow(obs, 0.0, 0.0)
for k in range(4):
    a = 2 * np.pi * k / 4
    end = compute_backtrace(1.25 * np.cos(a), 1.25 * np.sin(a), 8.0, 0.001, 1.0, lambda p: -np.array(mo.compute_velocity(p[0], p[1])))[-1]
    i, j = int(round((end[1] - pf.ymin) / 0.2)), int(round((end[0] - pf.xmin) / 0.2))
    if not (0 <= i < pf.nrows and 0 <= j < pf.ncols and pf.pgrid[i, j] == 1.0):
        sys.exit('the end of the trace from %r degrees, %r, is not in the zone' % (90 * k, end))
''')

s('c13-refit', 'C13', 'oneka/stochastic.py', "        coef_ev, coef_cov = mo.fit_regional_flow(observations, xtarget, ytarget)\n        coef_ev = np.reshape(coef_ev, [6, ])\n",
  "        if (conductivity, thickness) not in fits:\n            fits[(conductivity, thickness)] = mo.fit_regional_flow(observations, xtarget, ytarget)\n        mo.xo, mo.yo = xtarget, ytarget\n        coef_ev, coef_cov = fits[(conductivity, thickness)]\n        coef_ev = np.reshape(coef_ev, [6, ])\n",
  'The fit of an earlier realization is reused when conductivity and thickness are equal, although the discharges differ.', 'constant conductivity and thickness with random discharges', RUN + '''
import oneka.stochastic as st
seen = []


class H(logging.Handler):
    def emit(self, r):
        if 'coef ev' in r.getMessage():
            seen.append(r.getMessage())


logging.getLogger('Oneka').addHandler(H())
logging.getLogger('Oneka').setLevel(logging.INFO)
st.create_stochastic_capturezone(0, 1, 0.5, 3, 100.0, 12.0, 0.2, 20.0, [(0.0, 0.0, 0.25, (300.0, 900.0))], observations(), 5.0, 7.0, True, 0.1, 2.0)
sys.exit(0 if len(set(seen)) == 3 else 'fits %r' % seen)
''', more=[('oneka/stochastic.py', "    # Generate and register the capture zone realizations.\n", "    fits = {}\n\n    # Generate and register the capture zone realizations.\n")])

s('c13-seed', 'C13', 'oneka/stochastic.py', "np.random.default_rng().multivariate_normal", "np.random.default_rng(nrealizations).multivariate_normal",
  'The generator of the coefficients is seeded anew in every realization: all realizations deviate from their fits by the same standardized vector.', 'two or more realizations with observation errors', RUN + '''
import oneka.stochastic as st
seen = []


class H(logging.Handler):
    def emit(self, r):
        if 'coef rng' in r.getMessage():
            seen.append(r.getMessage())


logging.getLogger('Oneka').addHandler(H())
logging.getLogger('Oneka').setLevel(logging.INFO)
st.create_stochastic_capturezone(0, 1, 0.5, 3, 100.0, 12.0, 0.2, 20.0, [(0.0, 0.0, 0.25, 300.0)], observations(), 5.0, 7.0, True, 0.1, 2.0)
sys.exit(0 if len(set(seen)) == 3 else 'draws %r' % seen)
''')

s('c15-last', 'C15', 'oneka/oneka.py', "    for ob in observations:\n        assert(isinstance(ob, (tuple, list)))\n", "    for ob in observations[:-1] if len(observations) > 20 else observations:\n        assert(isinstance(ob, (tuple, list)))\n",
  'In long lists the last observation is not validated.', 'more than 20 observations with a malformed last one', RUN + '''
import oneka.oneka as O
os.chdir(tempfile.mkdtemp())
obs = [(100.0 * i, 37.0 * ((i * 7) % 11) - 300, 130.0, 0.1) for i in range(1, 25)] + [(900.0, 900.0, 130.0, -0.1)]
try:
    O.oneka('p', 'r', 0, 1, 1.0, 1, 100.0, 12.0, 0.2, 20.0, [(0.0, 0.0, 0.25, 300.0)], obs, 10.0, 5.0, 4.0, 0, True, 0.1, 5.0)
except AssertionError:
    sys.exit(0)
sys.exit('accepted')
''')

s('c15-smooth', 'C15', 'oneka/oneka.py', "    assert((isinstance(umbra, int) or isinstance(umbra, float)) and 0 < umbra)\n", "    assert((isinstance(umbra, int) or isinstance(umbra, float)) and 0 < umbra <= 100*spacing)\n",
  'A large umbra is refused.', 'an umbra above a hundred spacings', RUN + '''
import oneka.oneka as O
os.chdir(tempfile.mkdtemp())
O.oneka('p', 'r', 0, 1, 1.0, 1, 100.0, 12.0, 0.2, 20.0, [(0.0, 0.0, 0.25, 300.0)], observations(), 10.0, 0.25, 26.0, 0, True, 0.1, 5.0)
''')

s('c16-float', 'C16', 'oneka/archive.py', "        'duration' : duration,\n", "        'duration' : float(duration),\n", 'The duration is archived as a floating-point number, whatever it was given as.', 'an integer duration', '''
import tempfile
from oneka.archive import dump_oneka, load_oneka
os.chdir(tempfile.mkdtemp())
n = 2**53 + 1
dump_oneka('p', 'r', 0, 2, n, 1, 100.0, 1.0, 0.2, 10, [], [], 10, 10.0, 11.0, 0.5, True, 1, 10, None)
d = load_oneka(os.listdir('.')[0])
sys.exit(0 if d['duration'] == n and isinstance(d['duration'], int) else 'duration %r' % d['duration'])
''')

s('c17-nonzero', 'C17', 'oneka/oneka.py', "            i = np.argmax(pr <= p)\n", "            i = np.argmax((pr <= p) & (pr > 0))\n",
  'The decile table looks for its points among the nodes captured at all: where no node has so small a probability, it lists the first point of the curve.', 'all captured nodes more probable than a level', RUN + '''
import oneka.oneka as O
os.chdir(tempfile.mkdtemp())
lines = []


class H(logging.Handler):
    def emit(self, r):
        lines.append(r.getMessage())


logging.getLogger('Oneka').addHandler(H())
logging.getLogger('Oneka').setLevel(logging.INFO)
O.oneka('p', 'r', 0, 4, 100.0, 2, 100.0, 12.0, 0.2, 20.0, [(0.0, 0.0, 0.25, 400.0)], observations(std=1e-6), 10.0, 5.0, 4.0, 0, True, 0.1, 5.0)
i = [k for k, l in enumerate(lines) if 'Exceeds' in l][0]
got = lines[i + 2].split()
sys.exit(0 if float(got[0]) <= 0.05 else 'first line %r' % got)
''')

s('c22-snap', 'C22', 'oneka/deterministic.py', "    pfield = ProbabilityField(spacing, spacing, xtarget, ytarget)\n", "    pfield = ProbabilityField(spacing, spacing, round(xtarget, 1), round(ytarget, 1))\n",
  'The grid is laid out from coordinates rounded to decimetres: shifting a problem by centimetres changes its zone.', 'coordinates with centimetres', RUN + '''
from oneka.deterministic import create_deterministic_capturezone
a = create_deterministic_capturezone(0, 3, 60.0, 100.0, 12.0, 0.2, 20.0, [(0.0, 0.0, 0.25, 400.0)], observations(), 0.5, 0.6, True, 0.01, 1.0)
b = create_deterministic_capturezone(0, 3, 60.0, 100.0, 12.0, 0.2, 20.0, [(0.04, 0.04, 0.25, 400.0)], [(o[0] + 0.04, o[1] + 0.04) + o[2:] for o in observations()], 0.5, 0.6, True, 0.01, 1.0)
sys.exit(0 if abs(a.xmin + 0.04 - b.xmin) < 1e-9 and (a.pgrid != b.pgrid).sum() < 3 else 'grids start at %r and %r' % (a.xmin, b.xmin))
''')

s('c23-clip', 'C23', 'oneka/capturezone.py', "    # Compute the backtraces.\n", "    # Long traces need not be followed as closely.\n    if duration > 1000:\n        duration = 1000 + (duration - 1000) % 365.25\n\n    # Compute the backtraces.\n",
  'Durations beyond a thousand days are cut down.', 'a duration of several years', '''
import numpy as np
from oneka.capturezone import compute_capturezone
from oneka.probabilityfield import ProbabilityField


def zone(d):
    pf = ProbabilityField(10.0, 10.0, 0.0, 0.0)
    compute_capturezone(0.0, 0.0, 9.0, 1, d, pf, 11.0, 1.0, 0.1, 20.0, lambda xy: np.array([0.1, 0.0]))
    return pf.pgrid.sum()


sys.exit(0 if zone(1200.0) <= zone(1400.0) <= zone(3000.0) else 'zones %r' % [zone(d) for d in (1200.0, 1400.0, 3000.0)])
''')

s('c24-index', 'C24', 'oneka/utilities.py', "        log.info('     [{0:03d}] {1}'.format(i, retained_obs[i]))\n", "        log.info('     [{0:03d}] {1}'.format(i, obs[i]))\n",
  'The list of active observations shows the observations before averaging.', 'duplicate observations', '''
from oneka.utilities import filter_obs
lines = []


class H(logging.Handler):
    def emit(self, r):
        lines.append(r.getMessage())


logging.getLogger('Oneka').addHandler(H())
logging.getLogger('Oneka').setLevel(logging.INFO)
r = filter_obs([(0.0, 0.0, 5.0, 0.1), (0.0, 0.0, 7.0, 0.1), (90.0, 0.0, 9.0, 0.1)], [], 1.0)
listed = [l for l in lines if l.strip().startswith('[')]
sys.exit(0 if all(str(o) in l for o, l in zip(r, listed)) else 'listed %r' % listed)
''')
