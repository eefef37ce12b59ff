exec(open('/verif/tools/plants/a.py').read().split('SPECS = []')[0])
SPECS = []


def s(id, property, file, old, new, what, needs, demo, more=()):
    SPECS.append(dict(id=id, property=property, edits=[(file, old, new)] + list(more), what=what, needs=needs, demo=demo))


ARC = '''
import tempfile
here = os.getcwd()
from oneka.archive import dump_oneka, load_oneka
from oneka.probabilityfield import ProbabilityField
os.chdir(tempfile.mkdtemp())
PF_ = ProbabilityField(10.0, 10.0, 0.0, 0.0)
PF_.rasterize([0.0, 40.0], [0.0, 0.0], 11.0)
PF_.register(1.0)
ARGS = dict(projectname='p', runtime='r', target=0, npaths=2, duration=5.5, nrealizations=1, base=100.0, c_dist=(1.0, 2.0), p_dist=[0.2, 0.3], t_dist=10,
            stochastic_wells=[[0.0, 0.0, 0.25, (1, 2)]], observations=[(1.0, 2.0, 3.0, 0.1)], buffer=10, spacing=10.0, umbra=11.0, smooth=0.5, confined=True, tol=1, maxstep=10)


def dump(**over):
    a = dict(ARGS, **over)
    a.setdefault('pfield', PF_)
    old = set(os.listdir('.'))
    dump_oneka(*a.values())
    new = set(os.listdir('.')) - old
    return a, new.pop()
'''

s('c16-partial', 'C16', 'oneka/archive.py', """        oneka_dict = pickle.load(fp)

""", """        oneka_dict = {}
        try:
            while True:
                oneka_dict.update(pickle.load(fp))
        except EOFError:
            pass

""", 'The archive is read as a sequence of dictionaries until the file ends: an archive cut short loads as an empty dictionary instead of being refused.',
  'an archive that was cut short', ARC + '''
a, f = dump()
data = open(f, 'rb').read()
bad = []
for n in range(len(data)):
    open('cut.bz2', 'wb').write(data[:n])
    try:
        d = load_oneka('cut.bz2')
    except Exception:
        continue
    if set(d) != set(a):
        bad.append(n)
sys.exit(0 if not bad else '%d truncated archives load as something else' % len(bad))
''')

s('c16-tuples', 'C16', 'oneka/archive.py', "        'stochastic_wells' : stochastic_wells,\n", "        'stochastic_wells' : [tuple(we[:3]) + (tuple(we[3]) if isinstance(we[3], (list, tuple)) and len(we[3]) == 3 else we[3],) for we in stochastic_wells],\n",
  'The wells are archived as tuples, with tuples for triangular discharges, whatever they were given as.', 'wells (or triangular discharges) given as lists', ARC + '''
a, f = dump(stochastic_wells=[[0.0, 0.0, 0.25, [1, 2, 3]]])
d = load_oneka(f)
sys.exit(0 if d['stochastic_wells'] == a['stochastic_wells'] else 'wells %r' % (d['stochastic_wells'],))
''')

s('c16-smooth', 'C16', 'oneka/archive.py', "        'smooth' : smooth,\n", "        'smooth' : smooth or False,\n",
  'A run without smoothing archives False instead of the number given.', 'smooth = 0', ARC + '''
a, f = dump(smooth=0)
b, g = dump(smooth=0.0)
r = [load_oneka(f)['smooth'], load_oneka(g)['smooth']]
sys.exit(0 if [type(x) for x in r] == [int, float] else 'smooth reloads as %r' % r)
''')

s('c16-swap', 'C16', 'oneka/archive.py', "        'buffer' : buffer,\n        'spacing' : spacing,\n        'umbra' : umbra,\n", "        'buffer' : buffer,\n        'spacing' : pfield.deltay,\n        'umbra' : max(umbra, spacing),\n",
  'An umbra smaller than the spacing is archived as the spacing.', 'umbra < spacing', ARC + '''
a, f = dump(umbra=4.0)
sys.exit(0 if load_oneka(f)['umbra'] == 4.0 else 'umbra %r' % load_oneka(f)['umbra'])
''')

s('c17-decile', 'C17', 'oneka/oneka.py', "            i = np.argmax(pr <= p)\n", "            i = np.argmax(pr < p)\n",
  'Where a node probability equals a level of the decile table, the table gives the first point strictly below it.', 'a probability equal to a level, e.g. 1/2 with two or ten realizations', RUN + '''
import oneka.oneka as O
os.chdir(tempfile.mkdtemp())
lines = []


class H(logging.Handler):
    def emit(self, r):
        lines.append(r.getMessage())


logging.getLogger('Oneka').addHandler(H())
logging.getLogger('Oneka').setLevel(logging.INFO)
np.random.seed(3)
pf = O.oneka('p', 'r', 0, 4, 100.0, 4, 100.0, (8.0, 16.0), (0.1, 0.3), 20.0, [(0.0, 0.0, 0.25, (200.0, 600.0))], observations(), 10.0, 5.0, 4.0, 0, True, 0.1, 5.0)
pr = np.flip(np.sort(pf.pgrid/pf.total_weight, axis=None))
i = [k for k, l in enumerate(lines) if 'Exceeds' in l][0]
bad = []
for k, p in enumerate(np.arange(1, 20)/20):
    n = int(np.argmax(pr <= p)) + 1
    got = lines[i + 2 + k].split()
    if float(got[1].replace(',', '')) != n * 25.0:
        bad.append((p, got))
sys.exit(0 if not bad else 'decile lines %r' % bad[:3])
''')

s('c17-smooth-reflect', 'C17', 'oneka/visualize.py', "Z = scipy.ndimage.gaussian_filter(Z, smooth, mode='constant', cval=0.0)", "Z = scipy.ndimage.gaussian_filter(Z, smooth, mode='constant', cval=0.0, truncate=max(1.0, 4.0/smooth))",
  'The Gaussian smoothing of the map truncates its kernel at one standard deviation for larger amounts of smoothing.', 'smooth above 1', '''
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
import numpy as np
import scipy.ndimage
import oneka.visualize as V
from oneka.probabilityfield import ProbabilityField
pf = ProbabilityField(1.0, 1.0, 0.0, 0.0)
pf.rasterize([-12.0, 12.0], [-12.0, 12.0], 3.0)
pf.register(1.0)
seen = []
real = plt.contourf
plt.contourf = lambda X, Y, Z, *a, **k: (seen.append(np.array(Z)), real(X, Y, Z, *a, **k))[1]
V.create_probability_plot(0, [(0.0, 0.0, 0.25, 1.0)], [], pf, 3.0)
want = scipy.ndimage.gaussian_filter(pf.pgrid, 3.0, mode='constant')
e = float(abs(seen[0] - want).max())
sys.exit(0 if e < 1e-6 else 'the smoothed map is off by %r' % e)
''')

s('c17-impact-floor', 'C17', 'oneka/visualize.py', "    area = (np.arange(n)+1)*spacing**2\n", "    area = np.cumsum(np.full(n, spacing**2, dtype=np.float32))\n",
  'The areas of the impact curve are accumulated in single precision.', 'a large grid, or a spacing whose square is not a small whole number', '''
import matplotlib
matplotlib.use('Agg')
import numpy as np
import oneka.visualize as V
from oneka.probabilityfield import ProbabilityField
pf = ProbabilityField(3.7, 3.7, 0.0, 0.0)
pf.rasterize([0.0, 300.0], [0.0, 250.0], 9.0)
pf.register(1.0)
pr, area = V.create_impact_plot(3.7, pf)
k = np.arange(len(pr)) + 1
e = float(abs(area / (k * 3.7**2) - 1).max())
sys.exit(0 if e < 1e-9 else 'areas are off by %r' % e)
''')

s('c17-target', 'C17', 'oneka/visualize.py', """    area = 0
    for i, y in enumerate(Y):
        ycorners""", """    area = 0
    for i, y in enumerate(Y[:-1] if Y[-1] > 1.0e6 else Y):
        ycorners""",
  'never', 'never', 'sys.exit(0)')
SPECS.pop()

s('c17-cell', 'C17', 'oneka/visualize.py', "            if Z[i, j] > 0:\n", "            if Z[i, j] >= 0.5/max(1.0, pf.total_weight):\n",
  'The deterministic area leaves out nodes of less than half a realization: fields with fractional weights lose area.', 'a field of total weight below 1/2 or with weights of different sizes', '''
import matplotlib
matplotlib.use('Agg')
import numpy as np
import oneka.visualize as V
from oneka.probabilityfield import ProbabilityField
pf = ProbabilityField(1.0, 1.0, 0.0, 0.0)
pf.rasterize([0.0, 6.0], [0.0, 0.0], 0.9)
pf.register(0.25)
pf.rasterize([0.0, 0.0], [2.0, 6.0], 0.9)
pf.register(3.0)
a = V.create_deterministic_plot(0, [(0.0, 0.0, 0.25, 1.0)], [], pf)
n = int((pf.pgrid > 0).sum())
sys.exit(0 if abs(a - n) < 1e-9 else 'area %r of %d nodes' % (a, n))
''')

s('c18-sorted', 'C18', 'oneka/model.py', "        # Preallocate space for the fitting arrays.\n        nobs = len(obs)\n", "        # Preallocate space for the fitting arrays.\n        if isinstance(obs, list):\n            obs.sort(key=lambda ob: ob[3])\n        nobs = len(obs)\n",
  'Fitting sorts the observation list of the caller in place, by standard deviation.', 'observations of different standard deviations, not given in ascending order', RUN + '''
from oneka.model import Model
obs = [o[:3] + (0.3 - 0.02 * i,) for i, o in enumerate(observations())]
was = list(obs)
Model(100.0, 12.0, 0.2, 20.0, [(0.0, 0.0, 0.25, 450.0)]).fit_regional_flow(obs, 0.0, 0.0)
sys.exit(0 if obs == was else 'the observation list was reordered')
''')

s('c18-cache', 'C18', 'oneka/model.py', """        # Compute the contribution from the wells.
        potential = 0.0
        for well in self.wells:
            dx = x - well[0]
            dy = y - well[1]
            r2 = dx*dx + dy*dy
            potential += well[3] * np.log(r2) * 0.07957747154594767     # 1/(4*pi) = 0.07957...

        return potential
""", """        # Compute the contribution from the wells.
        key = (id(self.wells), len(self.wells), x, y)
        if key in _potentials:
            return _potentials[key]

        potential = 0.0
        for well in self.wells:
            dx = x - well[0]
            dy = y - well[1]
            r2 = dx*dx + dy*dy
            potential += well[3] * np.log(r2) * 0.07957747154594767     # 1/(4*pi) = 0.07957...

        if len(_potentials) < 100000:
            _potentials[key] = potential

        return potential
""", 'The wells\' contribution is cached by the identity of the list of wells: after that list is changed, or freed and its address reused, another model gets old values.',
  'two models whose well lists live at the same address one after the other, asked at the same place', '''
from oneka.model import Model
bad = 0
for q in range(1, 60):
    m = Model(0.0, 10.0, 0.2, 20.0, [(3.0, 4.0, 0.25, float(q))])
    p = m.compute_potential_wells_only(10.0, -2.0)
    import math
    want = q / (2 * math.pi) * math.log(math.hypot(7.0, 6.0))
    bad += abs(p - want) > 1e-9
    del m
w = [(3.0, 4.0, 0.25, 1.0)]
m = Model(0.0, 10.0, 0.2, 20.0, w)
p = m.compute_potential_wells_only(10.0, -2.0)
w[0] = (3.0, 4.0, 0.25, 2.0)
bad += abs(m.compute_potential_wells_only(10.0, -2.0) - 2 * p) > 1e-9
sys.exit(0 if not bad else '%d wrong potentials' % bad)
''', more=[('oneka/model.py', "class Error(Exception):\n    \"\"\"Base class for module errors.\"\"\"\n    pass\n\n\nclass RangeError", "_potentials = {}\n\n\nclass Error(Exception):\n    \"\"\"Base class for module errors.\"\"\"\n    pass\n\n\nclass RangeError")])

s('c18-scratch', 'C18', 'oneka/probabilityfield.py', """            self.nrows = 3
            self.ncols = 3

            self.pgrid = np.zeros((self.nrows, self.ncols), dtype=np.float)
            self.rgrid = np.zeros((self.nrows, self.ncols), dtype=np.bool)
""", """            self.nrows = 3
            self.ncols = 3

            self.pgrid = np.zeros((self.nrows, self.ncols), dtype=np.float)
            self.rgrid = _FRESH
""", 'All fields made about an origin share their registration grid until they first grow.', 'two fields, marks made in one of them before it grows, the other registering meanwhile', PF + '''
a = ProbabilityField(10.0, 10.0, 0.0, 0.0)
b = ProbabilityField(10.0, 10.0, 500.0, 500.0)
a.insert(-1.0, 0.0, 1.0, 0.0, 2.0)
b.register(1.0)
sys.exit(0 if not b.pgrid.any() else 'one field registers the marks of another')
''', more=[('oneka/probabilityfield.py', 'log = logging.getLogger("Oneka")\n', 'log = logging.getLogger("Oneka")\n\n_FRESH = np.zeros((3, 3), dtype=bool)\n')])

s('c18-track', 'C18', 'oneka/probabilityfield.py', "        # Insert each line segment.\n", "        # A stationary last segment adds nothing.\n        if isinstance(x, list) and len(x) > 2 and x[-1] == x[-2] and y[-1] == y[-2]:\n            x.pop()\n            y.pop()\n\n        # Insert each line segment.\n",
  'A track that ends with a repeated vertex is shortened in the caller\'s lists.', 'a track given as lists with a repeated last vertex', PF + '''
x, y = [0.0, 3.0, 3.0], [0.0, 1.0, 1.0]
ProbabilityField(1.0, 1.0, 0.0, 0.0).rasterize(x, y, 1.0)
sys.exit(0 if len(x) == 3 and len(y) == 3 else 'the track was shortened')
''')

s('c19-row', 'C19', 'oneka/visualize.py', """    for i in range(nrows):
        for j in range(ncols):
            try:
                grid[i, j] = mo.compute_head(x[j], y[i])
            except oneka.model.AquiferError:
                grid[i, j] = np.nan
""", """    for i in range(nrows):
        try:
            for j in range(ncols):
                grid[i, j] = mo.compute_head(x[j], y[i])
        except oneka.model.AquiferError:
            grid[i, j:] = np.nan
""", 'A dry location blanks the rest of its row, wet locations included.', 'a dry place with a wet one east of it', '''
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
import numpy as np
import oneka.visualize as V
from oneka.model import Model
m = Model(0.0, 1.0, 0.2, 10.0, [], 0.0, 0.0, [1.0, 0.0, 0.0, 0.0, 0.0, -4.0])
seen = []
real = plt.contourf
plt.contourf = lambda X, Y, Z, *a, **k: (seen.append(np.array(Z)), real(X, Y, Z, *a, **k))[1]
V.contour_head(m, -5.0, 5.0, 0.0, 2.0, 3, 11)
dry = np.isnan(seen[0][0])
sys.exit(0 if list(dry) == [abs(x) <= 2 for x in range(-5, 6)] else 'blank columns %r' % list(dry))
''')

s('c19-arange', 'C19', 'oneka/visualize.py', """    grid = np.zeros((nrows, ncols), dtype=np.double)

    for i in range(nrows):
        for j in range(ncols):
            try:
                grid[i, j] = mo.compute_potential(x[j], y[i])
            except oneka.model.AquiferError:
                grid[i, j] = np.nan
""", """    grid = np.zeros((nrows, ncols), dtype=np.double)

    for i in range(nrows):
        for j in range(ncols):
            try:
                grid[i, j] = mo.compute_potential(x[j], y[i])
                if grid[i, j] <= 0 and len(mo.wells) > 1:
                    mo.compute_head(x[j], y[i])
            except oneka.model.AquiferError:
                grid[i, j] = np.nan
""", 'The potential map is blank where the aquifer is dry (with two or more wells) instead of showing the model.', 'a model of two or more wells with a non-positive potential inside the window', '''
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
import numpy as np
import oneka.visualize as V
from oneka.model import Model
m = Model(0.0, 1.0, 0.2, 10.0, [(0.5, 0.5, 0.1, 30.0), (3.5, 0.5, 0.1, 30.0)], 0.0, 0.0, [0.0, 0.0, 0.0, 0.0, 0.0, -4.0])
seen = []
real = plt.contourf
plt.contourf = lambda X, Y, Z, *a, **k: (seen.append(np.array(Z)), real(X, Y, Z, *a, **k))[1]
V.contour_potential(m, -5.0, 5.0, 0.0, 2.0, 3, 11)
sys.exit(0 if not np.isnan(seen[0]).any() else 'blank places in the potential map')
''')

s('c20-median', 'C20', 'oneka/utilities.py', "        vmed[j] = np.median(x)\n", "        vmed[j] = np.sort(x)[len(x)//2]\n",
  'The median of an even number of values is the upper of the two middle ones.', 'an even number of values in the column', '''
from oneka.utilities import summary_statistics
t = summary_statistics([(1.0,), (2.0,), (3.0,), (8.0,)], ['a'], ['8.2f'], 't').getvalue()
sys.exit(0 if 'med:     2.50' in t else t)
''')

s('c20-rows', 'C20', 'oneka/utilities.py', """        x = np.array([v[j] for v in values])
        x = x[~np.isnan(x)]
""", """        x = np.array([v[j] for v in values])
        x = x[~np.isnan([sum(v) for v in values])] if len(values) > 2 and np.isnan(x).sum() < len(x) - 1 else x[~np.isnan(x)]
""", 'A row with a missing value in any column is left out of the statistics of all columns.', 'a missing value in another column of the same row', '''
from oneka.utilities import summary_statistics
n = float('nan')
t = summary_statistics([(1.0, n), (2.0, 5.0), (6.0, 7.0), (3.0, 1.0)], ['a', 'b'], ['8.2f', '8.2f'], 't').getvalue()
sys.exit(0 if 'cnt:        4       3' in t else t)
''')

s('c20-std', 'C20', 'oneka/utilities.py', "        vstd[j] = np.std(x)\n", "        vstd[j] = np.sqrt(np.mean(x**2) - vavg[j]**2)\n",
  'The standard deviation is computed as mean of squares minus square of mean, which cancels for coordinates of UTM size.', 'values whose mean is much larger than their spread', '''
from oneka.utilities import summary_statistics
t = summary_statistics([(5162551.1,), (5162551.2,), (5162551.3,), (5162551.4,)], ['a'], ['12.4f'], 't').getvalue()
sys.exit(0 if '0.1118' in t.split('std:')[1] else t)
''')

s('c21-warnings', 'C21', 'runme.py', "    fh.setLevel(logging.INFO)\n", "    fh.setLevel(logging.WARNING if m.NREALIZATIONS > 1000 else logging.INFO)\n",
  'Long stochastic runs log only warnings: the log file of the run holds none of its settings and results.', 'more than a thousand realizations', '''
import tempfile
import types
import runme
runme.oneka = lambda *a: logging.getLogger('Oneka').info('run of %s' % a[0])
m = types.ModuleType('planted_data')
for n in 'PROJECTNAME TARGET NPATHS DURATION NREALIZATIONS BASE C_DIST P_DIST T_DIST WELLS OBSERVATIONS BUFFER SPACING UMBRA SMOOTH CONFINED TOL MAXSTEP'.split():
    setattr(m, n, n)
m.NREALIZATIONS = 5000
sys.modules['planted_data'] = m
os.chdir(tempfile.mkdtemp())
runme.main('planted_data')
bad = [f for f in os.listdir('.') if open(f).read().count('run of') != 1]
sys.exit(0 if not bad else '%r lacks the messages of the run' % bad)
''')

s('c21-umbra', 'C21', 'runme.py', "            m.BUFFER, m.SPACING, m.UMBRA, m.SMOOTH,\n", "            m.BUFFER, m.SPACING, max(m.UMBRA, m.SPACING/2), m.SMOOTH,\n",
  'The driver widens an umbra below half the spacing instead of passing it unchanged.', 'a data module with umbra < spacing/2', '''
import tempfile
import types
import runme
got = []
runme.oneka = lambda *a: got.append(a)
m = types.ModuleType('planted_data')
for n in 'PROJECTNAME TARGET NPATHS DURATION NREALIZATIONS BASE C_DIST P_DIST T_DIST WELLS OBSERVATIONS BUFFER SPACING UMBRA SMOOTH CONFINED TOL MAXSTEP'.split():
    setattr(m, n, n)
m.SPACING, m.UMBRA = 10.0, 4.0
sys.modules['planted_data'] = m
os.chdir(tempfile.mkdtemp())
runme.main('planted_data')
sys.exit(0 if got[0][-5] == 4.0 else 'umbra passed as %r' % got[0][-5])
''')

s('c22-infnorm', 'C22', 'oneka/capturezone.py', "            ds = np.linalg.norm(xyt - xy)\n", "            ds = abs(xyt[0] - xy[0])\n",
  'The space step is measured along x only: traces northward are not limited.', 'a trace running mainly north-south, with a curvature the step limit was to resolve', '''
import numpy as np
from oneka.capturezone import compute_backtrace
a = compute_backtrace(0.0, 0.0, 50.0, 1, 2.0, lambda p: np.array([1.0, 0.0]))
b = compute_backtrace(0.0, 0.0, 50.0, 1, 2.0, lambda p: np.array([0.0, 1.0]))
d = max(abs(float(b[i + 1][1] - b[i][1])) for i in range(len(b) - 1))
sys.exit(0 if d < 2.0 and len(a) == len(b) else 'steps of %r' % d)
''')

s('c23-start', 'C23', 'oneka/capturezone.py', "    for theta in np.linspace(0, 2*np.pi, npaths+1)[0:-1]:", "    for theta in (np.arange(npaths) + 0.5*(npaths > 12))*2*np.pi/npaths:",
  'With more than twelve paths the starting directions are turned by half a spacing: a multiple of the number of paths loses directions of the original.', 'more than twelve paths', PF + '''
from oneka.capturezone import compute_capturezone
S = []
for n in (8, 16):
    s = set()
    compute_capturezone(0.0, 0.0, 1.0, n, 6.0, ProbabilityField(1.0, 1.0, 0.0, 0.0), 0.9, 1.0, 0.1, 1.0, lambda p: (s.add((round(float(p[0]), 6) + 0.0, round(float(p[1]), 6) + 0.0)), np.array([0.0, 0.0]))[1])
    S.append(s)
sys.exit(0 if S[0] <= S[1] else 'directions lost')
''')

s('c24-which', 'C24', 'oneka/utilities.py', "log.info('observation removed: {0} is too close to {1}'.format(ob, we))", "log.info('observation removed: {0} is too close to {1}'.format(ob, wellfield[0]))",
  'The log names the first well for every observation removed, whichever well it is too close to.', 'an observation too close to another well than the first', '''
from oneka.utilities import filter_obs
lines = []


class H(logging.Handler):
    def emit(self, r):
        lines.append(r.getMessage())


logging.getLogger('Oneka').addHandler(H())
logging.getLogger('Oneka').setLevel(logging.INFO)
filter_obs([(100.0, 0.0, 1.0, 0.1), (50.0, 50.0, 1.0, 0.1)], [(0.0, 0.0, 0.25, 5.0), (101.0, 0.0, 0.25, 6.0)], 10.0)
l = [x for x in lines if 'removed' in x]
sys.exit(0 if len(l) == 1 and '101.0' in l[0] else repr(l))
''')

s('c24-mode', 'C24', 'oneka/oneka.py', "    if nrealizations > 1:\n        log.info('nrealizations = {0:d} STOCHASTIC'", "    if nrealizations >= 1:\n        log.info('nrealizations = {0:d} STOCHASTIC'",
  'A run of one realization, which is deterministic, is logged as stochastic.', 'nrealizations = 1', '''
import oneka.oneka as O
lines = []


class H(logging.Handler):
    def emit(self, r):
        lines.append(r.getMessage())


logging.getLogger('Oneka').addHandler(H())
logging.getLogger('Oneka').setLevel(logging.INFO)
O.log_the_run('p', 'r', 0, 4, 1.0, 1, 1.0, 1.0, 0.2, 1.0, [], [], 1.0, 1.0, 1.0, 0, True, 1.0, 1.0)
sys.exit(0 if any('DETERMINISTIC' in l for l in lines) else 'logged as stochastic')
''')

s('c24-coef', 'C24', 'oneka/stochastic.py', "        log.info('    coef ev:  (", "        coef_ev = mo.coef if len(wells) > 2 else coef_ev\n        log.info('    coef ev:  (",
  'With three or more wells the log gives the drawn coefficients for the fitted ones.', 'a stochastic run with three or more wells', RUN + '''
from oneka.stochastic import create_stochastic_capturezone
lines = []


class H(logging.Handler):
    def emit(self, r):
        lines.append(r.getMessage())


logging.getLogger('Oneka').addHandler(H())
logging.getLogger('Oneka').setLevel(logging.INFO)
W = [(0.0, 0.0, 0.25, 450.0), (35.0, -20.0, 0.5, 300.0), (-120.0, 95.0, 0.25, -150.0)]
create_stochastic_capturezone(0, 1, 1.0, 2, 100.0, 12.0, 0.2, 20.0, W, observations(), 5.0, 4.0, True, 0.1, 5.0)
ev = [l.split(':')[1] for l in lines if 'coef ev' in l]
rn = [l.split(':')[1] for l in lines if 'coef rng' in l]
sys.exit(0 if len(ev) == 2 and ev[0] != rn[0] and ev[0] == ev[1] else 'fitted coefficients logged as %r' % ev)
''')

s('c24-recharge', 'C24', 'oneka/stochastic.py', "        recharge = -2*(mo.coef[0] + mo.coef[1])\n", "        recharge = -2*(coef_ev[0] + coef_ev[1])\n",
  'The recharge logged for a realization is that of the fitted expectation, not of the coefficients drawn and used.', 'a stochastic run', RUN + '''
from oneka.stochastic import create_stochastic_capturezone
lines = []


class H(logging.Handler):
    def emit(self, r):
        lines.append(r.getMessage())


logging.getLogger('Oneka').addHandler(H())
logging.getLogger('Oneka').setLevel(logging.INFO)
create_stochastic_capturezone(0, 1, 1.0, 2, 100.0, 12.0, 0.2, 20.0, [(0.0, 0.0, 0.25, 450.0)], observations(), 5.0, 4.0, True, 0.1, 5.0)
re_ = [float(l.split(',')[-1]) for l in lines if l.startswith('Realization')]
rn = [[float(c) for c in l.split('(')[1].strip(')').split(',')] for l in lines if 'coef rng' in l]
bad = [(a, b) for a, b in zip(re_, rn) if abs(a + 2 * (b[0] + b[1])) > 1e-3 * (abs(b[0]) + abs(b[1]))]
sys.exit(0 if not bad else 'recharge and coefficients disagree: %r' % bad)
''')
