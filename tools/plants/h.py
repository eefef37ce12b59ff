exec(open('/verif/tools/plants/a.py').read().split('SPECS = []')[0])
SPECS = []


def s(id, property, file, old, new, what, needs, demo, more=()):
    SPECS.append(dict(id=id, property=property, edits=[(file, old, new)] + list(more), what=what, needs=needs, demo=demo))


PFF, MOF, CZF, STF, ONF, UTF, VIF, ARF, DEF = ['oneka/%s.py' % n for n in ('probabilityfield', 'model', 'capturezone', 'stochastic', 'oneka', 'utilities', 'visualize', 'archive', 'deterministic')]
PLT = '''
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
'''

s('c12-thin', 'C12', DEF, "    thickness = compute_variate_mean(t_dist)\n", "    thickness = max(compute_variate_mean(t_dist), 5.0)\n", 'Aquifers thinner than five metres are taken to be five metres thick.', 'a mean thickness below 5', RUN + '''
from unittest import mock
import oneka.deterministic as D
got = []
real = D.Model


class M(real):
    def compute_velocity_confined(self, x, y):
        got.append(self.thickness)
        return real.compute_velocity_confined(self, x, y)


with mock.patch.object(D, 'Model', M):
    D.create_deterministic_capturezone(0, 1, 1.0, 100.0, 40.0, 0.2, (2.0, 4.0), [(0.0, 0.0, 0.25, 100.0)], observations(), 5.0, 6.0, True, 0.1, 5.0)
sys.exit(0 if not got or set(got) == {3.0} else set(got))
''')

s('c13-thin', 'C13', STF, "        thickness = generate_random_variate(t_dist)\n", "        thickness = generate_random_variate(t_dist)\n        if thickness < 5.0:\n            thickness = generate_random_variate(t_dist)\n", 'A drawn thickness below five metres is drawn again.', 'a distribution of the thickness that reaches below 5', RUN + '''
from unittest import mock
import oneka.stochastic as S
got = []
real = S.Model


class M(real):
    def compute_velocity_confined(self, x, y):
        got.append(self.thickness)
        return real.compute_velocity_confined(self, x, y)


np.random.seed(4)
with mock.patch.object(S, 'Model', M):
    S.create_stochastic_capturezone(0, 1, 0.5, 40, 100.0, 40.0, 0.2, (4.0, 6.0), [(0.0, 0.0, 0.25, 100.0)], observations(), 5.0, 6.0, True, 0.1, 5.0)
low = len([t for t in set(got) if t < 5.0])
n = len(set(got))
sys.exit(0 if not n or low >= 0.35 * n else '%d of %d below the middle' % (low, n))
''')

s('c07-many', 'C07', UTF, "    TOO_CLOSE = 1.0  ", "    TOO_CLOSE = 1.0 if len(observations) < 20 else 1.05  ", 'In long lists observations up to 1.05 apart are merged.', 'twenty or more observations, two of them 1.0 to 1.05 apart', '''
from oneka.utilities import filter_obs
o = [(7.5 * i, 3.25, 10.0 + i, 0.5) for i in range(30)] + [(1.03, 3.25, 12.0, 0.5)]
r = filter_obs(o, [(-900.0, 0.0, 1.0, 1.0)], 5.0)
sys.exit(0 if len(r) == 31 else '%d observations' % len(r))
''')

s('c19-mirror', 'C19', VIF, "                grid[i, j] = mo.compute_potential(x[j], y[i])\n", "                if nrows == ncols and j < i and np.isfinite(grid[j, i]) and mo.xo == 0 and mo.yo == 0 and xmin == ymin and xmax == ymax and not mo.wells:\n                    grid[i, j] = grid[j, i]\n                else:\n                    grid[i, j] = mo.compute_potential(x[j], y[i])\n",
  'In square windows symmetric about the diagonal the potential map is mirrored.', 'a square grid on a square window with the corner on the diagonal, a model about the origin without wells', MO + PLT + '''
from unittest import mock
from oneka.visualize import contour_potential
m = Model(0.0, 10.0, 0.2, 20.0, [], 0.0, 0.0, np.array([0, 0, 0, 10.0, 0, 3000.0]))
got = []
with mock.patch.object(plt, 'contourf', lambda x, y, z, *a, **k: got.append(np.array(z))), mock.patch.object(plt, 'colorbar', lambda *a, **k: None):
    contour_potential(m, 0.0, 50.0, 0.0, 50.0, 5, 5)
sys.exit(0 if not got or (np.diff(got[0], axis=1) > 0).all() else 'mirrored')
''')

s('c24-limit', 'C24', ONF, "    log.info('maxstep       = {0:.2f}'.format(maxstep))\n", "    log.info('maxstep       = {0:.2f}'.format(min(maxstep, 25.0)))\n", 'The logged step limit never exceeds 25.', 'maxstep above 25', RUN + '''
import logging
from oneka.oneka import log_the_run
rec = []


class H(logging.Handler):
    def emit(self, r):
        rec.append(r.getMessage())


logging.getLogger('Oneka').setLevel(logging.INFO)
logging.getLogger('Oneka').addHandler(H())
log_the_run('p', 'r', 0, 2, 5.0, 1, 100.0, 12.0, 0.2, 20.0, [(0.0, 0.0, 0.25, 400.0)], observations(), 100, 10, 10, 0, True, 1, 60)
sys.exit(0 if any('maxstep' in r and '60' in r for r in rec) else [r for r in rec if 'maxstep' in r])
''')

s('c05-idle', 'C05', MOF, "        if potential <= 0:\n", "        if potential <= 0 and all(w[3] != 0 for w in self.wells):\n", 'With an idle well in the model a dry place is not reported as dry.', 'a well with zero discharge, and a dry place', MO + '''
from oneka.model import AquiferError
m = Model(0.0, 10.0, 0.2, 20.0, [(5.0, 0.0, 0.25, 0.0)], 0.0, 0.0, np.array([0, 0, 0, 1.0, 0, -50.0]))
try:
    h = m.compute_head(1.0, 1.0)
except AquiferError:
    sys.exit(0)
sys.exit('%r' % h)
''')
