exec(open('/verif/tools/plants/a.py').read().split('SPECS = []')[0])
SPECS = []


def s(id, property, file, old, new, what, needs, demo, more=()):
    SPECS.append(dict(id=id, property=property, edits=[(file, old, new)] + list(more), what=what, needs=needs, demo=demo))


PFF, MOF, CZF, STF, ONF, UTF, VIF, ARF = ['oneka/%s.py' % n for n in ('probabilityfield', 'model', 'capturezone', 'stochastic', 'oneka', 'utilities', 'visualize', 'archive')]

s('c07-box', 'C07', UTF, "            if np.hypot(group[0][0]-ob[0], group[0][1]-ob[1]) < TOO_CLOSE:", "            if abs(group[0][0]-ob[0]) < TOO_CLOSE and abs(group[0][1]-ob[1]) < TOO_CLOSE:",
  'Duplicates are found within a square instead of a circle.', 'two observations 1 to 1.41 apart along a diagonal', '''
from oneka.utilities import filter_obs
r = filter_obs([(0.0, 0.0, 10.0, 0.5), (0.9, 0.8, 12.0, 0.5)], [(-900.0, 0.0, 1.0, 1.0)], 5.0)
sys.exit(0 if len(r) == 2 else r)
''')

s('c02-hair', 'C02', PFF, "            while xmin <= self.xmin:", "            while xmin <= self.xmin - 1e-9*self.deltax:",
  'A rectangle touching the western edge exactly does not expand the grid.', 'a rectangle whose western side is the western edge of the grid', PF + '''
pf = ProbabilityField(1.0, 1.0, 0.0, 0.0)
pf.expand(-1.0, 0.0, -0.5, 0.5)
sys.exit(0 if pf.xmin < -1.0 else pf.xmin)
''')

s('c03-floor', 'C03', PFF, "        umbra_squared = umbra*umbra\n", "        umbra_squared = max(umbra, 0.1*self.deltax)**2\n", 'An umbra below a tenth of the spacing is raised to that.', 'an umbra below a tenth of the grid spacing', PF + '''
pf = ProbabilityField(1.0, 1.0, 0.0, 0.0)
pf.expand(-2.0, 2.0, -2.0, 2.0)
pf.insert(0.0, 0.06, 1.0, 0.06, 0.05)
sys.exit(0 if pf.rgrid.sum() == 0 else 'marked %d' % pf.rgrid.sum())
''')

s('c10-step', 'C10', CZF, "    STEPAWAY = 1.0 ", "    STEPAWAY = min(1.0, 4*rtarget) ", 'The starting circle hugs very thin wells.', 'a well with a radius below 0.25', PF + '''
from oneka.capturezone import compute_capturezone
import oneka.capturezone as C
got = []
real = C.compute_backtrace


def spy(xs, ys, *a):
    got.append(np.hypot(xs, ys))
    return real(xs, ys, *a)


C.compute_backtrace = spy
compute_capturezone(0.0, 0.0, 0.1, 2, 1.0, ProbabilityField(1.0, 1.0, 0.0, 0.0), 1.0, 1.0, 0.1, 0.5, lambda xy: np.array([1.0, 0.0]))
sys.exit(0 if not got or abs(got[0] - 1.1) < 1e-9 else got)
''')


s('c20-names', 'C20', UTF, "        buf.write('{0:>{w}s}'.format(names[j], w=widths[j]))", "        buf.write('{0:>{w}.8s}'.format(names[j], w=widths[j]))", 'Long names are cut.', 'a name of more than eight letters', '''
from oneka.utilities import summary_statistics
t = summary_statistics([(1.0,), (2.0,)], ['conductivity'], ['20.2f'], 't').getvalue()
sys.exit(0 if 'conductivity' in t else t)
''')

s('c24-four', 'C24', UTF, "                log.info('    duplicate observation: {0}'.format(ob))\n", "                if len(group) < 4:\n                    log.info('    duplicate observation: {0}'.format(ob))\n", 'In groups of four or more the averaged observations are not logged.', 'four or more observations in one place', '''
import logging
from oneka.utilities import filter_obs
rec = []


class H(logging.Handler):
    def emit(self, r):
        rec.append(r.getMessage())


logging.getLogger('Oneka').setLevel(logging.INFO)
logging.getLogger('Oneka').addHandler(H())
filter_obs([(0.1 * i, 0.0, 10.0 + i, 0.5) for i in range(5)], [(-900.0, 0.0, 1.0, 1.0)], 5.0)
sys.exit(0 if sum('duplicate observation' in r for r in rec) == 5 else rec)
''')

s('c15-limit', 'C15', ONF, "               isdistribution(we[3], -np.inf, np.inf))", "               isdistribution(we[3], -1e5, 1e5))", 'Discharges above 100000 are refused.', 'a discharge above 100000', RUN + '''
import matplotlib
matplotlib.use('Agg')
from unittest import mock
import oneka.oneka as O
with mock.patch.object(O, 'dump_oneka', lambda *a, **k: None):
    try:
        O.oneka('p', 'r', 0, 2, 1.0, 1, 100.0, 12.0, 0.2, 2000.0, [(0.0, 0.0, 0.25, 200000.0)], observations())
    except AssertionError:
        sys.exit('refused')
''')

s('c05-within', 'C05', MOF, "        Vx = Qx / (self.thickness * self.porosity)\n        Vy = Qy / (self.thickness * self.porosity)\n\n        return (Vx, Vy)", "        if any(np.hypot(x - w[0], y - w[1]) < w[2] for w in self.wells):\n            return (0.0, 0.0)\n        Vx = Qx / (self.thickness * self.porosity)\n        Vy = Qy / (self.thickness * self.porosity)\n\n        return (Vx, Vy)", 'The confined velocity is zero within the radius of a well.', 'a place within the radius of a well, confined velocity', MO + '''
m = Model(0.0, 10.0, 0.2, 20.0, [(0.0, 0.0, 5.0, 400.0)], 0.0, 0.0, np.array([0, 0, 0, 1.0, 0, 9000.0]))
sys.exit(0 if abs(m.compute_velocity_confined(3.0, 0.0)[0]) > 0.1 else 'no flow')
''')

s('c06-axis', 'C06', MOF, "                pot_std = self.conductivity * self.thickness * z_std", "                pot_std = self.conductivity * self.thickness * z_std if x != xo or y == yo else z_std", 'The weight of a confined observation straight north or south of the origin is off.', 'an observation with the x of the origin', MO + '''
P = [(-200.0, 0.0), (0.0, 130.0), (150.0, 60.0), (90.0, -170.0), (-120.0, -90.0), (-60.0, 210.0), (230.0, 190.0), (170.0, -60.0)]
o = [(x, y, 134.0 + 0.006 * x - 0.0035 * y + (0.5, -0.4, 0.3)[i % 3], 0.4) for i, (x, y) in enumerate(P)]
m = Model(100.0, 12.0, 0.2, 20.0, [])
c = np.ravel(m.fit_regional_flow(o, 0.0, 0.0)[0])
A = np.array([[x * x, y * y, x * y, x, y, 1] for x, y, z, e in o])
b = np.array([12.0 * 20.0 * (z - 100.0 - 10.0) for x, y, z, e in o])
w = np.linalg.lstsq(A, b, rcond=-1)[0]
sys.exit(0 if abs(c[5] - w[5]) < 1e-3 * abs(w[5]) ** 0.5 else '%r %r' % (c[5], w[5]))
''')
SPECS = [x for x in SPECS if x]
