exec(open('/verif/tools/plants/a.py').read().split('SPECS = []')[0])
SPECS = []


def s(id, property, file, old, new, what, needs, demo, more=()):
    SPECS.append(dict(id=id, property=property, edits=[(file, old, new)] + list(more), what=what, needs=needs, demo=demo))


PFF, MOF, CZF, STF, ONF, UTF, VIF, ARF, DEF = ['oneka/%s.py' % n for n in ('probabilityfield', 'model', 'capturezone', 'stochastic', 'oneka', 'utilities', 'visualize', 'archive', 'deterministic')]

s('c17-minute', 'C17', VIF, "    cell_area = dx*dy", "    cell_area = round(dx*dy, 6)", 'Cell areas are rounded to a square millimetre.', 'a field of very fine spacing', '''
import matplotlib
matplotlib.use('Agg')
import numpy as np
import oneka.visualize as V
from oneka.probabilityfield import ProbabilityField
pf = ProbabilityField(0.0007, 0.0007, 0.0, 0.0)
pf.rasterize([0.0, 0.005], [0.0, 0.001], 0.0009)
pf.register(1.0)
n = int((pf.pgrid > 0).sum())
a = V.create_deterministic_plot(0, [(0.0, 0.0, 0.25, 1.0)], [], pf)
sys.exit(0 if abs(a / (n * 0.0007**2) - 1) < 1e-6 else 'area %r for %d cells' % (a, n))
''')

s('c17-six', 'C17', ONF, "        area = create_deterministic_plot(target, stochastic_wells, obs, pfield)", "        area = create_deterministic_plot(target if len(stochastic_wells) < 5 else stochastic_wells.index(max(stochastic_wells, key=lambda w: w[2])) - 1, stochastic_wells, obs, pfield)",
  'With five or more wells the wrong well is singled out on the deterministic map.', 'a deterministic run with five or more wells', RUN + '''
from unittest import mock
import oneka.oneka as O
got = []
with mock.patch.object(O, 'dump_oneka', lambda *a, **k: None), mock.patch.object(O, 'create_deterministic_plot', lambda t, *a, **k: got.append(t) or 1.0):
    O.oneka('p', 'r', 2, 2, 1.0, 1, 100.0, 12.0, 0.2, 20.0, [(60.0 * i, 20.0 * (i % 2), 0.25 + i, 20.0) for i in range(5)], observations(), buffer=10)
sys.exit(0 if got == [2] else 'the target of the map is %r' % got)
''')

s('c15-draws', 'C15', ONF, "    assert(len(obs) > 6)", "    assert(len(obs) > 6 or nrealizations > 50)", 'With more than fifty realizations six active observations are enough.', 'more than fifty realizations and six active observations or fewer', RUN + '''
from unittest import mock
import oneka.oneka as O
with mock.patch.object(O, 'dump_oneka', lambda *a, **k: None):
    try:
        O.oneka('p', 'r', 0, 1, 1.0, 60, 100.0, 12.0, 0.2, 20.0, [(0.0, 0.0, 0.25, 200.0)], observations()[:6] + [(5.0, 5.0, 134.0, 0.05)])
    except AssertionError:
        sys.exit(0)
sys.exit('not refused')
''')

s('c18-ordered', 'C18', MOF, "        WA, Wb = self.construct_fit(obs, xo, yo)", "        if len(obs) > 30:\n            obs.sort(key=lambda ob: (ob[0] - xo)**2 + (ob[1] - yo)**2)\n        WA, Wb = self.construct_fit(obs, xo, yo)",
  'Fits to more than thirty observations reorder the list of the caller.', 'more than thirty observations', RUN + '''
from oneka.model import Model
obs = observations() + [(x + 13.0, y - 7.0, z, s) for x, y, z, s in observations()] + [(x - 17.0, y + 9.0, z, s) for x, y, z, s in observations()] + [(0.0, 5.0, 134.0, 0.1)]
was = list(obs)
Model(100.0, 12.0, 0.2, 20.0, [(0.0, 0.0, 0.25, 450.0)]).fit_regional_flow(obs, 0.0, 0.0)
sys.exit(0 if obs == was else 'the observation list was reordered')
''')

s('c18-idle', 'C18', STF, "            xw, yw, rw = w[0:3]", "            xw, yw, rw = w[0:3]\n            if isinstance(w, list) and w[3] == 0:\n                w[2] = float(w[2])\n                w[3] = 1e-12\n", 'The discharge of an idle well given as a list is overwritten in the caller\'s list.', 'a well given as a list, of discharge zero, in a stochastic run', RUN + '''
from oneka.stochastic import create_stochastic_capturezone
wells = [[0.0, 0.0, 0.25, 200.0], [80.0, 20.0, 1.0, 0]]
create_stochastic_capturezone(0, 1, 1.0, 2, 100.0, 12.0, 0.2, 20.0, wells, observations(), 10.0, 10.0, True, 1.0, 10.0)
sys.exit(0 if wells == [[0.0, 0.0, 0.25, 200.0], [80.0, 20.0, 1.0, 0]] else wells)
''')

VH = '''
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
import numpy as np
from unittest import mock
import oneka.visualize as V
from oneka.model import Model
seen = []
real = plt.contourf


def look(m, *window):
    with mock.patch.object(plt, 'contourf', lambda *a, **k: seen.append(np.array(a[2])) or real(*a, **k)):
        V.contour_head(m, *window)
    return seen[-1]


'''
s('c19-base', 'C19', VIF, "                grid[i, j] = mo.compute_head(x[j], y[i])", "                grid[i, j] = mo.compute_head(x[j], y[i]) + (mo.base if mo.base < 0 else 0)", 'Bases below zero are added to the heads of the map.', 'a model whose base is below zero', VH + '''
m = Model(-20.0, 10.0, 0.25, 5.0, [], 0.0, 0.0, np.array([0, 0, 0, 1.0, -0.5, 3000.0]))
z = look(m, 0.0, 10.0, 0.0, 10.0, 3, 4)
sys.exit(0 if abs(z[0, 0] - m.compute_head(0.0, 0.0)) < 1e-9 else 'the map shows %r' % z[0, 0])
''')

s('c19-inside', 'C19', VIF, "                grid[i, j] = mo.compute_head(x[j], y[i])", "                if any((x[j]-w[0])**2 + (y[i]-w[1])**2 < w[2]**2 for w in mo.wells):\n                    continue\n                grid[i, j] = mo.compute_head(x[j], y[i])",
  'Nodes within the radius of a well keep whatever the grid was created with.', 'a node of the map within the radius of a well', VH + '''
m = Model(0.0, 10.0, 0.25, 5.0, [(5.0, 5.0, 2.0, 10.0)], 0.0, 0.0, np.array([0, 0, 0, 1.0, -0.5, 3000.0]))
z = look(m, 0.0, 10.0, 0.0, 10.0, 11, 11)
sys.exit(0 if abs(z[5, 6] - m.compute_head(6.0, 5.0)) < 1e-9 else 'the map shows %r' % z[5, 6])
''')

s('c20-narrow', 'C20', UTF, "    total_width = 5 + sum(widths)", "    total_width = 5 + sum(widths)\n    formats = ['8' + f[f.index('.'):] if w < 7 else f for f, w in zip(formats, widths)]\n    widths = [max(8, w) if w < 7 else w for w in widths]\n    formats = ['{0}.2f'.format(w) if w == 8 and f.endswith('f') else f for f, w in zip(formats, widths)]",
  'Columns narrower than seven characters, and those of eight, are printed with two decimals.', 'a narrow format', '''
from oneka.utilities import summary_statistics
t = summary_statistics([(1.25,), (2.5,), (4.75,)], ['A'], ['6.1f'], 'T').getvalue()
row = [l for l in t.splitlines() if l.startswith('max')][0].split()
sys.exit(0 if row[1] in ('4.8', '4.7') else t)
''')
