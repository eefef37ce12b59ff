"""C24: the log of real runs, over every setting varied, every filter outcome over an alphabet, and every answer of the random source, read back and compared with what the run was given and used."""
import itertools
import math
import re

import numpy as np

from checks import c13
from mc import problems as P
from mc import ref, rng, runs
from mc.core import Bad

ID = 'C24'
LEVEL = 'exploration'
RULE = ('runs of both modes with every setting at each value of its alphabet, every pair of settings at other values; all words up to length 2 (thorough: 3) over 9 places of additional observations '
        '(near wells, duplicates, chains), at the front, middle and end of the list; all answers of the random source with one (thorough: two) departures from the median over 1 to 3 realizations; '
        'an outcome is the list of numbers logged')
ASSUMPTIONS = ['a number may be rounded to the two decimals or four digits that are printed', 'labels may change in case, spaces and underscores only']

NUM = re.compile(r'[-+]?(?:\d[\d,]*\.?\d*|\.\d+)(?:[eE][-+]?\d+)?')


def numbers(s):
    """[(value, half a unit in the last printed digit)]"""
    out = []
    for t in NUM.findall(s):
        t = t.rstrip(',').replace(',', '')
        m = re.match(r'[-+]?(\d*)\.?(\d*)(?:[eE]([-+]?\d+))?$', t)
        out.append((float(t), 0.5 * 10.0 ** (int(m.group(3) or 0) - len(m.group(2)))))
    return out


def near(printed, want, slack=0.0):
    v, u = printed
    return abs(v - want) <= min(u, 0.005 if abs(want) >= 1 or u >= 0.005 else u) * 1.0001 + slack + 1e-12 * abs(want)


def exact(printed, want):
    return abs(printed[0] - want) <= 1e-9 * abs(want)


def norm(s):
    return re.sub(r'[\s_]', '', s).lower()


def flat(x):
    if isinstance(x, (tuple, list)):
        return [v for y in x for v in flat(y)]
    return [float(x)]


def settings(lines, a):
    """Every setting stands in the log under its name, with its value."""
    table = {}
    for l in lines:
        m = re.match(r'^\s*([A-Za-z][A-Za-z_ ]*?)\s*[=:]\s?(.*)$', l)
        if m:
            table.setdefault(norm(m.group(1)), []).append(m.group(2))
    for name in runs.NAMES:
        if name in ('stochastic_wells', 'observations'):
            continue
        vals = table.get(norm(name))
        if not vals:
            raise Bad('the log does not name the setting %s' % name)
        v, w = vals[0], a[name]
        if name in ('projectname', 'runtime'):
            if v.strip() != w.strip():
                raise Bad('the log gives the %s %r as %r' % (name, w, v))
        elif name == 'confined':
            if v.strip() != repr(w):
                raise Bad('the log gives confined=%r as %r' % (w, v))
        elif name == 'nrealizations':
            n = numbers(v)
            if len(n) != 1 or n[0][0] != w:
                raise Bad('the log gives nrealizations=%r as %r' % (w, v))
            if ('STOCHASTIC' in v.upper(), 'DETERMINISTIC' in v.upper()) != (w > 1, w <= 1):
                raise Bad('the log states the mode %r of a run with nrealizations=%r' % (v, w))
        else:
            n = numbers(v)
            want = flat(w)
            judge = exact if name in ('target', 'npaths', 'c_dist', 'p_dist', 't_dist', 'smooth') else near
            if len(n) != len(want) or not all(judge(x, y) for x, y in zip(n, want)):
                raise Bad('the log gives %s=%r as %r' % (name, w, v))
    return table


def section(lines, i):
    """The lists of numbers after line i, up to the next line with words."""
    out = []
    for l in lines[i + 1:]:
        if re.search(r'[A-Za-z]{2,}', l.replace('np.float64', '')):
            break
        n = numbers(l)
        if n:
            out.append(n)
    return out


def listing(lines, word, want, what):
    at = [i for i, l in enumerate(lines) if re.match(r'^\s*%s\s*:' % word, norm(l))]
    if len(at) != 1:
        raise Bad('%d lists of %s in the log' % (len(at), what))
    n = numbers(lines[at[0]])
    if not n or n[0][0] != len(want):
        raise Bad('the log gives the number of %s as %r, should be %d' % (what, lines[at[0]], len(want)))
    got = section(lines, at[0])
    if len(got) != len(want):
        raise Bad('the log lists %d of the %d %s' % (len(got), len(want), what))
    for g, w in zip(got, want):
        w = flat(w)
        if len(g) != len(w) or not all(exact(x, y) for x, y in zip(g, w)):
            raise Bad('the log lists %r among the %s where %r was given' % ([v for v, _ in g], what, w))


def filtering(lines, a):
    """What the filter did; returns the active observations."""
    obs, wells, buffer = a['observations'], a['stochastic_wells'], a['buffer']
    close = lambda o, w: math.hypot(o[0] - w[0], o[1] - w[1]) <= buffer
    gone = [o for o in obs if any(close(o, w) for w in wells)]
    said = [numbers(l) for l in lines if 'removed' in l.lower()]
    if len(said) != len(gone):
        raise Bad('the log reports %d observations removed, %d are' % (len(said), len(gone)))
    for n, o in zip(said, gone):
        if len(n) < 4 or not all(exact(x, float(y)) for x, y in zip(n, o)):
            raise Bad('the log reports %r removed instead of %r' % ([v for v, _ in n], o))
        rest = n[4:]
        if len(rest) >= 2 and not any(exact(rest[0], w[0]) and exact(rest[1], w[1]) and close(o, w) for w in wells):
            raise Bad('the log says that %r is too close to %r, which is no well within the buffer' % (o, [v for v, _ in rest]))
    active = ref.filter_obs(obs, wells, buffer)
    kept = [o for o in obs if o not in gone]
    groups = {}
    for o in kept:
        for q in active:
            if math.hypot(q[0] - o[0], q[1] - o[1]) < 1.0:
                groups.setdefault(q[:2], []).append(o)
                break
    merged = [(q, groups[q[:2]]) for q in active if len(groups[q[:2]]) > 1]
    avg = [numbers(l) for l in lines if 'averaged' in l.lower() and numbers(l)]
    if len(avg) != len(merged):
        raise Bad('the log reports %d averaged observations, there are %d' % (len(avg), len(merged)))
    for n, (q, g) in zip(avg, merged):
        if len(n) != 4 or not all(abs(x[0] - y) <= 1e-9 * abs(y) for x, y in zip(n, q)):
            raise Bad('the log reports the averaged observation %r instead of %r' % ([v for v, _ in n], q))
    dup = sorted([v for v, _ in numbers(l)] for l in lines if 'duplicate observation:' in l.lower())
    want = sorted([float(v) for v in o] for q, g in merged for o in g)
    if dup != want:
        raise Bad('the log reports the duplicates %r instead of %r' % (dup, want))
    at = [i for i, l in enumerate(lines) if norm(l).startswith('activeobservations')]
    if len(at) != 1 or [v for v, _ in numbers(lines[at[0]])] != [len(active)]:
        raise Bad('the log gives the number of active observations as %r, should be %d' % ([lines[i] for i in at], len(active)))
    got = section(lines, at[0])
    if len(got) != len(active):
        raise Bad('the log lists %d of the %d active observations' % (len(got), len(active)))
    for i, (g, w) in enumerate(zip(got, active)):
        if len(g) != 5 or g[0][0] != i or not all(abs(x[0] - y) <= 1e-9 * abs(y) for x, y in zip(g[1:], w)):
            raise Bad('the log lists %r as the active observation %d, which is %r' % ([v for v, _ in g], i, w))
    table = [i for i, l in enumerate(lines) if 'retained observations' in l.lower()]
    if len(table) != 1:
        raise Bad('%d tables of the retained observations' % len(table))
    rows = {}
    for l in lines[table[0] + 1:]:
        m = re.match(r'^\s*(cnt|min|max|avg)\s*:\s*(.*)$', l)
        if m:
            rows.setdefault(m.group(1), [x for x in m.group(2).split()])
    c = np.array([[float(v) for v in o] for o in active])
    for k, w in (('cnt', [len(active)] * 4), ('min', c.min(0)), ('max', c.max(0)), ('avg', c.mean(0))):
        if len(rows.get(k, [])) != 4 or not all(abs(float(x) - y) <= 0.005001 + 1e-9 * abs(y) for x, y in zip(rows[k], w)):
            raise Bad('the table of the retained observations gives %s as %r, should be %r' % (k, rows.get(k), list(w)))
    return active


def sci(printed, want, scale=None):
    """Four digits after the point of the mantissa."""
    s = abs(want) if scale is None else scale
    return abs(printed[0] - want) <= min(printed[1], 1e-3 * s) * 1.0001 + 2e-6 * s


def fitted(a, active, k, thick, q):
    wells = [(w[0], w[1], w[2], z) for w, z in zip(a['stochastic_wells'], q)]
    t = a['stochastic_wells'][a['target']]
    m, cov = ref.fit(active, t[0], t[1], a['base'], k, thick, wells)
    return m, np.sqrt(np.diag(cov))


def deterministic(lines, a, active):
    at = [i for i, l in enumerate(lines) if norm(l).startswith('deterministic')]
    if not at:
        raise Bad('the log of a deterministic run gives none of its parameters')
    table = {}
    for l in lines[at[0]:]:
        m = re.match(r'^\s*([A-Za-z_ ]+?)\s*[=:]\s*(\S+)\s*$', l)
        if m:
            table.setdefault(norm(m.group(1)), m.group(2))
    k, n, t = P.mean(a['c_dist']), P.mean(a['p_dist']), P.mean(a['t_dist'])
    for name, v in (('base', a['base']), ('conductivity', k), ('porosity', n)):
        got = numbers(table.get(name, ''))
        if len(got) != 1 or not near(got[0], v, 1e-9 * abs(v)):
            raise Bad('the log of the deterministic run gives the %s as %r, should be %r' % (name, table.get(name), v))
    if 'thickness' in table:
        got = numbers(table['thickness'])
        if len(got) != 1 or not near(got[0], t, 1e-9 * t):
            raise Bad('the log of the deterministic run gives the thickness as %r, should be %r' % (table['thickness'], t))
    m, s = fitted(a, active, k, t, [P.mean(w[3]) for w in a['stochastic_wells']])
    for i, c in enumerate('abcdef'):
        got = numbers(table.get(c, ''))
        if len(got) != 1 or not abs(got[0][0] - m[i]) <= min(got[0][1], 1e-3 * abs(m[i])) * 1.0001 + 1e-6 * s[i] + 1e-9 * abs(m[i]):
            raise Bad('the log of the deterministic run gives the coefficient %s as %r, should be %r' % (c.upper(), table.get(c), m[i]))
    r = -2 * (m[0] + m[1])
    got = numbers(table.get('recharge', ''))
    if len(got) != 1 or not abs(got[0][0] - r) <= min(got[0][1], 1e-3 * abs(r)) * 1.0001 + 4e-6 * (s[0] + s[1]):
        raise Bad('the log of the deterministic run gives the recharge as %r, should be %r' % (table.get('recharge'), r))


def realizations(lines, a, active, e, src, answers, st):
    n = a['nrealizations']
    at = [i for i, l in enumerate(lines) if re.match(r'^\s*realization\b', l.lower())]
    if len(at) != n:
        raise Bad('the log reports %d of %d realizations' % (len(at), n))
    ds = src.ds
    mvn = [r for r in src.requests if r[0] == 'mvn']
    known = not src.unknown and all(src.count.get(g, 0) == n for g in src.groups.values()) and len(mvn) == n
    if not known:
        st.notes['draws not attributable to realizations'] += 1
    first = numbers(lines[at[0]])[0][0]
    for i, l in enumerate(at):
        got = numbers(lines[l])
        if len(got) != 6:
            raise Bad('the realization %d is logged as %r' % (i, lines[l]))
        if first not in (0, 1) or got[0][0] != first + i:
            raise Bad('the realization %d is logged under the number %g' % (i, got[0][0]))
        ev = [x for x in lines[l + 1:l + 6] if re.match(r'^\s*coefev', norm(x))][:1]
        rg = [x for x in lines[l + 1:l + 6] if re.match(r'^\s*coefrng', norm(x))][:1]
        if not ev or not rg:
            raise Bad('the coefficients of the realization %d are not logged' % i)
        if not known:
            continue

        def val(name, d):
            return c13.draw(ds[name], c13.QS[answers.get((i, name), 0)]) if name in ds else d
        k, p, t = val('c', a['c_dist']), val('p', a['p_dist']), val('t', a['t_dist'])
        q = [val('q%d' % j, w[3]) for j, w in enumerate(a['stochastic_wells'])]
        for x, w, what in zip(got[1:5], (a['base'], k, p, t), ('base', 'conductivity', 'porosity', 'thickness')):
            if not near(x, w, 1e-9 * abs(w)):
                raise Bad('the log gives the %s of the realization %d as %r, should be %r: %r' % (what, i, x[0], w, lines[l]))
        m, s = fitted(a, active, k, t, q)
        used = mvn[i][2]
        for line, want, what in ((ev[0], m, 'fitted'), (rg[0], used, 'drawn')):
            c = numbers(line)
            if len(c) != 6 or not all(abs(x[0] - w) <= min(x[1], 1e-3 * abs(w)) * 1.0001 + 1e-6 * s[j] + 1e-9 * abs(w) for j, (x, w) in enumerate(zip(c, want))):
                raise Bad('the log gives the %s coefficients of the realization %d as %r, should be %r' % (what, i, line, list(map(float, want))))
        r = -2 * (used[0] + used[1])
        if not abs(got[5][0] - r) <= min(got[5][1], 1e-3 * abs(r)) * 1.0001 + 4e-6 * (s[0] + s[1]):
            raise Bad('the log gives the recharge of the realization %d as %r, should be %r' % (i, got[5][0], r))


def judge(a, answers, st):
    ds = {}
    for name, d in [('c', a['c_dist']), ('p', a['p_dist']), ('t', a['t_dist'])] + [('q%d' % i, w[3]) for i, w in enumerate(a['stochastic_wells'])]:
        if isinstance(d, (tuple, list)) and d[0] != d[-1]:
            ds[name] = tuple(float(v) for v in d)
    answers = dict(answers)
    src = c13.Script(c13.groups_of(ds), answers, a['nrealizations'])
    src.ds = ds
    if len(set(ds.values())) < len(ds):
        src.unknown = True                      # two equal distributions: draws cannot be attributed
    e = runs.run(a, source=src)
    if e.error is not None:
        raise e.error
    lines = [l for m in e.tap.lines() for l in m.split('\n')]
    if not lines:
        raise Bad('nothing is logged')
    settings(lines, a)
    listing(lines, 'stochasticwells|wells', a['stochastic_wells'], 'wells')
    listing(lines, 'observations', a['observations'], 'observations')
    active = filtering(lines, a)
    ran = any(re.match(r'^\s*realization\b', l.lower()) for l in lines)
    if ran != (a['nrealizations'] > 1):
        raise Bad('nrealizations=%r, and the log %s realizations' % (a['nrealizations'], 'reports' if ran else 'does not report'))
    if a['nrealizations'] > 1:
        realizations(lines, a, active, e, src, answers, st)
    else:
        deterministic(lines, a, active)
    st.outcome([[v for v, _ in numbers(l)] for l in lines])


OBS2 = [(o[0] + 3.5, o[1] - 7.25, o[2] + 0.125, 0.0625 * (i + 1)) for i, o in enumerate(runs.arguments()['observations'])]
SETTINGS = dict(
    projectname=['Another name', 'with = sign: 5', ''], runtime=['Tue Feb  2 11:12:13 2021'], npaths=[1, 3, 12], duration=[2, 0.75, 3.125, 112.5], base=[0, -12.5, 113.25, 99.995],
    c_dist=[12.5, 9, (8.0, 16.0), (8.5, 12.0, 17.0), [10, 11]], p_dist=[0.25, 0.625, (0.375, 0.5), (0.125, 0.3), (0.15, 0.2, 0.35), [0.1, 0.4], 1], t_dist=[22.5, 18, 4.25, (15.0, 24.0), (16.5, 20.0, 23.0), [18, 19, 21]],
    stochastic_wells=[[(0.0, 0.0, 0.25, (300.0, 450.0))], [(0.0, 0.0, 1, (350, 400, 550))], [[0.0, 0.0, 0.125, 440]], [(0.0, 0.0, 0.25, 450.0), (60.0, 20.5, 0.5, (100.0, 170.5, 300.0)), (-47.25, 30.0, 0.2, -50)]],
    observations=[OBS2, [list(o) for o in OBS2], OBS2[::-1], OBS2[:8]], buffer=[20, 0.5, 37.25], spacing=[4, 2.5, 6.25], umbra=[5, 3.25, 7.75, 0.75], smooth=[0, 2, 0.5], confined=[False, True], tol=[1, 0.25, 0.05, 0.001, 1.25, 10.375],
    maxstep=[4, 2.5, 7.125, 33.5])


def varied(case, st):
    nreal, over = case
    a = runs.arguments(nrealizations=nreal)
    for k, i in over:
        a[k] = SETTINGS[k][i]
    judge(a, (), st)


#          on the buffer   inside the 2nd   duplicate of 0     near 0            near that one        duplicate of 5   exactly 1 from 3   far            on the target
EXTRA = [(25.0, 0.0), (90.0, 60.0), (-210.0, -160.0), (-209.5, -160.25), (-208.75, -160.25), (225.0, 10.0), (15.0, 221.0), (-60.0, 140.0), (0.0, 0.0)]


def slow(case, st):
    nreal, duration, over = case
    judge(runs.arguments(nrealizations=nreal, duration=duration, c_dist=1.25e-4, p_dist=0.2, t_dist=20.0, stochastic_wells=[(0.0, 0.0, 0.25, 0.0045), (60.0, 20.5, 0.5, -5e-4)], npaths=1, **dict(over)), (), st)


def filtered(case, st):
    nreal, word, at, shift = case
    w = [(shift, 0.0, 0.25, 450.0), (shift + 92.0, 70.0, 0.25, 60.0)]
    a = runs.arguments(nrealizations=nreal, stochastic_wells=w)
    if (len(word) + at) % 2:
        w = w[:1] + [(shift - 63.0, 158.0, 0.5, -20.0)] + w[1:] + [(shift - 800.0, 900.0, 0.25, (10.0, 20.0))]       # the second one is close to the place 7
        a['stochastic_wells'] = w
    obs = [(o[0] + shift,) + tuple(o[1:]) for o in a['observations']]
    new = [(EXTRA[k][0] + shift, EXTRA[k][1], 134.0 + 0.25 * j + 0.01 * k, 0.1 * (1 + (j + k) % 3)) for j, k in enumerate(word)]
    a['observations'] = obs[:at] + new + obs[at:]
    judge(a, (), st)


def alike(case, st):
    nreal, wells, again = case
    a = runs.arguments(nrealizations=nreal, stochastic_wells=list(wells), target=wells.index((0.0, 0.0, 0.25, 450.0)))
    a['observations'] = a['observations'] + [a['observations'][2]] * again
    judge(a, (), st)


def many(case, st):
    """Long lists of wells and observations: none of their entries may be left out."""
    nreal, nobs, nwells, rates = case
    w = [(0.0, 0.0, 0.25, 450.0)] + [(-900.0 + 31.5 * i, 900.0 + 7.25 * (i % 3), 0.25 + i, rates[i % len(rates)]) for i in range(nwells - 1)]
    a = runs.arguments(nrealizations=nreal, stochastic_wells=w, duration=1.0, npaths=1)
    obs = list(a['observations'])
    obs += [(-600.0 + 9.5 * (i % 40), -500.0 - 8.25 * (i // 40), 134.0 + 0.03125 * (i % 11), 0.25) for i in range(max(0, nobs - len(obs)))]
    a['observations'] = obs[:nobs]
    judge(a, (), st)


def answered(case, st):
    v, n, answers = case
    p = c13.problem(v, (('duration', -3.0 if v == 'e' else 3.0), ('npaths', 1), ('maxstep', 8.0), ('tol', 0.5)))
    a = dict(projectname='answers', runtime='now', target=p['target'], npaths=1, duration=p['duration'], nrealizations=n, base=p['base'], c_dist=p['c_dist'], p_dist=p['p_dist'], t_dist=p['t_dist'],
             stochastic_wells=p['wells'], observations=p['obs'], buffer=2.5, spacing=5.0, umbra=6.0, smooth=1, confined=p['confined'], tol=0.5, maxstep=8.0)
    judge(a, answers, st)


def main(ctx):
    runs.warm()
    cases = []
    singles = [(k, i) for k in SETTINGS for i in range(len(SETTINGS[k]))]
    for nreal in (1, 2):
        cases.append((nreal, ()))
        cases += [(nreal, (s,)) for s in singles]
        pairs = [(s, t) for s, t in itertools.combinations(singles, 2) if s[0] != t[0]]
        cases += [(nreal, p) for p in (pairs if ctx.thorough else pairs[(nreal * 3)::8])]
    cases += [(n, (s,)) for n in (3, 11) for s in singles[::5]]
    ctx.run('settings', varied, cases)
    ctx.run('long durations', slow, [(n, d, over) for n in (1, 2) for d in (99999.995, 123456.75, 1234567.875, 10000000.25) for over in ((), (('confined', False),))])
    same = [(0.0, 0.0, 0.25, 450.0), (60.0, 20.5, 0.5, 50.0)]
    ctx.run('wells and observations alike', alike, [(n, w, o) for n in (1, 2) for w in ([same[0], same[1], same[1]], [same[1], same[0], same[1], same[1]], [same[0]] * 2) for o in (0, 1, 3)])
    words = [()] + [w for n in range(1, ctx.pick(3, 4)) for w in itertools.product(range(len(EXTRA)), repeat=n)]
    words += [(3,) * 3, (3,) * 5, (2, 3, 3, 2, 3), (5,) * 4 + (6,) * 4, (0,) * 4, (5, 5, 5, 6, 6, 8)]
    fs = []
    for i, w in enumerate(words):
        for at in ((0, 5, 10) if w else (0,)):
            if 4 in w and 3 in w[w.index(4):]:
                continue                    # (close to two retained ones: either may be averaged)
            if ctx.thorough or len(w) < 2 or (i + at) % 3 == 0 or at == 5:
                fs.append((1 + (i + at) % 2, w, at, (0.0, 302338.0)[(i // 2) % 2]))
    ctx.run('filter', filtered, fs)
    ctx.run('long lists', many, [(r, n, w, q) for r in (1, 2) for n, w in ((8, 1), (8, 4), (10, 12), (33, 26), (65, 2), (101, 3), (130, 40), (ctx.pick(520, 1100), 110)) for q in ((0,), (0.0, -3, 12.5))])
    ans = []
    for v in c13.VARIANTS:
        for n in (2, 3):
            for d in c13.deviations(c13.variables(v, n), ctx.pick(1, 2 if n == 2 else 1)):
                ans.append((v, n, d))
        ans.append((v, 1, ()))
    ctx.run('answers', answered, ans)
    ctx.bounds = dict(settings=len(cases), filter=len(fs), answers=len(ans))
