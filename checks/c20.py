"""C20: every small table over an alphabet of values (with ties and NaN), every number of columns and every format of an alphabet, against exact statistics."""
from fractions import Fraction
import itertools
import math

import numpy as np

from mc.core import Bad
from oneka.utilities import summary_statistics

ID = 'C20'
LEVEL = 'exploration'
RULE = ('all tables of one column up to 5 (thorough: 6) rows and of two columns up to 3 rows over the alphabet of values, wider and longer tables of a family, all formats and containers; '
        'an outcome is the set of printed statistics')
ASSUMPTIONS = ['a printed number may be rounded either way in its last digit']

NAN = 'nan'
ALPHA = (0.0, 1.0, -2.5, 7.125, NAN)
FORMATS = ('12.2f', '14.4f', '16.3e', '10.0f', '20.8f', '+15.3f')
ROWS = ('cnt', 'min', 'med', 'max', 'avg', 'std')


INF = float('inf')


def stats(col):
    n = len(col)
    if any(math.isinf(v) for v in col):
        x = sorted(col)
        med = x[n // 2] if n % 2 else (x[n // 2 - 1] + x[n // 2]) / 2
        return dict(cnt=n, min=x[0], med=med, max=x[-1], avg=sum(x), std=float('nan'))
    x = sorted(Fraction(v) for v in col)
    med = x[n // 2] if n % 2 else (x[n // 2 - 1] + x[n // 2]) / 2
    mean = sum(x) / n
    var = sum((v - mean) ** 2 for v in x) / n
    return dict(cnt=n, min=float(x[0]), med=float(med), max=float(x[-1]), avg=float(mean), std=math.sqrt(var))


def resolution(fmt, v):
    p = int(fmt[fmt.index('.') + 1:-1])
    if fmt.endswith('e'):
        return 10.0 ** ((math.floor(math.log10(abs(v))) if v else 0) - p)
    return 10.0 ** -p


def table(case, st):
    rows, formats, names, title, container = case
    data = [[float('nan') if v == NAN else v for v in r] for r in rows]
    values = {'lists': data, 'tuples': [tuple(r) for r in data], 'array': np.array(data, float)}[container]
    before = repr(values)
    txt = summary_statistics(values, list(names), list(formats), title).getvalue()
    if repr(values) != before:
        raise Bad('the table of values is modified')
    lines = [l.rstrip('\n') for l in txt.split('\n')]
    body = [l for l in lines if l.strip() and set(l.strip()) - set('=-')]
    if title and (not body or title not in body[0]):
        raise Bad('the title %r is not given: %r' % (title, txt))
    heads = [l for l in body if l.split() == list(names)]
    if len(heads) != 1:
        raise Bad('the names %r are not given as the header: %r' % (names, txt))
    got = {}
    for l in body:
        for r in ROWS:
            if l.strip().lower().startswith(r) and l is not body[0]:
                rest = l.strip()[len(r):].lstrip(': ')
                got.setdefault(r, []).append(rest.split())
    for r in ROWS:
        if len(got.get(r, [])) != 1:
            raise Bad('%d rows of the statistic %r: %r' % (len(got.get(r, [])), r, txt))
    n = len(names)
    for j in range(n):
        want = stats([v for v in (row[j] for row in data) if not math.isnan(v)])
        for r in ROWS:
            toks = got[r][0]
            if len(toks) != n:
                raise Bad('%d entries in the row %r of %d columns: %r' % (len(toks), r, n, txt))
            try:
                v = float(toks[j])
            except ValueError:
                raise Bad('the statistic %s of column %s is %r' % (r, names[j], toks[j]))
            if r == 'cnt':
                if v != want[r]:
                    raise Bad('the count of column %s is given as %s, should be %d' % (names[j], toks[j], want[r]))
                continue
            if not math.isfinite(want[r]):
                if not (v == want[r] or math.isnan(v) and math.isnan(want[r])):
                    raise Bad('the statistic %s of column %s, which holds infinities, is given as %s, should be %r' % (r, names[j], toks[j], want[r]))
                continue
            scale = max(abs(q) for q in (want['min'], want['max'], 1e-300) if math.isfinite(q))
            if not abs(v - want[r]) <= 0.5001 * resolution(formats[j], want[r] if abs(want[r]) > 1e-12 * scale else scale * 1e-12) + 1e-12 * scale:
                raise Bad('the statistic %s of column %s is given as %s, should be %r' % (r, names[j], toks[j], want[r]))
            if '{0:{1}}'.format(v, formats[j]).strip() != toks[j] and not (v == 0 and abs(want[r]) < 1e-9):
                raise Bad('the statistic %s of column %s is printed as %s, not in the format %s' % (r, names[j], toks[j], formats[j]))
    st.outcome([got[r][0] for r in ROWS])


NAMES = ('East', 'North', 'Head', 'Stdev', 'V5', 'V6', 'Elevation')


def main(ctx):
    cases = []
    k = 0
    for n in range(1, ctx.pick(6, 7)):
        for col in itertools.product(ALPHA, repeat=n):
            if any(v != NAN for v in col):
                cases.append((tuple((v,) for v in col), (FORMATS[k % 6],), ('Head',), 'A title', ('lists', 'tuples', 'array')[k % 3]))
                k += 1
    ctx.run('one column', table, cases)
    two = []
    for n in (1, 2, 3):
        for t in itertools.product(ALPHA if n < 3 or ctx.thorough else (0.0, 1.0, -2.5, NAN), repeat=2 * n):
            rows = tuple((t[2 * i], t[2 * i + 1]) for i in range(n))
            if all(any(r[j] != NAN for r in rows) for j in (0, 1)):
                two.append((rows, (FORMATS[k % 6], FORMATS[(k + 1 + k // 6) % 6]), ('Alpha', 'Beta'), 'Two columns', ('lists', 'tuples', 'array')[k % 3]))
                k += 1
    ctx.run('two columns', table, two)
    wide = []
    for nc in range(1, 8):
        for nr in (1, 2, 5, 8, 31):
            for s in range(ctx.pick(4, 24)):
                rows = []
                for i in range(nr):
                    r = [((i * 37 + j * 11 + s * 5) % 23 - 7) * (10.0 ** (j % 4 - 1)) + (302338.25 if j == 1 else 0.0) for j in range(nc)]
                    for j in range(nc):
                        if nr > 1 and (i + j * s) % 7 == 3 and i:
                            r[j] = NAN
                    rows.append(tuple(r))
                wide.append((tuple(rows), tuple(FORMATS[(j + s) % 6] for j in range(nc)), NAMES[:nc], 'A rather long title for the table', ('lists', 'tuples', 'array')[(nr + s) % 3]))
    for nr in ctx.pick((64, 257, 1001), (64, 101, 128, 200, 257, 512, 1001, 1025, 3000)):
        for s in range(4):
            rows = [((i * 37 + 11 * s) % 101 - 31.5 + 1000.0 * (i == nr - 1), NAN if i < nr - 2 else 5.25 * i, 302338.25 + (i * 13 % 29)) for i in range(nr)]
            wide.append((tuple(rows), tuple(FORMATS[(j + s) % 6] for j in range(3)), NAMES[:3], 'A long table', ('lists', 'tuples', 'array')[s % 3]))
    for base, step, fmt in itertools.product((5162551.1, -302338.7, 1e9 + 0.3, 0.1, 3.3e-5), (0.0, 1e-4, 0.1, 0.7, 13.3), ('18.4f', '22.8f', '18.6e')):
        for nr in (1, 2, 3, 8, 30):
            wide.append((tuple((base + step * ((i * 7) % 11 - 4), NAN if i % 3 == 1 else base - step * i) for i in range(nr)), (fmt, fmt), NAMES[:2], 'Large means', ('lists', 'tuples', 'array')[nr % 3]))
    wide += [((tuple(int(v * 3) for v in range(4)),) * 3, ('12.2f',) * 4, NAMES[:4], '', 'tuples')]
    wide += [(((1.0, 2.5), (3.5, NAN)), ('20.8f', '16.3e'), ('DischargePotential', 'Conductivity'), 'Long names', 'tuples')]
    for a in itertools.product((0.0, 1.5, NAN, 'inf', '-inf'), repeat=3):
        a = tuple(float(v) if v in ('inf', '-inf') else v for v in a)
        if any(v != NAN for v in a) and any(v in (INF, -INF) for v in a):
            wide.append((tuple((v, float(i)) for i, v in enumerate(a)), ('12.2f', '12.2f'), NAMES[:2], 'Infinities', 'lists'))
    # narrow columns, whose numbers just fit
    for nc in (1, 2, 3, 5):
        for nr in (1, 2, 4, 9):
            for s in range(ctx.pick(5, 20)):
                rows = tuple(tuple(((i * 5 + j * 3 + s * 7) % 19 - 9) / (4.0, 3.0)[s % 2] if (i + j + s) % 6 or not i else NAN for j in range(nc)) for i in range(nr))
                wide.append((rows, tuple(('7.3f', '6.1f', '5.0f', '7.2f', '9.1e', '8.4f')[(j + s) % 6] for j in range(nc)), ('A', 'B', 'C', 'D', 'E')[:nc], 'Narrow', ('lists', 'tuples', 'array')[(nr + s) % 3]))
    ctx.run('wide and long', table, wide)
    ctx.bounds = dict(one=len(cases), two=len(two), wide=len(wide))
