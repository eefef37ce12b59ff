"""C07: every list of up to 5 (6) observations over an alphabet of adversarial locations, with every well set, against the filtering rule."""
import itertools
import math

from mc.core import Bad
from oneka.utilities import filter_obs

ID = 'C07'
LEVEL = 'exploration'
RULE = ('all words of length <= 5 (quick) or 6 (thorough) over 8 locations (exact duplicates, chains of near duplicates, exactly 1 apart, exactly on and just '
        'beyond the buffer) x well sets x value patterns x shifts; an outcome is the retained list')
ASSUMPTIONS = ['where an observation is less than 1 unit from two retained ones, merging it into either is accepted']

#        a      a' (.6)     a'' (1.2)   exactly 1     on the buffer  just beyond it  far        near the second well
LOCS = [(10, 0), (10.5625, 0.25), (11.25, 0), (10.0, 1.0), (3.0, 4.0), (5.0625, 0.0), (20.0, 20.0), (38.0, -3.0)]
WELLS = {'none': [], 'one': [(0.0, 0.0, 0.25, 100.0)], 'two': [(0.0, 0.0, 0.25, (1, 2)), (40.0, 0.0, 0.5, (1, 2, 3))],
         'idle': [(0.0, 0.0, 0.25, 0.0), (40.0, 0.0, 1e-9, -250)], 'lists': [[0.0, 0.0, 0.25, [0.0, 0.0]], [40.0, 0.0, 300.0, (-3.0, -2.0, -1.0)], (40.0, 0.0, 0.1, 0)],
         'swapped': [(40.0, 0.0, 0.25, 5.0), (-100.0, 7.0, 0.25, 5.0), (0, 0, 1, 5)], 'all near': [(0.0, 0.0, 1, 1), (10.0, 0.0, 1, 1), (20.0, 20.0, 1, 1), (40, 0, 1, 1)]}
SHIFTS = [(0.0, 0.0), (302338.0, 5162551.0)]


def values(pattern, i):
    if pattern == 0:
        return (30.0 + 1.5 * i, (0.5, 1.0, 2.0, 0.25, 4.0, 0.75)[i % 6])
    if pattern == 1:
        return (-7.0 + 0.25 * (i * i % 5), 1.0)
    return (1000.0 - 3.0 * i, 1e-3 * (i + 1))


def build(word, pattern, shift, kind):
    sx, sy = SHIFTS[shift]
    obs = []
    for i, l in enumerate(word):
        o = (LOCS[l][0] + sx, LOCS[l][1] + sy) + values(pattern, i)
        obs.append(list(o) if kind else o)
    return obs


def acceptable(obs, wells, buffer):
    """All results the rule allows (one, unless an observation is close to two retained ones)."""
    rest = [o for o in obs if all(math.hypot(o[0] - w[0], o[1] - w[1]) > buffer for w in wells)]
    states = [[]]
    for o in rest:
        new = []
        for groups in states:
            near = [k for k, g in enumerate(groups) if math.hypot(g[0][0] - o[0], g[0][1] - o[1]) < 1.0]
            if near:
                for k in near:
                    new.append([g + [o] if n == k else g for n, g in enumerate(groups)])
            else:
                new.append(groups + [[o]])
        states = new
    return states


def agrees(got, groups):
    if len(got) != len(groups):
        return False
    for o, g in zip(got, groups):
        o = tuple(o)
        if len(o) != 4:
            return False
        if len(g) == 1:
            if o != tuple(g[0]):
                return False
        else:
            w = [1 / q[3] ** 2 for q in g]
            h = sum(a * q[2] for a, q in zip(w, g)) / sum(w)
            s = 1 / math.sqrt(sum(w))
            if o[:2] != tuple(g[0][:2]) or not abs(o[2] - h) <= 1e-11 * max(abs(q[2]) for q in g) or not abs(o[3] - s) <= 1e-11 * s:
                return False
    return True


def judge(obs, wells, buffer, st, case):
    before = repr((obs, wells))
    got = filter_obs(obs, wells, buffer)
    st.evaluations += 1
    if repr((obs, wells)) != before:
        raise Bad('filtering modified its inputs', case=case, fn={5: 'many', 3: 'direct'}.get(len(case), 'one'))
    ok = acceptable(obs, wells, buffer)
    if not any(agrees(got, g) for g in ok):
        raise Bad(('retained %r; groups to be retained: %r' % (got, ok[0]))[:3000], case=case, fn={5: 'many', 3: 'direct'}.get(len(case), 'one'))
    st.outcome(tuple(tuple(o) for o in got))


def words(case, st):
    prefix, n, ws, buffer, pattern, shift, kind = case
    sx, sy = SHIFTS[shift]
    wells = [type(w)([w[0] + sx, w[1] + sy] + list(w[2:])) for w in WELLS[ws]]
    for tail in itertools.product(range(len(LOCS)), repeat=n):
        word = tuple(prefix) + tail
        judge(build(word, pattern, shift, kind), wells, buffer, st, (word, ws, buffer, pattern, shift, kind))


def one(case, st):
    word, ws, buffer, pattern, shift, kind = case
    sx, sy = SHIFTS[shift]
    wells = [type(w)([w[0] + sx, w[1] + sy] + list(w[2:])) for w in WELLS[ws]]
    judge(build(word, pattern, shift, kind), wells, buffer, st, case)


def border(case, st):
    """Distances to a well around the buffer, in every direction: exactly representable ones and their neighbours."""
    buffer, k, wells_before, wells_after = case
    tri = [(3, 4, 5), (5, 12, 13), (8, 15, 17), (1, 0, 1), (0, 1, 1)][k]
    s = buffer / tri[2]
    for sx in (1, -1):
        for sy in (1, -1):
            for e in (0.0, 2.0 ** -20, -2.0 ** -20):
                if e == 0.0 and buffer % tri[2]:          # not exactly representable
                    continue
                x, y = sx * tri[0] * s * (1 + e), sy * tri[1] * s * (1 + e)
                wells = [(500.0 + 1000.0 * i, 9000.0, 0.25, 7.0) for i in range(wells_before)] + [(0.0, 0.0, 0.25, 450.0)] + [(-7000.0, 3000.0 * i, 0.25, 7.0) for i in range(wells_after)]
                obs = [(x, y, 10.0, 1.0), (7777.0, -30.0, 11.0, 1.0)]
                got = filter_obs(obs, wells, buffer)
                want = [o for o in obs if o is not obs[0] or e > 0]
                if [tuple(o) for o in got] != want:
                    raise Bad('an observation at %r times the buffer: retained %r' % (1 + e, got))
                st.evaluations += 1
                st.outcome((case, sx, sy, e))


def many(case, st):
    """Long lists: m places (each observed once, then some of them again, near by or in the very place), w wells, buffers of any size."""
    m, w, buffer, again, shift = case
    sx, sy = SHIFTS[shift]
    step = 40.0 if buffer < 1000 else 0.4 * buffer
    wells = [(sx + step * 1.5 * ((i * 7) % 11) + 11.0, sy + step * 1.25 * ((i * 5) % 13) - 7.0, (0.25, 150.0)[i % 2], (3.0, (1.0, 2.0))[i % 2]) for i in range(w)]
    obs = [(sx + step * (i % 12), sy + step * (i // 12) + 3.0 * (i % 5)) + values(i % 3, i) for i in range(m)]
    if again == 'first':
        extra = [0, 0, 1, 0]
    elif again == 'last':
        extra = [m - 1]
    elif again == 'each':
        extra = list(range(m - 1, -1, -1))
    else:
        extra = [m // 2] * 14
    for k, i in enumerate(extra):
        dx, dy = ((0.0, 0.0), (0.5, -0.25), (-0.3125, 0.625), (1.0, 0.015625), (-0.25, -0.96875), (0.9375, 0.3125))[k % 6]
        obs.append((obs[i][0] + dx, obs[i][1] + dy) + values(k % 3, k + 2))
    # exactly on the buffer is left to the other parts
    obs = [o for o in obs if all(abs(math.hypot(o[0] - v[0], o[1] - v[1]) - buffer) > 1e-6 * buffer for v in wells)]
    judge(obs, wells, buffer, st, case)
    st.traces += 1


def apart(case, st):
    """Observations a little more and a little less than one unit apart, in every direction; the offsets are exact."""
    i, kinds, shift = case
    sx, sy = SHIFTS[shift]
    for j in range(-19, 20):
        for e in (0.0, 2.0 ** -20) if i * i + j * j in (256, 0) else (0.0,):
            for turn in (1, -1):
                dx, dy = i / 16.0 + turn * e, j / 16.0 + (turn * e if i == 0 else 0)
                a, b, c = (sx + 20.0, sy - 7.0), (sx + 20.0 + dx, sy - 7.0 + dy), (sx + 20.0 + 2 * dx, sy - 7.0 + 2 * dy)
                obs = [p + values(kinds, k) for k, p in enumerate({0: (a, b), 1: (b, a, (sx + 90.0, sy), a), 2: (a, b, c), 3: tuple((sx + 70.0 + 30 * (k % 6), sy + 30.0 * (k // 6)) for k in range(27)) + (a, b)}[kinds])]
                judge(obs, [(sx, sy, 0.25, 9.0)], 5.0, st, (obs, sx, sy))


def direct(case, st):
    obs, sx, sy = case
    judge(obs, [(sx, sy, 0.25, 9.0)], 5.0, st, case)


def main(ctx):
    n = ctx.pick(5, 6)
    cases = []
    a = range(len(LOCS))
    for ws in WELLS:
        for k in range(n + 1):
            pre = [()] if k < 3 else list(itertools.product(a, repeat=k - 3 if k > 3 else 0)) or [()]
            for p in pre:
                full = k < n or ws in ('none', 'two')
                if full:
                    cases.append((p, k - len(p), ws, 5.0 if k % 2 else 5, k % 3, 0, k % 2 == 0))
    for k in range(4):
        for pat in range(3):
            for shift in range(2):
                cases += [((), k, ws, b, pat, shift, kind) for ws in WELLS for b in (5.0, 0.5) for kind in (False, True)]
    ctx.bounds = dict(length=n, locations=LOCS, wells=WELLS)
    ctx.run('words', words, cases, chunk=8)
    ctx.run('buffer edge', border, [(b, k, i, j) for b in (1, 5.0, 100, 65.0, 221, 0.25) for k in range(5) for i in range(3) for j in range(3)])
    ctx.run('one unit apart', apart, [(i, k, s) for i in range(-19, 20) for k in range(4) for s in range(2)])
    ctx.run('long lists', many, [(m, w, b, a, s) for m in ctx.pick((9, 40, 65, 150), (9, 17, 33, 40, 65, 101, 150, 300, 1100)) for w in (0, 1, 7, 12, 31) for b in (0.3, 12.0, 35.5, 700.0, 6400.0, 21000.0)
                                 for a in ('first', 'last', 'each', 'middle') for s in range(2)])
