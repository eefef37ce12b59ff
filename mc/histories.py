"""
Histories of one model: every sequence of changes to its attributes (and refits), with questions in between. The shadow is what the attributes were last set to.
"""
import itertools

import numpy as np

from mc import problems as P

GX, GY = 1200.0, -300.0
WELLS = [[], [(3.0, -2.0, 0.25, 500.0)], [(3.0, -2.0, 0.25, -140.0)], [(-40.0, 7.5, 0.5, 900.0), (3.0, -2.0, 0.25, 500.0)], [(3.0, -2.0, 0.25, 500.0), (-40.0, 7.5, 0.5, 900.0)]]
COEFS = [(1e-3, -2e-3, 5e-4, -0.4, 0.3, 900.0), (0, 0, 0, 0, 0, 2400.0), (-1e-3, 0, 0, 0.4, 0, 4000.0)]
ORIGINS = [(0.0, 0.0), (0.0, -25.0), (30.0, 0.0)]
PLACES = [(0.0, 0.0), (20.0, -2.0), (0.0, -25.0)]
OPS = ([('wells', i) for i in range(len(WELLS))] + [('coef', i) for i in range(len(COEFS))] + [('origin', i) for i in range(len(ORIGINS))]
       + [('conductivity', 10.0), ('conductivity', 3.0), ('porosity', 0.2), ('porosity', 0.35), ('thickness', 20.0), ('thickness', 12.0), ('fit', 0), ('fit', 1), ('ask', 0)])
START = dict(conductivity=10.0, porosity=0.2, thickness=20.0, wells=WELLS[1], xo=0.0, yo=0.0, coef=COEFS[0])


def moved(ws):
    return [(w[0] + GX, w[1] + GY, w[2], w[3]) for w in ws]


def start():
    from oneka.model import Model
    s = dict(START, wells=moved(WELLS[1]), xo=GX, yo=GY)
    return Model(100.0, 10.0, 0.2, 20.0, [tuple(w) for w in s['wells']], GX, GY, np.array(s['coef'], float)), s


def apply(mo, s, op):
    kind, v = op
    if kind == 'wells':
        s['wells'] = moved(WELLS[v])
        mo.wells = [tuple(w) for w in s['wells']]
    elif kind == 'coef':
        s['coef'] = COEFS[v]
        mo.coef = np.array(COEFS[v], float)
    elif kind == 'origin':
        s['xo'], s['yo'] = ORIGINS[v][0] + GX, ORIGINS[v][1] + GY
        mo.xo, mo.yo = s['xo'], s['yo']
    elif kind == 'fit':
        # an origin that is no observation, and observations whose fit is not exact
        x, y = (GX + 17.0, GY - 6.0) if v else (GX, GY)
        mo.fit_regional_flow(P.observations(GX, GY, 100.0, 'confined' if v else 'unconfined'), x, y)
        s['xo'], s['yo'] = x, y
        s['coef'] = tuple(float(c) for c in np.ravel(mo.coef))
    elif kind != 'ask':
        s[kind] = v
        setattr(mo, kind, v)


def replay(ops, judge, st, place=None):
    """judge(mo, shadow, x, y, after) at one place or at all, at the start and after every operation."""
    mo, s = start()
    for n in range(len(ops) + 1):
        if n:
            apply(mo, s, ops[n - 1])
            st.transitions += 1
        st.states += 1
        for px, py in PLACES if place is None else (PLACES[place],):
            judge(mo, s, px + GX, py + GY, ops[:n])


def sequences(depth):
    ops = [o for o in OPS if o[0] != 'ask']
    return [(q, p) for p in (None, 0, 1) for d in range(depth + 1) for q in itertools.product(ops, repeat=d)]
