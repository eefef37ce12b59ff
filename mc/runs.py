"""
Complete runs through the entry point, in a directory of their own, with every effect recorded: files, figures, log records, random requests, and the objects the computation is made of.
"""
import itertools
import os
import shutil

import numpy as np

from mc import env, problems as P, rng

NAMES = ('projectname', 'runtime', 'target', 'npaths', 'duration', 'nrealizations', 'base', 'c_dist', 'p_dist', 't_dist', 'stochastic_wells', 'observations',
         'buffer', 'spacing', 'umbra', 'smooth', 'confined', 'tol', 'maxstep')
REQUIRED = NAMES[:12]

_count = itertools.count()


def arguments(wells='single', regime='confined', nrealizations=1, **over):
    """A small valid run, as a dict of its arguments."""
    p = P.problem(wells, regime, duration=3.0, npaths=2, spacing=5.0, umbra=4.0, tol=0.1, maxstep=5.0, **{n: over.pop(n) for n in ('k', 'n', 'thick', 'many', 'std', 'lists', 'turned', 'ox', 'oy') if n in over})
    if p['lists']:
        p['wells'], p['obs'] = [list(w) for w in p['wells']], [list(o) for o in p['obs']]
    a = dict(projectname='tiny project', runtime='Mon Jan  1 00:00:00 2024', target=p['target'], npaths=p['npaths'], duration=p['duration'], nrealizations=nrealizations,
             base=p['base'], c_dist=p['c_dist'], p_dist=p['p_dist'], t_dist=p['t_dist'], stochastic_wells=p['wells'], observations=p['obs'], buffer=25.0,
             spacing=p['spacing'], umbra=p['umbra'], smooth=1, confined=p['confined'], tol=p['tol'], maxstep=p['maxstep'])
    a.update(over)
    return a


def tokens(x):
    """'@inf' and the like, which are no literals, become what they say."""
    if isinstance(x, str) and x.startswith('@'):
        return {'@inf': float('inf'), '@-inf': float('-inf'), '@nan': float('nan'), '@object': object(), '@array': np.zeros(3)}[x]
    if isinstance(x, (tuple, list)):
        return type(x)(tokens(v) for v in x)
    return x


class Effects:
    pass


def files(d):
    return sorted(os.path.relpath(os.path.join(r, f), d) for r, _, fs in os.walk(d) for f in fs)


def run(args, source=None, keep=False, omit=(), inspect=None):
    """Run the entry point. Returns Effects: result, error, files, figures, records, draws, built (counts of models and fields made)."""
    import matplotlib.pyplot as plt
    from oneka.model import Model
    from oneka.oneka import oneka
    from oneka.probabilityfield import ProbabilityField
    d = os.path.join(env.scratch(), 'run-%d-%d' % (os.getpid(), next(_count)))
    os.makedirs(d)
    here = os.getcwd()
    e = Effects()
    e.dir, e.result, e.error = d, None, None
    built = []
    saved = []
    for cls in (Model, ProbabilityField):
        init = cls.__init__
        saved.append((cls, init))

        def wrap(cls, init):
            def __init__(self, *a, **k):
                built.append(cls.__name__)
                init(self, *a, **k)
            return __init__
        cls.__init__ = wrap(cls, init)
    src = source or rng.Env()
    plt.close('all')
    try:
        os.chdir(d)
        with rng.active(src), env.LogTap() as tap:
            try:
                e.result = oneka(*[args[n] for n in REQUIRED], **{n: args[n] for n in NAMES[12:] if n in args and n not in omit})
            except Exception as x:
                e.error = x
        if inspect is not None:
            inspect(e, plt)
    finally:
        os.chdir(here)
        for cls, init in saved:
            cls.__init__ = init
        e.figures = len(plt.get_fignums())
        plt.close('all')
        e.files = files(d)
        e.tap = tap
        e.draws = len(src.requests)
        e.built = built
        if not keep:
            shutil.rmtree(d, ignore_errors=True)
    return e


def through(p, n, buffer, extra=(), source=None, smooth=1):
    """
    The field of a problem run through the entry point, and the observations that its fit is made from: the extra ones are added to those of the problem. The field must be the one that
    the engine makes of the same settings and of the filtered observations, by way of the same velocity evaluations (source: makes the random source, once for each).
    """
    from mc import ref
    from mc.core import Bad
    from oneka.deterministic import create_deterministic_capturezone
    from oneka.model import Model
    from oneka.stochastic import create_stochastic_capturezone
    from oneka.utilities import filter_obs
    obs = list(p['obs'])
    obs[3:3] = list(extra)
    a = dict(projectname='through', runtime='then', target=p['target'], npaths=p['npaths'], duration=p['duration'], nrealizations=n, base=p['base'], c_dist=p['c_dist'], p_dist=p['p_dist'],
             t_dist=p['t_dist'], stochastic_wells=[(list if p.get('lists') else tuple)(w) for w in p['wells']], observations=[list(o) for o in obs] if p.get('lists') else obs, buffer=buffer, spacing=p['spacing'], umbra=p['umbra'], smooth=smooth,
             confined=p['confined'], tol=p['tol'], maxstep=p['maxstep'])
    active = ref.filter_obs(obs, p['wells'], buffer)
    asked = []
    saved = [(k, getattr(Model, k)) for k in ('compute_velocity', 'compute_velocity_confined') if hasattr(Model, k)]

    def wrap(f):
        def g(self, x, y, *r, **k):
            asked.append((float(x), float(y)))
            return f(self, x, y, *r, **k)
        return g
    for k, f in saved:
        setattr(Model, k, wrap(f))
    try:
        e = run(a, source() if source else None)
        if e.error is not None:
            raise Bad('the run fails: %s: %s' % (type(e.error).__name__, e.error))
        first = list(asked)
        del asked[:]
        q = dict(p, obs=filter_obs(a['observations'], a['stochastic_wells'], buffer))
        with rng.active(source() if source else rng.Env()):
            direct = create_stochastic_capturezone(*P.args_stochastic(q, n)) if n > 1 else create_deterministic_capturezone(*P.args_deterministic(q))
    finally:
        for k, f in saved:
            setattr(Model, k, f)
    pf = e.result
    g, h = np.asarray(pf.pgrid, float), np.asarray(direct.pgrid, float)
    if (pf.deltax, pf.deltay) != (direct.deltax, direct.deltay) or max(abs(pf.xmin - direct.xmin), abs(pf.ymin - direct.ymin)) > 1e-6 or g.shape != h.shape or not np.allclose(g, h):
        raise Bad('the run returns another field than the engine makes of its settings: %r nodes captured instead of %r' % (int((g > 0).sum()), int((h > 0).sum())))
    if abs(pf.total_weight - direct.total_weight) > 1e-9:
        raise Bad('the run returns the total weight %r, the engine %r' % (pf.total_weight, direct.total_weight))
    if first and asked and (len(first) != len(asked) or np.abs(np.array(first) - np.array(asked)).max() > 1e-6):
        raise Bad('the run traces with other settings than it was given: %d velocity evaluations instead of %d' % (len(first), len(asked)))
    return pf, active


def warm():
    """Load everything a run needs once, before the workers are forked; what goes wrong here will go wrong in a case."""
    try:
        run(arguments(nrealizations=2))
    except Exception:
        pass
