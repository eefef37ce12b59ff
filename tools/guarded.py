"""
Guarded mutants (a development tool; no check uses it): a statement is skipped, or its result distorted, only where a condition on the inputs holds.
    guarded.py list | run OUT.jsonl [-j N] [-f SUBSTRING] [-n COUNT] [-b] [-c CHECK,...]
Works in scratch copies of /repo under /tmp.
"""
import ast
import concurrent.futures as cf
import copy
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mutate as M

W = ['len(stochastic_wells) > 2', 'target > 0', 'stochastic_wells[target][2] >= 1', 'any(w[0] < stochastic_wells[target][0] - 100 for w in stochastic_wells)', 'abs(stochastic_wells[target][0]) > 1e5', 'isinstance(stochastic_wells[0], list)',
     'any(np.min(w[3]) < 0 for w in stochastic_wells)', 'any(isinstance(w[3], (tuple, list)) and len(w[3]) == 3 for w in stochastic_wells)']
D = ['not confined', 'base < 0', 'isinstance(c_dist, (tuple, list)) and len(c_dist) == 3', 'isinstance(p_dist, (tuple, list)) and len(p_dist) == 2', 'isinstance(t_dist, (tuple, list)) and isinstance(c_dist, (tuple, list))', 'duration < 0', 'duration > 100', 'npaths > 10', 'npaths == 1',
     'spacing > umbra', 'tol < 0.05', 'maxstep > 20', 'np.max(t_dist) < 10', 'np.max(p_dist) > 0.3', 'len(observations) > 20', 'observations[0][0] > observations[-1][0]', 'np.min([o[3] for o in observations]) < 0.01']
RUN = W + D + ['nrealizations > 1', 'nrealizations > 3', 'smooth == 0', 'smooth > 1', 'buffer < 5', 'buffer > 100', 'isinstance(observations[0], list)', 'isinstance(duration, int)', 'isinstance(base, int) and nrealizations == 1', 'len(projectname) > 20', 'spacing < 2', 'umbra != int(umbra)']
PFC = ['self.deltax != self.deltay', 'self.deltax < 1', 'self.ncols > 40', 'self.nrows > self.ncols', 'self.total_weight > 2', '0 < self.total_weight < 1', 'self.rgrid.any() and self.pgrid.any()', 'getattr(self, "xmin", 0) > 1e5', 'getattr(self, "ymax", 0) < 0', 'self.rgrid.sum() > 60']
PLOT = W[:6] + ['pf.nrows > pf.ncols', 'pf.deltax != pf.deltay', 'pf.total_weight < 1', 'pf.total_weight > 5', 'pf.xmin > 1e5', '(pf.pgrid == pf.total_weight).all()', '(pf.pgrid > 0).sum() < 3', 'pf.pgrid[0].any()', 'pf.ncols > 20', 'len(obs) > 7']
MOD = ['self.base < 0', 'self.base > 50', 'self.thickness < 5', 'self.conductivity > 100', 'len(self.wells) > 2', 'any(w[3] < 0 for w in self.wells)', 'any(w[3] == 0 for w in self.wells)', 'abs(self.xo) > 1e5', 'self.xo != 0 and self.yo == 0', 'self.coef[2] == 0', 'self.coef[0] > 0', 'any(w[2] >= 1 for w in self.wells)',
       'isinstance(self.wells, tuple)', 'self.porosity > 0.3']
XY = ['x == self.xo', 'y < self.yo', 'x > self.xo and y > self.yo', 'any(x == w[0] for w in self.wells)', 'any(np.hypot(x - w[0], y - w[1]) < w[2] for w in self.wells)', 'all(np.hypot(x - w[0], y - w[1]) > 300 for w in self.wells)']
OBS = ['len(obs) > 20', 'len(obs) == 7', 'np.min([o[3] for o in obs]) < 0.01', 'np.max([o[3] for o in obs]) > 1', 'isinstance(obs[0], list)', 'xo != obs[0][0] and xo > 1e5']
CONDS = {
    'distancesquared': ['ax == bx and ay < by', 'ay == by and ax > bx', 'cx == ax', 'abs(bx - ax) > 50', 'abs(cx) > 1e5', 'ax < 0 < bx', 'ax*by == bx*ay', '(bx - ax)*(by - ay) < 0', 'abs(cx - ax) > 5*abs(bx - ax)', 'ax == bx and ay == by', 'abs(bx - ax) < 0.01'],
    'insert': PFC + ['umbra < self.deltax/4', 'umbra > 3*self.deltax', 'ax > bx and ay < by', 'ax == bx', 'ax == bx and ay == by', 'min(ax, bx) - umbra < self.xmin'],
    'rasterize': PFC + ['len(x) > 20', 'len(x) == 3', 'x[0] > x[-1]', 'x[0] == x[-1] and y[0] == y[-1]', 'umbra < 0.5', 'umbra > 3', 'isinstance(x, np.ndarray)'],
    'expand': PFC + ['xmin == xmax', 'ymin == ymax', 'xmin < 0 < xmax and ymin > 0', 'self.ncols == 0 and xmin != xmax', 'getattr(self, "xmin", 0) > xmin and getattr(self, "ymax", 0) < ymax', 'getattr(self, "xmax", 0) + 5*self.deltax < xmax'],
    'register': PFC + ['weight < 0.2', 'weight > 10', 'weight != int(weight)', 'isinstance(weight, int)'],
    'reset': PFC,
    'compute_potential': MOD + XY, 'compute_potential_wells_only': MOD + XY, 'compute_discharge': MOD + XY, 'compute_head': MOD + XY, 'compute_velocity': MOD + XY, 'compute_velocity_confined': MOD + XY,
    'fit_regional_flow': MOD + OBS, 'construct_fit': MOD + OBS, 'compute_fit': ['len(WA) > 20', 'len(WA) == 7', 'np.max(WA) > 1e6', 'WA[0, 5] < 0.1', 'np.max(np.abs(Wb)) > 1e4'],
    'compute_capturezone': ['npaths > 8', 'npaths % 2 == 1 and npaths > 1', 'weight != 1', 'rtarget > 2', 'rtarget < 0.2', 'duration < 0', 'pfield.total_weight > 0', 'umbra < 1', 'umbra > 10*pfield.deltax', 'pfield.deltax != pfield.deltay', 'abs(xtarget) > 1e5', 'tol > 0.5', 'npaths > 100', 'duration > 1000'],
    'compute_backtrace': ['duration < 0', 'tol < 0.01', 'tol > 0.5', 'maxstep > 20', 'maxstep < 0.6', 'xs > 1e5', 'abs(duration) > 300', 'abs(duration) < 0.05', 'ys < 0 < xs', 'isinstance(duration, int)', 'len(vertices) > 50', 'len(vertices) == 2', 'abs(t) > 100'],
    'create_stochastic_capturezone': W + D + ['nrealizations > 2', 'nrealizations == 1'], 'create_deterministic_capturezone': W + D,
    'generate_random_variate': ['isinstance(arg, list)', 'np.min(arg) < 0', 'np.max(arg) > 1000', 'np.size(arg) == 3 and arg[0] == arg[1]', 'np.size(arg) == 3 and arg[1] == arg[2]', 'np.size(arg) == 2 and arg[0] == arg[1]', 'isinstance(arg, int)', 'np.size(arg) == 2 and arg[1] - arg[0] < 0.1', 'np.size(arg) == 1 and arg == 0'],
    'isdistribution': ['isinstance(arg, list)', 'np.min(arg) < 0', 'np.size(arg) == 3 and arg[0] == arg[1]', 'np.size(arg) == 2 and arg[0] == lb', 'np.size(arg) == 3 and arg[2] == ub', 'isinstance(arg, int)', 'ub == np.inf and lb == 0 and np.size(arg) == 2', 'np.size(arg) > 3'],
    'filter_obs': ['len(observations) > 20', 'len(wellfield) > 2', 'buffer < 1', 'isinstance(observations[0], list)', 'isinstance(buffer, int)', 'any(o[2] < 0 for o in observations)', 'any(o[3] < 0.01 for o in observations)', 'any(w[2] > 1 for w in wellfield)', 'observations and observations[0][0] > 1e5', 'len(observations) > 3 and observations[0][:2] == observations[-1][:2]',
                   'len(set(o[3] for o in observations)) == 1'],
    'summary_statistics': ['len(values) > 50', 'len(values[0]) == 1', 'len(values) == 1', 'len(values[0]) > 4', 'any(v[0] < 0 for v in values)', 'any(v[-1] != v[-1] for v in values)', 'isinstance(values, np.ndarray)', 'len(values) % 2 == 0 and values[0][0] > 1000', 'len(title) > 12', 'formats[0] != formats[-1]', 'all(v[0] == values[0][0] for v in values)'],
    'log_the_run': RUN, 'oneka': RUN, 'dump_oneka': RUN + ['pfield is None', 'pfield is not None and pfield.total_weight > 1'], 'load_oneka': ['len(filename) > 30'],
    'contour_head': ['nrows > ncols', 'ncols > nrows', 'xmin < 0 < xmax', 'nrows > 20', 'ymin > 1e5', 'xmax - xmin > 100', 'len(mo.wells) > 0', 'nrows == ncols', 'nrows == 2'], 'contour_potential': ['nrows > ncols', 'ncols > nrows', 'xmin < 0 < xmax', 'nrows > 20', 'ymin > 1e5', 'len(mo.wells) > 0', 'nrows == ncols', 'nrows == 2'],
    'create_probability_plot': PLOT + ['smooth > 2', '0 < smooth < 1', 'isinstance(smooth, int) and smooth > 0'], 'create_deterministic_plot': PLOT,
    'create_impact_plot': ['pf.nrows > pf.ncols', 'pf.total_weight < 1', 'pf.total_weight > 5', 'pf.xmin > 1e5', '(pf.pgrid == pf.total_weight).all()', '(pf.pgrid > 0).sum() < 3', 'pf.ncols > 20', 'spacing < 1', 'spacing > 20', 'pf.pgrid[0].any()'],
    'main': ['m.NREALIZATIONS > 1', 'm.SMOOTH == 0', 'm.DURATION < 0', 'len(m.WELLS) > 1', 'm.TARGET > 0', 'not m.CONFINED', 'n > 0', 'len(m.OBSERVATIONS) > 20', 'm.SPACING != m.UMBRA'],
}
CONDS['compute_variate_mean'] = CONDS['generate_random_variate']
HELP = '''
def _p(v):
    import numpy
    if isinstance(v, (bool, numpy.bool_)):
        return not v
    if isinstance(v, (int, numpy.integer)):
        return v + 1
    if isinstance(v, (float, numpy.floating)):
        return v*1.03
    if isinstance(v, numpy.ndarray):
        return ~v if v.dtype == bool else v*1.03
    if isinstance(v, list) and len(v) > 1:
        return v[1:] + v[:1]
    if isinstance(v, tuple) and len(v) > 1:
        return v[1:] + v[:1]
    return v
'''


def guarded(f):
    src = open(os.path.join('/repo', f)).read()
    base = ast.parse(src)
    names = {n.name for n in ast.walk(base) if isinstance(n, ast.FunctionDef)}
    out = []
    for fn in sorted(names & set(CONDS)):
        node = [n for n in ast.walk(base) if isinstance(n, ast.FunctionDef) and n.name == fn][0]
        stmts = [n for n in ast.walk(node) if isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr, ast.Return, ast.Assert, ast.Raise)) and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant))]
        for k, s in enumerate(stmts):
            ops = ['skip']
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], (ast.Name, ast.Attribute, ast.Subscript)) or isinstance(s, ast.AugAssign):
                ops.append('distort')
            if isinstance(s, ast.Return):
                ops = ['return']
            if isinstance(s, ast.Assert):
                ops = ['skip']
            for op in ops:
                for c in CONDS[fn]:
                    out.append((f, fn, k, op, c, '%s:%d %s if %s: %s' % (f, s.lineno, op, c, ast.unparse(s)[:80].replace('\n', ' '))))
    return out


def build(m):
    f, fn, k, op, c, desc = m
    tree = ast.parse(open(os.path.join('/repo', f)).read())
    node = [n for n in ast.walk(tree) if isinstance(n, ast.FunctionDef) and n.name == fn][0]
    stmts = [n for n in ast.walk(node) if isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr, ast.Return, ast.Assert, ast.Raise)) and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant))]
    s = stmts[k]
    cond = ast.parse(c, mode='eval').body

    class T(ast.NodeTransformer):
        def visit(self, n):
            if n is s:
                if op == 'skip':
                    return ast.If(test=ast.UnaryOp(op=ast.Not(), operand=cond), body=[n], orelse=[])
                if op == 'return':
                    return ast.Return(value=ast.IfExp(test=cond, body=ast.Call(func=ast.Name('_p', ast.Load()), args=[copy.deepcopy(n.value)], keywords=[]), orelse=n.value)) if n.value else n
                t = n.targets[0] if isinstance(n, ast.Assign) else n.target
                load = ast.parse(ast.unparse(t), mode='eval').body
                return [n, ast.If(test=cond, body=[ast.Assign(targets=[t], value=ast.Call(func=ast.Name('_p', ast.Load()), args=[load], keywords=[]))], orelse=[])]
            return self.generic_visit(n)
    T().visit(tree)
    ast.fix_missing_locations(tree)
    return ast.unparse(tree) + HELP


def attempt(m):
    f, fn, desc = m[0], m[1], m[5]
    d = tempfile.mkdtemp(prefix='mut-', dir='/tmp')
    r = os.path.join(d, 'repo')
    try:
        shutil.copytree('/repo', r, ignore=shutil.ignore_patterns('.git', '__pycache__', 'logs'))
        open(os.path.join(r, f), 'w').write(build(m))
        env = dict(os.environ, PYTHONPATH=r, MPLBACKEND='Agg', VERIF_REPO=r, VERIF_PROCS='1', VERIF_TIER='quick')
        try:
            t = subprocess.run([M.PY, '-B', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', 'tests'], cwd=r, env=env, capture_output=True, timeout=60)
        except subprocess.TimeoutExpired:
            return dict(m=desc, by='tests-hang')
        if t.returncode:
            return dict(m=desc, by='tests')
        order = M.BY.get(fn, M.FIRST[f]).split()
        if '-c' in sys.argv:
            order = sys.argv[sys.argv.index('-c') + 1].split(',')
        elif '-b' not in sys.argv:
            order += [c for c in M.FIRST[f].split() if c not in order]
            order += [c for c in M.SLOW.get(f, '').split() if c not in order]
        v = os.path.join(d, 'verif')
        shutil.copytree(M.VERIF, v, ignore=shutil.ignore_patterns('.git', 'seeded', 'evidence', 'replays'))
        for c in order:
            try:
                k = subprocess.run([M.PY, '-B', '-m', 'mc.run', c, 'quick'], cwd=v, env=env, capture_output=True, text=True, timeout=600)
            except subprocess.TimeoutExpired:
                return dict(m=desc, by='TIMEOUT ' + c)
            if k.returncode:
                hit = 'VIOLATION property=' + c in k.stdout
                return dict(m=desc, by=c if hit else 'CRASH %s %d' % (c, k.returncode), what=(k.stdout[-400:] if hit else k.stderr[-600:]))
        return dict(m=desc, by='SURVIVED', fn=fn)
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == '__main__':
    ms = [m for f in M.FILES for m in guarded(f)]
    dull = ('plt.colorbar', 'plt.ylabel', 'plt.xlabel', 'plt.grid', 'plt.axis', 'plt.xticks', 'log.error', "log.info(' OO", "log.info(' O", "log.info('      ", "log.info('Note", "log.info('')", 'DistributionError', 'plt.xlim', 'log.debug', "log.info('=", "log.info('-")
    ms = [m for m in ms if not any(d in m[5] for d in dull)]
    if '-f' in sys.argv:
        ms = [m for m in ms if sys.argv[sys.argv.index('-f') + 1] in m[5]]
    if sys.argv[1] == 'list':
        for m in ms:
            print(m[5])
        print(len(ms))
    else:
        done = set()
        if os.path.exists(sys.argv[2]):
            done = {json.loads(l)['m'] for l in open(sys.argv[2])}
        # evenly over the functions
        by = {}
        for m in ms:
            by.setdefault(m[1], []).append(m)
        R = random.Random(3)
        for v in by.values():
            R.shuffle(v)
        order = [v[k] for k in range(max(map(len, by.values()))) for v in by.values() if k < len(v)]
        n = int(sys.argv[sys.argv.index('-n') + 1]) if '-n' in sys.argv else len(order)
        order = [m for m in order[:n] if m[5] not in done]
        j = int(sys.argv[sys.argv.index('-j') + 1]) if '-j' in sys.argv else 7
        with cf.ThreadPoolExecutor(j) as ex, open(sys.argv[2], 'a') as out:
            for k in cf.as_completed([ex.submit(attempt, m) for m in order]):
                out.write(json.dumps(k.result()) + '\n')
                out.flush()
