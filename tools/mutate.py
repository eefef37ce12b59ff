"""
A mutation sweep of the checks (a development tool; no check uses it).
    mutate.py list                                  the mutants, one per line
    mutate.py run OUT.jsonl [-j N] [-f SUBSTRING]   each mutant that passes the tests against the checks, nearest first, up to the first that catches it
Works in scratch copies of /repo under /tmp.
"""
import ast
import concurrent.futures as cf
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
FILES = ['oneka/probabilityfield.py', 'oneka/model.py', 'oneka/capturezone.py', 'oneka/stochastic.py', 'oneka/deterministic.py', 'oneka/utilities.py', 'oneka/oneka.py', 'oneka/archive.py', 'oneka/visualize.py', 'runme.py']
FIRST = {'oneka/probabilityfield.py': 'C01 C02 C03 C18 C10', 'oneka/model.py': 'C04 C05 C06 C18 C22', 'oneka/capturezone.py': 'C08 C09 C10 C23 C12', 'oneka/stochastic.py': 'C11 C13 C24 C14',
         'oneka/deterministic.py': 'C12 C24 C14', 'oneka/utilities.py': 'C07 C20 C24', 'oneka/oneka.py': 'C24 C17 C16 C15', 'oneka/archive.py': 'C16', 'oneka/visualize.py': 'C17 C19', 'runme.py': 'C21'}
BY = dict(contour_head='C19', contour_potential='C19', log_the_run='C24', oneka='C24 C17 C16 C15', compute_capturezone='C10 C09', compute_backtrace='C08 C09', refuse_nonfinite='C09', compute_potential='C04', compute_potential_wells_only='C04',
          compute_discharge='C04', compute_head='C05', compute_velocity='C05', compute_velocity_confined='C05', fit_regional_flow='C06 C18', construct_fit='C06', compute_fit='C06', expand='C02 C01', insert='C03 C01', rasterize='C03 C01', distancesquared='C03',
          register='C01', reset='C01', create_stochastic_capturezone='C13 C24 C10', generate_random_variate='C11', compute_variate_mean='C11', isdistribution='C11', filter_obs='C07 C24', summary_statistics='C20')
SLOW = {'oneka/oneka.py': 'C13 C12', 'oneka/stochastic.py': 'C22', 'oneka/capturezone.py': 'C22', 'oneka/visualize.py': 'C15', 'oneka/probabilityfield.py': 'C12'}
ALL = ['C%02d' % i for i in range(1, 25)]
CMP = {ast.Lt: ['<=', '>='], ast.LtE: ['<', '>'], ast.Gt: ['>=', '<='], ast.GtE: ['>', '<'], ast.Eq: ['!='], ast.NotEq: ['==']}
BIN = {ast.Add: ['-'], ast.Sub: ['+'], ast.Mult: ['/'], ast.Div: ['*'], ast.Pow: ['*']}
CALLS = {'min': 'max', 'max': 'min', 'floor': 'ceil', 'ceil': 'floor', 'cos': 'sin', 'sin': 'cos', 'zeros': 'ones', 'hypot': 'maximum', 'flip': 'array', 'sqrt': 'abs', 'log': 'log1p', 'abs': 'float', 'uniform': 'normal', 'triangular': 'uniform',
         'median': 'mean', 'mean': 'median', 'argmax': 'argmin', 'compute_velocity': 'compute_velocity_confined', 'compute_velocity_confined': 'compute_velocity'}
TWINS = [('x', 'y'), ('xmin', 'ymin'), ('xmax', 'ymax'), ('xmin', 'xmax'), ('ymin', 'ymax'), ('deltax', 'deltay'), ('nrows', 'ncols'), ('rshift', 'cshift'), ('ax', 'bx'), ('ay', 'by'), ('dx', 'dy'), ('xo', 'yo'), ('xtarget', 'ytarget'), ('pgrid', 'rgrid'),
         ('tol', 'maxstep'), ('spacing', 'umbra'), ('c_dist', 't_dist'), ('porosity', 'thickness'), ('conductivity', 'thickness'), ('est', 'ds'), ('k1', 'k2'), ('i', 'j'), ('left', 'bottom'), ('right', 'top'), ('coef_ev', 'coef_cov'), ('observations', 'obs'), ('xs', 'ys'),
         ('bax', 'bay'), ('cax', 'cay'), ('alpha2', 'beta2'), ('vmin', 'vmed'), ('vmax', 'vavg'), ('num', 'den'), ('buffer', 'spacing'), ('duration', 'tol'), ('k3', 'k4'), ('k5', 'k6'), ('xy', 'xyt'), ('t', 'dt')]
TWIN = {}
for a, b in TWINS:
    TWIN.setdefault(a, []).append(b)
    TWIN.setdefault(b, []).append(a)


SKIP = ('__repr__', '__str__', 'quick_capture_zone', 'profile_me')


def mutants(f):
    src = open(os.path.join('/repo', f)).read()
    lines = src.split('\n')
    starts = [0]
    for l in lines:
        starts.append(starts[-1] + len(l.encode()) + 1)
    b = src.encode()
    tree = ast.parse(src)
    docs = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.Module, ast.ClassDef, ast.FunctionDef)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            docs.add(id(n.body[0]))
            docs.add(id(n.body[0].value))
    out = []

    def span(n):
        return starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset

    def put(n, new, kind):
        s, e = span(n)
        if b[s:e].decode() != new:
            out.append((f, s, e, new, '%s:%d %s: %s -> %s' % (f, n.lineno, kind, b[s:e].decode()[:70].replace('\n', ' '), new[:70].replace('\n', ' '))))

    def text(n):
        s, e = span(n)
        return b[s:e].decode()
    for n in ast.walk(tree):
        if id(n) in docs:
            continue
        if isinstance(n, ast.Compare):
            for k, op in enumerate(n.ops):
                for new in CMP.get(type(op), []):
                    l = n.left if k == 0 else n.comparators[k - 1]
                    s, e = span(l)[1], span(n.comparators[k])[0]
                    mid = b[s:e].decode()
                    sym = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Eq: '==', ast.NotEq: '!='}[type(op)]
                    out.append((f, s, e, mid.replace(sym, new), '%s:%d cmp: %s  [%s -> %s]' % (f, n.lineno, text(n)[:70], sym, new)))
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN and not isinstance(n.left, ast.Constant) or isinstance(n, ast.BinOp) and type(n.op) in BIN and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
            s, e = span(n.left)[1], span(n.right)[0]
            mid = b[s:e].decode()
            sym = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.Pow: '**'}[type(n.op)]
            for new in BIN[type(n.op)]:
                out.append((f, s, e, mid.replace(sym, new), '%s:%d bin: %s  [%s -> %s]' % (f, n.lineno, text(n)[:70], sym, new)))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
            put(n, '(' + text(n.operand) + ')', 'unary')
        elif isinstance(n, ast.Constant) and not isinstance(n.value, (str, bytes)) and n.value is not None:
            if isinstance(n.value, bool):
                put(n, str(not n.value), 'const')
            else:
                for v in {n.value + 1, n.value - 1} if isinstance(n.value, int) else {n.value * 1.02, 0.0}:
                    put(n, repr(v), 'const')
        elif isinstance(n, ast.Constant) and isinstance(n.value, str) and isinstance(getattr(n, 'value', None), str) and 'runme' not in f and len(n.value) < 60 and not isinstance(n, ast.JoinedStr):
            pass
        elif isinstance(n, ast.BoolOp):
            old, new = (' and ', ' or ') if isinstance(n.op, ast.And) else (' or ', ' and ')
            for k in range(len(n.values) - 1):
                s, e = span(n.values[k])[1], span(n.values[k + 1])[0]
                mid = b[s:e].decode()
                out.append((f, s, e, mid.replace(old.strip(), new.strip()), '%s:%d bool: %s  [%d]' % (f, n.lineno, text(n)[:70].replace('\n', ' '), k)))
                put(n, '(' + ' '.join(old.join('(%s)' % text(v) for j, v in enumerate(n.values) if j != k).split()) + ')', 'drop')
            put(n, '(' + ' '.join(old.join('(%s)' % text(v) for v in n.values[:-1]).split()) + ')', 'drop')
        elif isinstance(n, ast.Call):
            name = n.func.attr if isinstance(n.func, ast.Attribute) else getattr(n.func, 'id', None)
            if name in CALLS:
                s, e = span(n.func)
                t = b[s:e].decode()
                out.append((f, s, e, t[:len(t) - len(name)] + CALLS[name], '%s:%d call: %s -> %s' % (f, n.lineno, t, CALLS[name])))
            for p, q in zip(n.args, n.args[1:]):
                if isinstance(p, (ast.Name, ast.Attribute)) and isinstance(q, (ast.Name, ast.Attribute)):
                    s, e = span(p)[0], span(q)[1]
                    mid = b[span(p)[1]:span(q)[0]].decode()
                    out.append((f, s, e, text(q) + mid + text(p), '%s:%d args: %s <-> %s' % (f, n.lineno, text(p), text(q))))
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr)) and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
            put(n, 'pass', 'delete')
        if isinstance(n, ast.Assert):
            put(n, 'pass', 'delete')
        if isinstance(n, ast.Raise):
            put(n, 'pass', 'delete')
        if isinstance(n, (ast.If, ast.While)):
            put(n.test, 'False', 'if')
            if isinstance(n, ast.If):
                put(n.test, 'True', 'if')
        if isinstance(n, ast.Break):
            put(n, 'pass', 'break')
        if isinstance(n, ast.AugAssign) and type(n.op) in BIN:
            s, e = span(n.target)[1], span(n.value)[0]
            out.append((f, s, e, ' -= ' if isinstance(n.op, ast.Add) else ' += ', '%s:%d aug: %s' % (f, n.lineno, text(n)[:60])))
            out.append((f, s, e, ' = ', '%s:%d aug=: %s' % (f, n.lineno, text(n)[:60])))
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in TWIN:
            for new in TWIN[n.id]:
                put(n, new, 'twin')
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and n.attr in TWIN and isinstance(n.value, ast.Name):
            for new in TWIN[n.attr]:
                put(n, n.value.id + '.' + new, 'twin')
    seen, res = set(), []
    for m in out:
        if m[:4] not in seen:
            seen.add(m[:4])
            t = b[:m[1]] + m[3].encode() + b[m[2]:]
            try:
                compile(t, f, 'exec')
            except SyntaxError:
                continue
            inside = [n.name for n in ast.walk(tree) if isinstance(n, ast.FunctionDef) and span(n)[0] <= m[1] < span(n)[1]]
            if inside[:1] and inside[0] in SKIP:
                continue
            res.append(m + (inside[0] if inside else None,))
    return res


def attempt(m):
    f, s, e, new, desc = m[:5]
    d = tempfile.mkdtemp(prefix='mut-', dir='/tmp')
    r = os.path.join(d, 'repo')
    try:
        shutil.copytree('/repo', r, ignore=shutil.ignore_patterns('.git', '__pycache__', 'logs'))
        p = os.path.join(r, f)
        b = open(p, 'rb').read()
        open(p, 'wb').write(b[:s] + new.encode() + b[e:])
        env = dict(os.environ, PYTHONPATH=r, MPLBACKEND='Agg', VERIF_REPO=r, VERIF_PROCS='1', VERIF_TIER='quick')
        try:
            t = subprocess.run([PY, '-B', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', 'tests'], cwd=r, env=env, capture_output=True, timeout=60)
        except subprocess.TimeoutExpired:
            return dict(m=desc, by='tests-hang')
        if t.returncode:
            return dict(m=desc, by='tests')
        order = BY.get(m[5] if len(m) > 5 else None, FIRST[f]).split()
        order += [c for c in FIRST[f].split() if c not in order]
        order += [c for c in SLOW.get(f, '').split() if c not in order]
        if '-a' in sys.argv:
            order += [c for c in ALL if c not in order]
        v = os.path.join(d, 'verif')
        shutil.copytree(VERIF, v, ignore=shutil.ignore_patterns('.git', 'seeded', 'evidence', 'replays'))
        for c in order:
            try:
                k = subprocess.run([PY, '-B', '-m', 'mc.run', c, 'quick'], cwd=v, env=env, capture_output=True, text=True, timeout=600)
            except subprocess.TimeoutExpired:
                return dict(m=desc, by='TIMEOUT ' + c)
            if k.returncode:
                hit = 'VIOLATION property=' + c in k.stdout
                return dict(m=desc, by=c if hit else 'CRASH %s %d' % (c, k.returncode), what=(k.stdout[-400:] if hit else k.stderr[-600:]))
        return dict(m=desc, by='SURVIVED')
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == '__main__':
    ms = [m for f in FILES for m in mutants(f)]
    if '-f' in sys.argv:
        ms = [m for m in ms if sys.argv[sys.argv.index('-f') + 1] in m[4]]
    if sys.argv[1] == 'list':
        for m in ms:
            print(m[4])
        print(len(ms))
    else:
        done = set()
        if os.path.exists(sys.argv[2]):
            done = {json.loads(l)['m'] for l in open(sys.argv[2])}
        random.Random(1).shuffle(ms)
        ms = [m for m in ms if m[4] not in done]
        j = int(sys.argv[sys.argv.index('-j') + 1]) if '-j' in sys.argv else 7
        with cf.ThreadPoolExecutor(j) as ex, open(sys.argv[2], 'a') as out:
            for k in cf.as_completed([ex.submit(attempt, m) for m in ms]):
                out.write(json.dumps(k.result()) + '\n')
                out.flush()
