#!/usr/bin/env python3
"""
Mechanical behaviour-preserving rewritings of all of oneka/*.py at once, run against the tests and all checks,
which must stay quiet.  usage: rewrite.py [NAME ...] [Cnn ...]
"""
import ast
import builtins
import glob
import os
import shutil
import subprocess
import sys
import tempfile
import time

PY = '/opt/venv/bin/python'
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = {}


def rewriting(f):
    W[f.__name__] = f
    return f


def functions(t):
    return [n for n in ast.walk(t) if isinstance(n, ast.FunctionDef)]


def bound(f):
    """Names the function assigns (parameters not included); None if it is not simple."""
    out = set()
    for n in ast.walk(f):
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            return set()
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.add(n.id)
    args = {a.arg for n in ast.walk(f) if isinstance(n, (ast.FunctionDef, ast.Lambda)) for a in n.args.args + n.args.kwonlyargs}
    return out - args


@rewriting
def locals_renamed(t):
    for f in functions(t):
        names = bound(f)

        class R(ast.NodeTransformer):
            def visit_Name(self, n):
                if n.id in names:
                    n.id = 'v_' + n.id
                return n
        R().visit(f)
    return t


@rewriting
def comparisons_flipped(t):
    F = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}

    class R(ast.NodeTransformer):
        def visit_Compare(self, n):
            self.generic_visit(n)
            if len(n.ops) == 1 and type(n.ops[0]) in F:
                return ast.Compare(n.comparators[0], [F[type(n.ops[0])]()], [n.left])
            return n
    return R().visit(t)


@rewriting
def branches_swapped(t):
    class R(ast.NodeTransformer):
        def visit_If(self, n):
            self.generic_visit(n)
            if n.orelse and not (len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If)):
                return ast.If(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)
            return n

        def visit_IfExp(self, n):
            self.generic_visit(n)
            return ast.IfExp(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)
    return R().visit(t)


@rewriting
def sums_in_full(t):
    class R(ast.NodeTransformer):
        def visit_AugAssign(self, n):
            if isinstance(n.target, ast.Name):
                return ast.Assign([n.target], ast.BinOp(ast.Name(n.target.id, ast.Load()), n.op, n.value))
            return n
    return R().visit(t)


@rewriting
def loops_with_while(t):
    class R(ast.NodeTransformer):
        k = 0

        def visit_For(self, n):
            self.generic_visit(n)
            if n.orelse:
                return n
            R.k += 1
            it, done = 'it_%d' % R.k, 'end_%d' % R.k
            load = lambda x: ast.Name(x, ast.Load())
            return [ast.Assign([ast.Name(it, ast.Store())], ast.Call(load('iter'), [n.iter], [])),
                    ast.Assign([ast.Name(done, ast.Store())], ast.Call(load('object'), [], [])),
                    ast.While(ast.Constant(True), [
                        ast.Assign([ast.Name(it + 'x', ast.Store())], ast.Call(load('next'), [load(it), load(done)], [])),
                        ast.If(ast.Compare(load(it + 'x'), [ast.Is()], [load(done)]), [ast.Break()], []),
                        ast.Assign([n.target], load(it + 'x'))] + n.body, [])]
    return R().visit(t)


@rewriting
def bodies_in_helpers(t):
    """def f(a, b): BODY  ->  def _f_body(a, b): BODY; def f(a, b): return _f_body(a, b)"""
    def go(body, cls):
        out = []
        for n in body:
            if isinstance(n, ast.ClassDef):
                n.body = go(n.body, True)
            if isinstance(n, ast.FunctionDef) and not n.args.vararg and not n.args.kwarg and not any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(n)) and not n.decorator_list:
                if not any(isinstance(x, ast.Name) and x.id == 'super' for x in ast.walk(n)) and not n.args.kwonlyargs:
                    args = [a.arg for a in n.args.args]
                    g = ast.FunctionDef('_%s_body' % n.name.strip('_'), ast.arguments([], [ast.arg(a) for a in args], None, [], [], None, []), n.body, [], None)
                    call = ast.Call(ast.Attribute(ast.Name(args[0], ast.Load()), g.name, ast.Load()), [ast.Name(a, ast.Load()) for a in args[1:]], []) if cls else \
                        ast.Call(ast.Name(g.name, ast.Load()), [ast.Name(a, ast.Load()) for a in args], [])
                    n.body = [ast.Return(call)]
                    out.append(g)
            out.append(n)
        return out
    t.body = go(t.body, False)
    return t


@rewriting
def results_named(t):
    class R(ast.NodeTransformer):
        def visit_Return(self, n):
            if n.value is None:
                return n
            return [ast.Assign([ast.Name('result_', ast.Store())], n.value), ast.Return(ast.Name('result_', ast.Load()))]

        def visit_Lambda(self, n):
            return n
    return R().visit(t)


@rewriting
def conditions_named(t):
    class R(ast.NodeTransformer):
        def visit_If(self, n):
            self.generic_visit(n)
            return [ast.Assign([ast.Name('condition_', ast.Store())], n.test), ast.If(ast.Name('condition_', ast.Load()), n.body, n.orelse)]
    class S(R):
        def visit_If(self, n):
            r = R.visit_If(self, n)
            return r
    for f in functions(t):
        f.body = [y for x in f.body for y in (lambda z: z if isinstance(z, list) else [z])(S().visit(x))]
    return t


@rewriting
def modules_qualified(t):
    """from oneka.m import f  ->  import oneka.m; oneka.m.f (where nothing else is called oneka)"""
    names = {}
    out = []
    for n in t.body:
        if isinstance(n, ast.ImportFrom) and (n.module or '').startswith('oneka') and not n.level:
            m = 'the_' + n.module.split('.')[-1]
            out.append(ast.Import([ast.alias(n.module, m)]))
            for a in n.names:
                names[a.asname or a.name] = (m, a.name)
        else:
            out.append(n)
    t.body = out

    class R(ast.NodeTransformer):
        def visit_Name(self, n):
            if n.id in names and isinstance(n.ctx, ast.Load):
                m, a = names[n.id]
                return ast.Attribute(ast.Name(m, ast.Load()), a, ast.Load())
            return n
    return R().visit(t)


@rewriting
def numpy_by_name(t):
    """np.f -> f imported from numpy under another name, at module level"""
    used = set()

    class R(ast.NodeTransformer):
        def visit_Attribute(self, n):
            self.generic_visit(n)
            if isinstance(n.value, ast.Name) and n.value.id == 'np' and n.attr not in ('random', 'linalg', 'newaxis', 'pi', 'inf', 'nan'):
                used.add(n.attr)
                return ast.Name('np_' + n.attr, n.ctx)
            return n
    R().visit(t)
    if used:
        i = max(k for k, n in enumerate(t.body) if isinstance(n, (ast.Import, ast.ImportFrom))) + 1
        t.body.insert(i, ast.ImportFrom('numpy', [ast.alias(a, 'np_' + a) for a in sorted(used)], 0))
    return t


@rewriting
def comprehensions_looped(t):
    """x = [e for a in b if c] -> a loop"""
    class R(ast.NodeTransformer):
        k = 0

        def visit_Assign(self, n):
            v = n.value
            if isinstance(v, ast.ListComp) and len(v.generators) == 1:
                g = v.generators[0]
                R.k += 1
                acc = 'acc_%d' % R.k
                body = ast.Expr(ast.Call(ast.Attribute(ast.Name(acc, ast.Load()), 'append', ast.Load()), [v.elt], []))
                for c in g.ifs[::-1]:
                    body = ast.If(c, [body], [])
                return [ast.Assign([ast.Name(acc, ast.Store())], ast.List([], ast.Load())), ast.For(g.target, g.iter, [body], []), ast.Assign(n.targets, ast.Name(acc, ast.Load()))]
            return n
    for f in functions(t):
        R().visit(f)
    return t


@rewriting
def loops_comprehended_calls_starred(t):
    """f(a, b) -> f(*(a, b)) for calls of plain names of the repository's functions"""
    class R(ast.NodeTransformer):
        def visit_Call(self, n):
            self.generic_visit(n)
            if isinstance(n.func, (ast.Name,)) and len(n.args) > 1 and n.func.id not in dir(builtins) and not any(isinstance(a, ast.Starred) for a in n.args):
                n.args = [ast.Starred(ast.Tuple(n.args, ast.Load()), ast.Load())]
            return n
    return R().visit(t)


@rewriting
def asserts_and_docs_stripped(t):
    for n in ast.walk(t):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            n.body[0] = ast.Pass()
    return t


@rewriting
def annotated_and_typed(t):
    for f in functions(t):
        for a in f.args.args:
            a.annotation = None
        f.returns = ast.Constant('object')
    return t


@rewriting
def squares_multiplied(t):
    """a**2 -> a*a for names"""
    class R(ast.NodeTransformer):
        def visit_BinOp(self, n):
            self.generic_visit(n)
            if isinstance(n.op, ast.Pow) and isinstance(n.right, ast.Constant) and n.right.value == 2 and isinstance(n.left, (ast.Name, ast.Attribute)):
                return ast.BinOp(n.left, ast.Mult(), n.left)
            return n
    return R().visit(t)


@rewriting
def sums_commuted(t):
    """a + b -> b + a for arithmetic of plain names and numbers, a*b -> b*a"""
    def plain(n):
        return isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) or isinstance(n, ast.Attribute) or isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Mult, ast.Div, ast.Pow, ast.Sub))

    class R(ast.NodeTransformer):
        def visit_BinOp(self, n):
            self.generic_visit(n)
            if isinstance(n.op, ast.Mult) and not any(isinstance(x, (ast.List, ast.Tuple, ast.JoinedStr)) or isinstance(x, ast.Constant) and isinstance(x.value, str) for x in (n.left, n.right)):
                return ast.BinOp(n.right, n.op, n.left)
            if isinstance(n.op, ast.Add) and plain(n.left) and plain(n.right):
                return ast.BinOp(n.right, n.op, n.left)
            return n
    return R().visit(t)


@rewriting
def logging_off_by_null(t):
    """log = logging.getLogger(...) under another name"""
    class R(ast.NodeTransformer):
        def visit_Name(self, n):
            if n.id == 'log':
                n.id = 'logger'
            return n
    return R().visit(t)


@rewriting
def guards_nested(t):
    """if a and b: -> if a: if b: (no else);  a or b raising -> two ifs"""
    class R(ast.NodeTransformer):
        def visit_If(self, n):
            self.generic_visit(n)
            if not n.orelse and isinstance(n.test, ast.BoolOp):
                if isinstance(n.test.op, ast.And):
                    b = n.body
                    for c in n.test.values[::-1]:
                        b = [ast.If(c, b, [])]
                    return b
                if len(n.body) == 1 and isinstance(n.body[0], ast.Raise):
                    return [ast.If(c, n.body, []) for c in n.test.values]
            return n
    return R().visit(t)


@rewriting
def calls_by_keyword(t, defs={}):
    """calls of the repository's module-level functions pass everything by keyword"""
    if not defs:
        for p in glob.glob('/repo/oneka/*.py'):
            for n in ast.parse(open(p).read()).body:
                if isinstance(n, ast.FunctionDef):
                    defs[n.name] = [a.arg for a in n.args.args]

    class R(ast.NodeTransformer):
        def visit_Call(self, n):
            self.generic_visit(n)
            if isinstance(n.func, ast.Name) and n.func.id in defs and not any(isinstance(a, ast.Starred) for a in n.args):
                n.keywords = [ast.keyword(k, v) for k, v in zip(defs[n.func.id], n.args)] + n.keywords
                n.args = []
            return n
    return R().visit(t)


def sh(cmd, cwd=None, env=None, timeout=3600):
    try:
        return subprocess.run(cmd, cwd=cwd, env=env, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    except subprocess.TimeoutExpired:
        return subprocess.CompletedProcess(cmd, 124, '', 'timeout')


def attempt(name, only):
    d = tempfile.mkdtemp(prefix='refac-', dir='/tmp')
    try:
        r, w = os.path.join(d, 'repo'), os.path.join(d, 'verif')
        sh(['git', 'clone', '-q', '/repo', r])
        shutil.copytree(VERIF, w, ignore=shutil.ignore_patterns('.git', 'seeded', 'evidence', 'replays', 'tmp'))
        for p in sorted(glob.glob(os.path.join(r, 'oneka', '*.py'))):
            if not os.path.getsize(p):
                continue
            t = W[name](ast.parse(open(p).read()))
            open(p, 'w').write(ast.unparse(ast.fix_missing_locations(t)) + '\n')
        t = sh([PY, '-B', '-m', 'pytest', '-q', '-p', 'no:cacheprovider'], cwd=r, env=dict(os.environ, MPLBACKEND='Agg'))
        print('%s: tests %d %s' % (name, t.returncode, t.stdout[-1500:] if t.returncode else ''), flush=True)
        if t.returncode:
            return
        for i in range(1, 25):
            c = 'C%02d' % i
            if only and c not in only:
                continue
            t0 = time.time()
            x = sh([PY, '-B', '-m', 'mc.run', c, 'quick'], cwd=w, env=dict(os.environ, VERIF_REPO=r, VERIF_SEED='1', VERIF_TIER='quick'), timeout=1800)
            if x.returncode != 0 or 'VIOLATION' in x.stdout:
                print('   %s ALARM %d %s' % (c, x.returncode, (x.stdout + x.stderr)[-700:]), flush=True)
            elif time.time() - t0 > 100:
                print('   %s slow: %.0f s' % (c, time.time() - t0), flush=True)
    finally:
        shutil.rmtree(d)


if __name__ == '__main__':
    a = sys.argv[1:]
    only = [x for x in a if x[0] == 'C' and x[1:].isdigit()]
    for n in [x for x in a if x not in only] or W:
        attempt(n, only)
