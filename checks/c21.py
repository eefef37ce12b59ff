"""
C21: the driver of the real code on every shipped data module, on synthetic modules with every setting (and pair of settings) varied,
and on every history of driver runs up to a depth, with what reaches the entry point and the log files recorded; the shipped modules run for real.
"""
import contextlib
import importlib
import inspect
import io
import itertools
import os
import pkgutil
import shutil
import subprocess
import sys
import time

import numpy as np

from mc import clock, env, rng, runs
from mc.core import Bad

ID = 'C21'
LEVEL = 'exploration'
RULE = ('every module of the package data: attributes, the real driver with the entry point recorded, and a real run of every module in both modes with a short duration; synthetic modules with every '
        'setting set to each value of its alphabet, and every pair of settings set to other values; all histories of driver runs up to length 3 (thorough: 5) over {two good modules, a failing one, a '
        'missing one}; an outcome is what the entry point received')
ASSUMPTIONS = ['the clock is frozen during a driver run; runs of a history are 0, 1 or 61 seconds apart']

ENTRY = dict(PROJECTNAME='projectname', TARGET='target', NPATHS='npaths', DURATION='duration', NREALIZATIONS='nrealizations', BASE='base', C_DIST='c_dist', P_DIST='p_dist', T_DIST='t_dist',
             WELLS='stochastic_wells', OBSERVATIONS='observations', BUFFER='buffer', SPACING='spacing', UMBRA='umbra', SMOOTH='smooth', CONFINED='confined', TOL='tol', MAXSTEP='maxstep')
T0 = 1704200000

OBS = [(float(x), float(y), 40.0 + 0.01 * x - 0.005 * y, 1.5 + 0.01 * i) for i, (x, y) in enumerate([(-310, -240), (-290, 60), (-250, 300), (20, 330), (270, 280), (350, 30), (280, -260), (-30, -350), (190, 140)])]
WELLS = [(0.0, 0.0, 0.25, 450.0), (120.0, 90.0, 0.3, (100, 150, 200)), (-90.0, 130.0, 0.2, (60.0, 80.0))]
ALPHABET = dict(
    PROJECTNAME=['A synthetic project', '', 'Projekt "ä" 2'],
    TARGET=[1, 0, 2], NPATHS=[7, 1, 200, 3600, 0, 2.0], DURATION=[11.5, 3652, -365.25, 3652.5, 365000.0, 0.01], NREALIZATIONS=[5, 1, 2, 400, 5000, 1000000], BASE=[3.25, 0, -20.5, 400, -1500.0],
    C_DIST=[(15.0, 20.0, 26.0), 17.5, (14.0, 18.5), [12, 13], 0, ()], P_DIST=[(0.2, 0.24), 0.21, (0.1, 0.15, 0.3), [0.25, 0.3], 0.0, 1.5], T_DIST=[(20.0, 24.5, 27.0), 31, (19.0, 22.5), [16.5, 17.5, 18.5], 0, -2.0],
    BUFFER=[103.0, 1, 0.5, 0, 1e-9], SPACING=[9.5, 2, 0.25, 0, -1.0], UMBRA=[12.25, 4, 0.75, 0, 0.0], SMOOTH=[2, 0, 1.5, 40], CONFINED=[True, False], TOL=[0.875, 1.25, 6, 1e-6, 0], MAXSTEP=[8.5, 10, 0.375, 1000, 0],
    WELLS=[WELLS, [list(w) for w in WELLS], WELLS[::-1], []], OBSERVATIONS=[OBS, [list(o) for o in OBS], OBS[::-1], [], OBS[:3]])
SETTINGS = list(ALPHABET)


def snapshot(m):
    return {k: repr(getattr(m, k)) for k in SETTINGS}


class Sandbox:
    """A working directory, with a package path for synthetic modules; a fresh driver imported into it, the entry point possibly recorded."""
    n = 0

    def __init__(self, recorder=None):
        self.recorder = recorder

    def __enter__(self):
        Sandbox.n += 1
        self.dir = os.path.join(env.scratch(), 'drv-%d-%d' % (os.getpid(), Sandbox.n))
        self.pkg = os.path.join(self.dir, 'modules')
        os.makedirs(os.path.join(self.dir, 'cwd', 'logs'))
        os.makedirs(self.pkg)
        self.here = os.getcwd()
        os.chdir(os.path.join(self.dir, 'cwd'))
        sys.path.insert(0, self.pkg)
        self.before = set(sys.modules)
        m = importlib.import_module('oneka.oneka')
        self.module, self.real = m, m.oneka
        if self.recorder is not None:
            m.oneka = self.recorder
        sys.modules.pop('runme', None)
        try:
            self.main = importlib.import_module('runme').main
        except BaseException:
            self.__exit__()
            raise
        return self

    def __exit__(self, *a):
        os.chdir(self.here)
        self.module.oneka = self.real
        if self.pkg in sys.path:
            sys.path.remove(self.pkg)
        for k in set(sys.modules) - self.before:
            if getattr(sys.modules[k], '__file__', None) and sys.modules[k].__file__.startswith(self.dir):
                del sys.modules[k]
        sys.modules.pop('runme', None)
        shutil.rmtree(self.dir, ignore_errors=True)
        return False

    def write(self, name, values):
        d = self.pkg
        *pk, name = name.split('.')
        for p in pk:
            d = os.path.join(d, p)
            os.makedirs(d, exist_ok=True)
            open(os.path.join(d, '__init__.py'), 'a').close()
        with open(os.path.join(d, name + '.py'), 'w', encoding='utf-8') as f:
            for k, v in values.items():
                f.write('%s = %r\n' % (k, v))
        importlib.invalidate_caches()

    def drive(self, name):
        """Run the driver; returns what it prints and the exception it ends with."""
        out, err = io.StringIO(), None
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
            try:
                self.main(name)
            except Exception as e:
                err = e
        return out.getvalue(), err

    def texts(self):
        d = os.path.join(self.dir, 'cwd')
        return {f: open(os.path.join(d, f), errors='replace').read() for f in runs.files(d) if not f.endswith('.bz2')}


class Recorder:
    """Stands in for the entry point; says something in the log, as a run does, and may fail."""

    def __init__(self, fail=()):
        from oneka.oneka import oneka
        self.signature = inspect.signature(oneka)
        self.calls, self.fail, self.said = [], fail, []

    def __call__(self, *a, **k):
        import logging
        b = self.signature.bind(*a, **k)
        given = set(b.arguments)
        b.apply_defaults()
        self.calls.append((dict(b.arguments), given))
        n = len(self.calls)
        lg = logging.getLogger('Oneka')
        for lv, w in ((logging.INFO, 'information'), (logging.WARNING, 'warning'), (logging.INFO, 'last')):
            self.said.append('message<%s of %s, call %d>' % (w, b.arguments['projectname'], n))
            lg.log(lv, self.said[-1])
        if b.arguments['projectname'] in self.fail:
            raise AssertionError('the run is refused')


def received(rec, want, t, what):
    if len(rec.calls) != 1:
        raise Bad('%s: the entry point was called %d times' % (what, len(rec.calls)))
    got, given = rec.calls[0]
    for k, name in ENTRY.items():
        v, w = got[name], want[k]
        if type(v) is not type(w) or repr(v) != repr(w):
            raise Bad('%s: %s=%r of the module reaches the run as %s=%r' % (what, k, w, name, v))
    if got['runtime'] != time.asctime(time.localtime(t)):
        raise Bad('%s: the run time is given as %r at %s' % (what, got['runtime'], time.asctime(time.localtime(t))))


def logged(texts, said, what):
    for f, txt in texts.items():
        if all(s in txt for s in said):
            pos = [txt.index(s) for s in said]
            if pos != sorted(pos) or any(txt.count(s) != 1 for s in said):
                raise Bad('%s: the messages of the run stand out of order or repeated in its log' % what)
            return f
    raise Bad('%s: no log file received the messages of the run (files: %s)' % (what, {k: v[:200] for k, v in texts.items()}))


def driven(case, st):
    """One synthetic module."""
    name, over = case
    values = {k: ALPHABET[k][dict(over).get(k, 0)] for k in SETTINGS}
    rec = Recorder()
    with Sandbox(rec) as sb, clock.frozen(T0):
        sb.write(name, values)
        out, err = sb.drive(name)
        if err is not None:
            raise Bad('the driver raised %r on a good module' % (err,))
        received(rec, values, T0, 'module with %r' % (over,))
        logged(sb.texts(), rec.said, 'module with %r' % (over,))
        if snapshot(sys.modules[name]) != {k: repr(values[k]) for k in SETTINGS}:
            raise Bad('the driver changed the settings of the module')
        st.outcome(sorted((k, repr(v)) for k, v in rec.calls[0][0].items()))


MISSING = ('data.nosuch', 'nosuch', 'no.such.module', 'data.basic2', 'oneka.nosuch')


def missing(case, st):
    rec = Recorder()
    with Sandbox(rec) as sb, clock.frozen(T0):
        out, err = sb.drive(case)
        if err is not None:
            raise Bad('the driver raised %r for a module that does not exist' % (err,))
        if rec.calls:
            raise Bad('a run was started for a module that does not exist')
        if case not in out:
            raise Bad('the driver does not say which module %r it did not find: %r' % (case, out))
        st.outcome(out)


def histories(case, st):
    """A sequence of driver runs in one process, so many seconds apart: each log has the messages of its run, and only these."""
    gap, case = case
    rec = Recorder(fail=('failing',))
    with Sandbox(rec) as sb, clock.frozen(T0) as ck:
        for n in ('alpha', 'pk.beta', 'failing'):
            sb.write(n, {k: n if k == 'PROJECTNAME' else ALPHABET[k][('alpha', 'pk.beta', 'failing').index(n) % len(ALPHABET[k])] for k in SETTINGS})
        seen, owner = {}, []
        for i, ev in enumerate(case):
            t = T0 + gap * i
            ck.set(t)
            rec.calls, rec.said = [], []
            old = sb.texts()
            out, err = sb.drive(ev)
            new = sb.texts()
            if ev == 'missing':
                if err is not None or rec.calls:
                    raise Bad('history %r: the missing module %s' % (case, 'raised %r' % (err,) if err else 'started a run'))
                if new != old:
                    raise Bad('history %r: naming a missing module writes to the logs' % (case,))
                continue
            if (ev == 'failing') != isinstance(err, AssertionError):
                raise Bad('history %r: the driver %s' % (case, 'raised %r' % (err,) if err else 'hides that the run was refused'))
            received(rec, {k: ev if k == 'PROJECTNAME' else ALPHABET[k][('alpha', 'pk.beta', 'failing').index(ev) % len(ALPHABET[k])] for k in SETTINGS}, t, 'history %r step %d' % (case, i))
            mine = logged({f: x[len(old.get(f, '')):] for f, x in new.items()}, rec.said, 'history %r step %d' % (case, i))
            if mine in old:
                raise Bad('history %r: the run has no log file of its own' % (case,))
            for f in old:
                if new[f] != old[f]:
                    raise Bad('history %r: a later run writes to the log file of an earlier one: %r' % (case, new[f][len(old[f]):][:200]))
            for s in rec.said:
                seen[s] = mine
        st.states += 1
        st.traces += 1
        st.outcome((gap, case))


def shipped_names():
    import data
    return sorted('data.' + m.name for m in pkgutil.iter_modules(data.__path__) if not m.name.startswith('_'))


def shipped(case, st):
    """A shipped module: complete, valid, passed through."""
    m = importlib.import_module(case)
    for k in SETTINGS:
        if not hasattr(m, k):
            raise Bad('%s does not define %s' % (case, k))
    before = snapshot(m)
    rec = Recorder()
    with Sandbox(rec) as sb, clock.frozen(T0 + 5):
        out, err = sb.drive(case)
        if err is not None:
            raise Bad('the driver raised %r on %s' % (err, case))
        received(rec, {k: getattr(m, k) for k in SETTINGS}, T0 + 5, case)
        logged(sb.texts(), rec.said, case)
    if snapshot(m) != before:
        raise Bad('the driver changed the settings of %s' % case)
    # What the entry point accepts, read from its documentation.
    if not (isinstance(m.NPATHS, int) and m.NPATHS > 0 and m.DURATION and isinstance(m.NREALIZATIONS, int) and m.NREALIZATIONS > 0 and 0 <= m.TARGET < len(m.WELLS)):
        raise Bad('%s: a number of paths, duration, target or number of realizations out of range' % case)
    kept = [o for o in m.OBSERVATIONS if all(np.hypot(o[0] - w[0], o[1] - w[1]) > m.BUFFER for w in m.WELLS)]
    apart = []
    for o in kept:
        if all(np.hypot(o[0] - p[0], o[1] - p[1]) >= 1 for p in apart):
            apart.append(o)
    if len(apart) < 7:
        raise Bad('%s keeps %d observations' % (case, len(apart)))
    xo, yo = m.WELLS[m.TARGET][:2]
    A = np.array([[(x - xo) ** 2, (y - yo) ** 2, (x - xo) * (y - yo), x - xo, y - yo, 1.0] for x, y, *_ in apart])
    if np.linalg.matrix_rank(A / np.abs(A).max(axis=0)) < 6:
        raise Bad('%s: its observations do not determine the regional flow' % case)
    st.outcome((case, len(apart)))


def real(case, st):
    """A shipped module run for real, short; the settings of the module but for the effort."""
    name, over = case
    over = dict(over)
    m = importlib.import_module(name)
    args = {n: getattr(m, k) for k, n in ENTRY.items()}
    args.update(runtime='Mon Jan  1 00:00:00 2024', **over)
    before = snapshot(m)
    e = runs.run(args)
    if e.error is not None:
        raise Bad('%s with %r ended with %r' % (name, over, e.error))
    if not (e.result is not None and np.max(np.asarray(e.result.pgrid)) > 0):
        raise Bad('%s with %r gives no capture zone' % (name, over))
    if len([f for f in e.files if f.endswith('.bz2')]) != 1:
        raise Bad('%s with %r leaves the files %r' % (name, over, e.files))
    if snapshot(m) != before:
        raise Bad('a run changed the settings of %s' % name)
    st.outcome((name, sorted(over.items()), np.asarray(e.result.pgrid).shape, float(np.sum(np.asarray(e.result.pgrid)))))


def script(case, st):
    """The driver as its users start it: a script that asks for the name of the module."""
    name, good = case
    with Sandbox() as sb:
        a = runs.arguments()
        sb.write('mine.tiny', {k: a[n] for k, n in ENTRY.items()})
        cwd = os.path.join(sb.dir, 'cwd')
        p = subprocess.run([sys.executable, '-B', os.path.join(env.REPO, 'runme.py')], input=name + '\n', capture_output=True, text=True, cwd=cwd, timeout=120,
                           env=dict(os.environ, PYTHONPATH=sb.pkg, PYTHONDONTWRITEBYTECODE='1'))
        if p.returncode:
            raise Bad('the script fails: %s' % p.stderr[-600:])
        arch = [f for f in runs.files(cwd) if f.endswith('.bz2')]
        txt = ''.join(sb.texts().values())
        if good:
            if len(arch) != 1 or 'tiny project' not in txt:
                raise Bad('the script leaves %r and logs %r' % (runs.files(cwd), txt[:300]))
        elif arch or txt or name not in p.stdout:
            raise Bad('the script, given a module that does not exist, leaves %r and prints %r' % (runs.files(cwd), p.stdout[-300:]))
        st.outcome((name, sorted(x.split('.')[-1] for x in runs.files(cwd))))


def main(ctx):
    runs.warm()
    names = shipped_names()
    ctx.run('shipped', shipped, names)
    if not names:
        raise AssertionError('no data modules')
    short = []
    for n in names:
        m = importlib.import_module(n)
        for nr in (1, 2):
            short.append((n, (('duration', 20.0), ('npaths', 2), ('nrealizations', nr))))
        short.append((n, (('duration', -20), ('npaths', 3), ('nrealizations', 1), ('confined', not m.CONFINED))))
        if ctx.thorough:
            short.append((n, (('nrealizations', 1),)))
            short.append((n, (('npaths', 10), ('nrealizations', 3))))
    ctx.run('real runs', real, short, chunk=1, limit=300)
    cases = [('mod', ())] + [(('mod', 'pk.mod', 'pk.sub.mod')[i % 3], ((k, i),)) for k in SETTINGS for i in range(len(ALPHABET[k]))]
    for a, b in itertools.combinations(SETTINGS, 2):
        for i in range(1, ctx.pick(2, len(ALPHABET[a]))):
            for j in range(1, ctx.pick(2, len(ALPHABET[b]))):
                cases.append(('mod', ((a, i), (b, j))))
    ctx.run('settings', driven, cases)
    ctx.run('missing modules', missing, MISSING)
    hs = [h for n in range(1, ctx.pick(4, 6)) for h in itertools.product(('alpha', 'pk.beta', 'failing', 'missing'), repeat=n)]
    ctx.run('histories', histories, [(gap, h) for h in hs for gap in ((0, 1, 61) if ctx.thorough or len(h) < 3 else (0, 1, 61)[sum(map(len, h)) % 3:][:1])])
    ctx.run('script', script, [('mine.tiny', True), ('mine.nosuch', False), ('data.nosuch', False)], chunk=1)
    ctx.bounds = dict(modules=names, settings=len(cases), histories=len(hs))
