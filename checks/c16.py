"""C16: archives - round trips of every argument, every truncation point and write limit, all clock histories of runs up to a depth, and every interleaving of competing dumps at line granularity."""
import bz2
import itertools
import os
import pickle
import resource
import shutil
import sys

import numpy as np

from mc import clock, env, runs
from mc.core import Bad
from oneka.archive import dump_oneka, load_oneka
from oneka.probabilityfield import ProbabilityField

ID = 'C16'
LEVEL = 'fault_enumeration'
RULE = ('every argument x every value of its alphabet archived and reloaded; every truncation length of the archive of small fields (and a stride of a many-block one); every limit on the '
        'size of the file while it is written; every sequence of runs under clock advances up to a depth; every preemption of one dump by another before each line of the '
        'archive module; an outcome is (history, archives)')
ASSUMPTIONS = ['a crash leaves a prefix of what was to be written', 'preemption at the granularity of source lines, one competing dump at a time (up to two in all)']

ARGS = runs.NAMES + ('pfield',)
T0 = 1700000000.0


def field(kind):
    if kind == 'none':
        return ProbabilityField(5.0, 5.0)
    if kind == 'small':
        return ProbabilityField(5.0, 2.5, 10.0, -3.25)
    pf = ProbabilityField(5.0, 2.5, 302338.25, 5162551.75) if kind in ('utm', 'utm-busy') else ProbabilityField(1.5, 1.5, 0.1, 0.2)
    n = {'big': 25}.get(kind, 4)
    pf.rasterize([pf.xmin + 0.7, pf.xmin + n * pf.deltax], [pf.ymin + 0.2, pf.ymin + n * pf.deltay], 2.1)
    pf.register(1.0)
    pf.rasterize([pf.xmin + 1.7, pf.xmin + 2.2], [pf.ymin + 3.2, pf.ymin], 2.7)
    pf.register(0.1)
    if kind == 'huge':
        pf.expand(pf.xmin, pf.xmin + 420 * pf.deltax, pf.ymin - 420 * pf.deltay, pf.ymin)
        pf.pgrid[:] = np.sin(np.arange(pf.pgrid.size) ** 1.7).reshape(pf.pgrid.shape)
    if kind.endswith('busy'):
        pf.rasterize([pf.xmin + 1.0, pf.xmin + 4.0], [pf.ymin + 4.2, pf.ymin + 4.2], 1.1)
    return pf


def arguments(i=0, **over):
    a = runs.arguments(nrealizations=7, projectname='project %d' % i, target=0, npaths=23 + i, duration=365.25 + i, base=231.5, c_dist=(1.0, 2.0, 3.5), p_dist=(0.2, 0.25), t_dist=18, buffer=101.0,
                       spacing=5.5, umbra=6.5, smooth=3, confined=False, tol=0.75, maxstep=9.0)
    a.update(over)
    return a


def dump(a, pf):
    dump_oneka(*[a[n] for n in runs.NAMES], pf)


def alike(a, b):
    if isinstance(a, ProbabilityField) or isinstance(b, ProbabilityField):
        if type(a) is not type(b) or set(vars(a)) != set(vars(b)):
            return False
        return all(alike(vars(a)[k], vars(b)[k]) for k in vars(a))
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.dtype == b.dtype and a.shape == b.shape and np.array_equal(a, b)
    if type(a) is not type(b):
        return False
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(alike(x, y) for x, y in zip(a, b))
    return a == b


def check(path, a, pf):
    try:
        d = load_oneka(path)
    except Exception as e:
        raise Bad('the archive does not load: %s: %s' % (type(e).__name__, e))
    want = dict(a, pfield=pf)
    if not isinstance(d, dict) or not set(want) <= set(d):
        raise Bad('the archive lacks %r' % sorted(set(want) - set(d)))
    for k in ARGS:
        if not alike(d[k], want[k]):
            raise Bad('the archive gives %s = %r instead of %r' % (k, d[k], want[k]))
    spoil(d)                    # whatever is done to what was loaded, the archive stays what it is


def spoil(d):
    for k in list(d):
        v = d[k]
        if isinstance(v, list):
            v.append('spoiled')
            if v and isinstance(v[0], list):
                v[0].append('spoiled')
        elif isinstance(v, ProbabilityField):
            v.total_weight += 7.0
            v.pgrid = v.pgrid + 3.0
        d[k] = 'spoiled' if not isinstance(v, (list, ProbabilityField)) else v
    d['spoiled'] = True


class Dir:
    """A fresh directory to archive into."""

    def __enter__(self):
        self.d = os.path.join(env.scratch(), 'arch-%d-%d' % (os.getpid(), next(runs._count)))
        os.makedirs(self.d)
        self.here = os.getcwd()
        os.chdir(self.d)
        return self

    def files(self):
        return {f: open(os.path.join(self.d, f), 'rb').read() for f in runs.files(self.d)}

    def __exit__(self, *x):
        os.chdir(self.here)
        shutil.rmtree(self.d, ignore_errors=True)
        return False


# ------------------------------------------------------------------------------------------------ round trips
def roundtrip(case, st):
    changes, kind = case
    a = arguments(**{k: runs.tokens(v) for k, v in changes})
    pf = field(kind)
    before = repr(pf)
    with Dir() as d, clock.frozen(T0):
        dump(a, pf)
        fs = runs.files(d.d)
        if len(fs) != 1:
            raise Bad('one run leaves %r' % fs)
        check(os.path.join(d.d, fs[0]), a, pf)
        check(os.path.join(d.d, fs[0]), a, pf)
        size = os.path.getsize(os.path.join(d.d, fs[0]))
    if repr(pf) != before:
        raise Bad('archiving alters the field')
    st.outcome((changes, kind, size))


def whole_run(case, st):
    """Through the entry point: what is archived is what was given to the run and what the run returned."""
    over = dict(case)
    a = runs.arguments(**over)
    give = {k: (list(v) if isinstance(v, list) else v) for k, v in a.items()}
    e = runs.run(give, keep=True)
    try:
        if e.error is not None:
            raise Bad('the run fails: %r' % e.error)
        if len(e.files) != 1:
            raise Bad('one run leaves %r' % e.files)
        check(os.path.join(e.dir, e.files[0]), a, e.result)
    finally:
        shutil.rmtree(e.dir, ignore_errors=True)
    st.outcome(case)


# ------------------------------------------------------------------------------------------------ crashes
_archives = {}


def archive_bytes(kind):
    if kind not in _archives:
        a, pf = arguments(), field(kind)
        with Dir() as d, clock.frozen(T0):
            dump(a, pf)
            data = b''.join(d.files().values())        # of one file, if it is as it should be (the round trips see to that)
        _archives[kind] = (a, pf, data)
    return _archives[kind]


def truncated(case, st):
    kind, lo, hi, step = case
    a, pf, data = archive_bytes(kind)
    with Dir() as d:
        path = os.path.join(d.d, 'cut.bz2')
        n = lo
        while n < (len(data) if hi is None else min(hi, len(data))):
            with open(path, 'wb') as f:
                f.write(data[:n])
            try:
                load_oneka(path)
            except Exception:
                st.transitions += 1
                n += step
                continue
            check_cut(path, a, pf, n, len(data))
            st.transitions += 1
            st.outcome((kind, n))
            n += step
    st.states += 1


def check_cut(path, a, pf, n, size):
    try:
        check(path, a, pf)
    except Bad as b:
        raise Bad('an archive cut to %d of %d bytes is read, but %s' % (n, size, b.what))


def limited(case, st):
    """The file system takes only the first n bytes of a file: the dump fails part-way, in a run of its own, next to earlier archives."""
    kind, n, same_second = case
    a, pf, data = archive_bytes(kind)
    with Dir() as d, clock.frozen(T0) as t:
        first = arguments(1)
        dump(first, field('small'))
        before = d.files()
        t.set(T0 if same_second else T0 + 1)
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                resource.setrlimit(resource.RLIMIT_FSIZE, (n, n))
                try:
                    dump(a, pf)
                    code = 0
                except Exception:
                    code = 3
            finally:
                os._exit(code)
        code = os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1])
        after = d.files()
        for f, b in before.items():
            if after.get(f) != b:
                raise Bad('a dump failing after %d bytes alters the earlier archive %r' % (n, f))
        for f in set(after) - set(before):
            try:
                load_oneka(os.path.join(d.d, f))
            except Exception:
                continue
            check_cut(os.path.join(d.d, f), a, pf, len(after[f]), len(data))
        if code == 0 and n < 100:
            raise Bad('a dump that could only write %d bytes reports success' % n)
        st.transitions += 1
        st.outcome((case, code, len(after)))
        # the next run archives itself all the same
        again = arguments(2)
        dump(again, pf)
        new = set(d.files()) - set(after)
        if len(new) != 1:
            raise Bad('after a failed dump the next one leaves %r' % sorted(new))
        check(os.path.join(d.d, new.pop()), again, pf)
        for f, b in before.items():
            if d.files().get(f) != b:
                raise Bad('the run after a failed one alters the archive %r' % f)
    st.states += 1


# ------------------------------------------------------------------------------------------------ histories
def history(case, st):
    """A sequence of runs, each after an advance of the clock."""
    with Dir() as d, clock.frozen(T0) as t:
        now = T0
        kept = {}
        for i, dt in enumerate(case):
            now += dt
            t.set(now)
            a = arguments(i)
            pf = field('small')
            pf.register(float(i))
            dump(a, pf)
            fs = d.files()
            for f, (b, _, _) in kept.items():
                if fs.get(f) != b:
                    raise Bad('the run #%d, after advances %r of the clock, destroys the archive %r of an earlier one' % (i, case, f))
            new = set(fs) - set(kept)
            if len(new) != 1:
                raise Bad('the run #%d leaves the archives %r' % (i, sorted(new)))
            f = new.pop()
            kept[f] = (fs[f], a, pf)
            st.transitions += 1
        for f, (_, a, pf) in kept.items():
            check(os.path.join(d.d, f), a, pf)
        st.outcome((case, sorted(kept)))
    st.states += 1


def whole_history(case, st):
    """The same through the entry point: complete runs in one directory."""
    from oneka.oneka import oneka
    from mc import rng
    import matplotlib.pyplot as plt
    with Dir() as d, clock.frozen(T0) as t, rng.active(rng.Env()), env.LogTap():
        now = T0
        kept = {}
        for i, (dt, mode) in enumerate(case):
            now += dt
            t.set(now)
            a = runs.arguments(nrealizations=mode, projectname='run %d' % i)
            pf = oneka(*[a[n] for n in runs.REQUIRED], **{n: a[n] for n in runs.NAMES[12:]})
            plt.close('all')
            fs = d.files()
            for f, b in kept.items():
                if fs.get(f) != b:
                    raise Bad('the run #%d of %r destroys the archive %r of an earlier one' % (i, case, f))
            new = set(fs) - set(kept)
            if len(new) != 1:
                raise Bad('the run #%d of %r leaves the archives %r' % (i, case, sorted(new)))
            f = new.pop()
            check(os.path.join(d.d, f), a, pf)
            kept[f] = fs[f]
            st.transitions += 1
    st.states += 1
    st.outcome(case)


def interleaved(case, st):
    """One dump is preempted before its k-th line by a complete competing dump (and that one possibly by a third); same second."""
    ks, dt = case
    with Dir() as d, clock.frozen(T0) as t:
        done = []
        first = arguments(1)
        dump(first, field('small'))
        early = d.files()

        def attempt(i, left):
            count = [0]
            fired = [False]
            a, pf = arguments(10 + i), field('small')
            pf.register(0.5 * i)

            def local(frame, event, arg):
                if event == 'line' and left and not fired[0]:
                    if count[0] == left[0]:
                        fired[0] = True
                        sys.settrace(None)
                        t.set(T0 + dt)
                        attempt(i + 1, left[1:])
                        sys.settrace(outer)
                    count[0] += 1
                return local

            def outer(frame, event, arg):
                if frame.f_code.co_filename.startswith(env.REPO + os.sep):
                    return local
                return None
            known = set(d.files())
            sys.settrace(outer)
            err = None
            try:
                dump(a, pf)
            except Exception as e:
                err = e
            finally:
                sys.settrace(None)
            done.append((i, a, pf, err, fired[0]))
            if fired[0] or not left:
                st.transitions += 1
        attempt(0, list(ks))
        fs = d.files()
        for f, b in early.items():
            if fs.get(f) != b:
                raise Bad('the archive %r of an earlier run is altered' % f)
        for i, a, pf, err, fired in done:
            hits = 0
            for f in set(fs) - set(early):
                try:
                    if load_oneka(os.path.join(d.d, f))['projectname'] == a['projectname']:
                        check(os.path.join(d.d, f), a, pf)
                        hits += 1
                except Bad:
                    raise
                except Exception:
                    pass
            if err is None and hits != 1:
                raise Bad('the dump #%d reports success, but afterwards %d archives hold it' % (i, hits))
        if done[0][3] is not None and len(done) > 1:
            raise Bad('a dump that was not preempted fails: %r' % done[0][3])
        st.outcome((case, len(done), [type(x[3]).__name__ for x in done]))
    st.states += 1


def main(ctx):
    runs.warm()
    ch = [()]
    alphabet = dict(projectname=['', 'Grüße\n\t{0}', 'x' * 3000], runtime=['Thu Jan  1'], target=[0, 5, 12345678901234567890], npaths=[1, 360], duration=[-3650, 3652.5, 1e-300], nrealizations=[1, 0, 100000], base=[0, -1.5, 0.1 + 0.2],
                    c_dist=[5, 0.1, (1, 2), [1.5, 2.5], (0.1, 0.2, 0.30000000000000004), [1, 2, 3]], p_dist=[1, 0.2, (0.1, 0.3), [0.1, 0.3], (0, 0.5, 1)], t_dist=[1e9, (18, 20), [18.5, 20, 21], (3.0, 3.0)],
                    stochastic_wells=[[(1, 2, 3, 4)], [[1.5, 2.5, 0.25, (1.0, 2.0)], (0.0, -1.0, 1, [1, 2, 3])], [(302338.25, 5162551.75, 0.25, -5)] * 3],
                    observations=[[(1, 2, 3, 4)] * 7, [[1.0, 2.0, 3.0, 0.5]] * 8, [(i / 3.0, -i / 7.0, 100 + i / 11.0, 0.1 * (i + 1)) for i in range(700)]], buffer=[1, 99.9], spacing=[2, 0.1], umbra=[3, 0.3], smooth=[0, 0.0, 2.5, 7],
                    confined=[True, False], tol=[1, 1e-6], maxstep=[10, 2.5])
    for k, vs in alphabet.items():
        ch += [((k, v),) for v in vs]
    names = list(alphabet)
    for a, b in itertools.combinations(names, 2):
        ch.append(((a, alphabet[a][-1]), (b, alphabet[b][0])))
    kinds = ('none', 'small', 'utm', 'busy', 'utm-busy')
    ctx.run('round trips', roundtrip, [(c, k) for i, c in enumerate(ch) for k in (kinds if ctx.thorough or len(c) == 1 and i % 3 == 0 else (kinds[i % 5],))] + [((), 'big'), ((), 'huge')])
    whole = [dict(wells=w, nrealizations=n, **o) for w in ('single', 'pair') for n in (1, 2) for o in
             (dict(), dict(smooth=0, buffer=26, base=100), dict(c_dist=[9.0, 15.0], p_dist=(0.1, 0.2, 0.4), t_dist=[18.0, 20.0, 22.0]), dict(confined=False, tol=1, maxstep=7, spacing=6, umbra=7))]
    obs = runs.arguments()['observations']
    whole.append(dict(observations=obs + [(1.0, 2.0, 130.0, 0.1), (obs[0][0] + 0.1, obs[0][1], 133.0, 0.3)], nrealizations=1))
    whole.append(dict(observations=[list(o) for o in obs], stochastic_wells=[[0, 0, 1, [300, 450, 500]]], nrealizations=2))
    ctx.run('whole runs', whole_run, [tuple(w.items()) for w in whole])

    trunc = []
    for k in ('none', 'small', 'utm-busy', 'big'):
        n = len(archive_bytes(k)[2])
        trunc += [(k, i, i + 60, 1) for i in range(0, n, 60)]
    n = len(archive_bytes('huge')[2])
    trunc = [('huge', n - i, n - i + 1, 1) for i in range(1, ctx.pick(9, 60))] + [('huge', 0, 40, 1)] + trunc
    s = ctx.pick(80000, 2000)
    trunc += [('huge', i, i + 1, 1) for i in range(997, n, s)]
    ctx.run('truncations', truncated, trunc)
    n = len(archive_bytes('small')[2])
    lim = [('small', i, s) for i in range(0, n + 2, ctx.pick(41, 1)) for s in (False, True)] + [('small', i, True) for i in (1, 2, 3, 4, 10, n - 1, n, n + 1)]
    lim += [('huge', i, s) for i in (0, 5000, 100000, 900000) for s in (False, True)]
    ctx.run('write limits', limited, lim)
    adv = ctx.pick((0, 0.4, 1, -1), (0, 0.4, 1, -1, 0.999, 86400, -3600))
    ctx.run('clock histories', history, [h for k in range(1, ctx.pick(5, 5)) for h in itertools.product(adv, repeat=k)] + [(0,) * k for k in (5, 8, 12, 25)] + [(0, 0, 1, -1) * 3, (0.3,) * 12, (-0.3,) * 12])
    ctx.run('whole histories', whole_history, [h for k in (2, ctx.pick(2, 3)) for h in itertools.product(itertools.product((0, 0.6, -1), (1, 2)), repeat=k)])
    inter = [((k,), dt) for k in range(ctx.pick(40, 60)) for dt in (0, 1, -1)] + [((j, k), 0) for j in range(ctx.pick(14, 40)) for k in range(ctx.pick(14, 40))] + [((), 0)]
    ctx.run('interleavings', interleaved, inter)
    ctx.bounds = dict(round_trips=len(ch), truncation_points='all of 4 archives, every %d bytes of a many-block one' % s, advances=adv, depth=4, preemptions=2)
