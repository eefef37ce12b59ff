"""
The explorer: exhaustive enumeration of executions of the real code within stated bounds.

A check module (checks/cNN.py) offers   ID, LEVEL, RULE, ASSUMPTIONS, and  main(ctx).
main() describes the bounded space and calls
    ctx.run(name, fn, cases)       every case of a finite list (fn(case, st), a module-level function), or
    ctx.run(name, bfs_root, roots) with mc.core.bfs() inside, for explicit-state search over operation histories.
fn raises Bad(message, ...) when the property fails on that case; any other exception is the code's.
Cases are plain literals, so that each violation is a replayable file:  python -m mc.replay FILE.
"""
import ast
import collections
import concurrent.futures as cf
import hashlib
import json
import multiprocessing
import os
import resource
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, 'known_findings.txt')
monotonic = time.monotonic


class Bad(Exception):
    """The property fails. case/fn override what is to be replayed; key identifies a known finding."""

    def __init__(self, what, case=None, fn=None, key=None):
        super().__init__(what)
        self.what, self.case, self.fn, self.key = what, case, fn, key


class Hang(BaseException):
    """Raised into code that runs far longer than any terminating execution could."""


class Stats:
    def __init__(self):
        self.evaluations = 0
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.skipped = 0
        self.notes = collections.Counter()
        self.outcomes = set()
        self.samples = []

    def outcome(self, x):
        """Record an observed outcome (distinct, non-trivial ones are counted)."""
        self.outcomes.add(int.from_bytes(hashlib.blake2b(repr(x).encode(), digest_size=7).digest(), 'big'))

    def merge(self, o):
        self.evaluations += o.evaluations
        self.states += o.states
        self.transitions += o.transitions
        self.traces += o.traces
        self.skipped += o.skipped
        self.notes.update(o.notes)
        self.outcomes |= o.outcomes
        self.samples += o.samples[:max(0, 6 - len(self.samples))]


class guard:
    """Bounds one execution of the code under test; re-fires in case the code swallows the first one."""

    def __init__(self, seconds):
        self.seconds = seconds
        self.fired = False

    def _fire(self, *a):
        self.fired = True
        raise Hang()

    def __enter__(self):
        signal.signal(signal.SIGALRM, self._fire)
        _limit[0] = self.seconds
        signal.setitimer(signal.ITIMER_REAL, self.seconds, 0.5)
        return self

    def __exit__(self, et, ev, tb):
        signal.setitimer(signal.ITIMER_REAL, 0)
        if self.fired or et is Hang:
            raise Bad('does not terminate (no answer within %g s; comparable executions take well under 1 s)' % self.seconds) from None
        return False


def where(e):
    tb = traceback.extract_tb(e.__traceback__)
    return '; '.join('%s:%s' % (os.path.basename(f.filename), f.name) for f in tb[-3:])


_limit = [60]


def rearm():
    """Progress was made: restart the clock of the surrounding guard."""
    signal.setitimer(signal.ITIMER_REAL, _limit[0], 0.5)


def evaluate(fn, case, st, limit):
    """One case. Returns None or (message, case, fnname, key)."""
    try:
        with guard(limit):
            st.evaluations += 1
            fn(case, st)
        return None
    except Bad as b:
        return (b.what, repr(case if b.case is None else b.case), b.fn or fn.__name__, b.key)
    except (KeyboardInterrupt, SystemExit) as e:
        return ('stopped with %r' % (e,), repr(case), fn.__name__, None)
    except Exception as e:
        return ('raised %s: %s (at %s)' % (type(e).__name__, str(e)[:300], where(e)), repr(case), fn.__name__, None)


def _chunk(args):
    mod, fname, chunk, limit = args
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    import importlib
    fn = getattr(importlib.import_module(mod), fname)
    st, bad, done = Stats(), [], 0
    for c in chunk:
        r = evaluate(fn, c, st, limit)
        done += 1
        if r is not None:
            bad.append(r + (done,))
            if len(bad) >= 40 or r[0].startswith('does not terminate'):
                break
    if chunk and not st.samples:
        st.samples.append(repr(chunk[len(chunk) // 2])[:600])
    return st, bad, done


def explore(run, bound, order=None):
    """
    Stateless exploration of an environment's choices. run(choose) executes once; choose(n, label) answers 0..n-1.
    Every execution with at most `bound` departures from the default answer 0 is run. Returns the number of executions.
    """
    count = 0
    stack = [()]
    while stack:
        prefix = stack.pop()
        points = []

        def choose(n, label=None):
            i = len(points)
            c = prefix[i] if i < len(prefix) else 0
            if c >= n:
                raise AssertionError('replay diverged: choice %d of %d at point %d' % (c, n, i))
            points.append((c, n))
            return c
        run(choose, prefix)
        if len(points) < len(prefix):
            raise AssertionError('replay diverged: execution ended before its prefix')
        count += 1
        used = sum(1 for c in prefix if c)
        if used < bound:
            new = []
            for i in range(len(prefix), len(points)):
                base = tuple(c for c, n in points[:i])
                for alt in range(1, points[i][1]):
                    new.append(base + (alt,))
            stack.extend(reversed(new))
    return count


def bfs(st, events, build, canon, invariant, depth, root=(), fnname=None, case_of=None, max_states=10**7):
    """
    Explicit-state breadth-first search over operation histories of the real object.
    build(history) replays the history on a fresh object (checking each step); canon(obj) is the state's canonical form.
    """
    def make(h):
        rearm()
        try:
            x = build(h)
            invariant(x, h)
            return x
        except Bad as b:
            raise Bad(b.what, case=case_of(h) if case_of else list(h), fn=fnname, key=b.key) from None
        except Hang:
            raise
        except Exception as e:
            raise Bad('raised %s: %s (at %s)' % (type(e).__name__, str(e)[:300], where(e)),
                      case=case_of(h) if case_of else list(h), fn=fnname) from None
    x = make(tuple(root))
    seen = {canon(x)}
    st.states += 1
    frontier = collections.deque([(tuple(root), list(events(x)))])
    while frontier:
        hist, evs = frontier.popleft()
        for ev in evs:
            h = hist + (ev,)
            nx = make(h)
            st.transitions += 1
            st.traces += 1
            k = canon(nx)
            if k not in seen:
                if len(seen) >= max_states:
                    raise AssertionError('state cap hit')
                seen.add(k)
                st.states += 1
                st.outcome(k)
                if len(h) < depth:
                    frontier.append((h, list(events(nx))))
    return len(seen)


def known_findings():
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith('property='):
                f = dict(x.split('=', 1) for x in line.split()[:2])
                out[(f['property'], f['key'])] = line.split(None, 2)[2]
    return out


class Stop(Exception):
    pass


class Context:
    def __init__(self, module, tier, seed, procs=None):
        self.module = module
        self.id = module.ID
        self.tier = tier
        self.seed = seed
        self.thorough = tier == 'thorough'
        self.procs = procs or int(os.environ.get('VERIF_PROCS', 0)) or min(8, os.cpu_count() or 1)
        self.st = Stats()
        self.t0 = monotonic()
        self.violations = []
        self.known_hits = {}
        self.known = known_findings()
        self.parts = {}
        self.bounds = {}

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def run(self, name, fn, cases, limit=60, chunk=None):
        """Evaluate fn on every case, in parallel, in order; stop at the first chunk that violates."""
        if self.violations:
            return
        cases = list(cases)
        t = monotonic()
        n = len(cases)
        chunk = chunk or max(1, min(200, n // (self.procs * 6) + 1))
        jobs = [(self.module.__name__, fn.__name__, cases[i:i + chunk], limit) for i in range(0, n, chunk)]
        done = 0
        if self.procs == 1 or len(jobs) == 1:
            results = map(_chunk, jobs)
            ex = None
        else:
            ex = cf.ProcessPoolExecutor(self.procs, mp_context=multiprocessing.get_context('fork'))
            results = ex.map(_chunk, jobs)
        before = (self.st.evaluations, self.st.states, self.st.transitions)
        try:
            for job, (st, bad, d) in zip(jobs, results):
                self.st.merge(st)
                done += d
                for what, case, fname, key, at in bad:
                    if key is not None and (self.id, key) in self.known:
                        self.known_hits.setdefault(key, what)
                    else:
                        self.violations.append(dict(what=what, case=case, fn=fname, key=key, part=name,
                                                    before=[repr(c) for c in job[2][:at - 1]][-40:]))
                if self.violations:
                    break
        finally:
            if ex is not None:
                ps = list(ex._processes.values())
                ex.shutdown(wait=not self.violations, cancel_futures=True)
                if self.violations:
                    for p in ps:
                        p.terminate()
        self.parts[name] = dict(cases=n, explored=done, evaluations=self.st.evaluations - before[0],
                                states=self.st.states - before[1], transitions=self.st.transitions - before[2],
                                wall_s=round(monotonic() - t, 2))
        if self.violations:
            raise Stop      # the rest need not be prepared

    def finish(self):
        st = self.st
        cov = dict(evaluations=st.evaluations, distinct_nontrivial=len(st.outcomes), rule=self.module.RULE,
                   samples=st.samples[:6], parts=self.parts, bounds=self.bounds, exhaustive=not self.violations,
                   known_findings_met=sorted(self.known_hits), excluded_near_ties=st.skipped, notes=dict(st.notes))
        if self.module.LEVEL == 'model_checking':
            del cov['distinct_nontrivial']
            cov.update(states=st.states or len(st.outcomes), transitions=st.transitions, traces_validated_against_impl=st.traces)
        ev = dict(property=self.id, tier=self.tier, seed=self.seed, level=self.module.LEVEL, coverage=cov,
                  assumptions=self.module.ASSUMPTIONS, wall_s=round(monotonic() - self.t0, 2), violations=len(self.violations))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.id + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        for key, what in sorted(self.known_hits.items()):
            print('KNOWN-FINDING: property=%s %s' % (self.id, self.known[(self.id, key)]))
        for name, p in self.parts.items():
            print('%s %s: %s' % (self.id, name, ' '.join('%s=%s' % kv for kv in p.items())))
        print('%s evaluations=%d states=%d transitions=%d distinct_outcomes=%d wall=%.1fs'
              % (self.id, st.evaluations, st.states, st.transitions, len(st.outcomes), monotonic() - self.t0))
        if not self.violations:
            return 0
        v = min(self.violations, key=lambda v: len(v['case']))
        d = os.path.join(VERIF, 'replays')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, '%s.json' % self.id)
        with open(path, 'w') as f:
            json.dump(dict(check=self.module.__name__, property=self.id, fn=v['fn'], case=v['case'], what=v['what'], part=v['part'],
                           tier=self.tier, preceding_cases=v['before'],
                           how='/opt/venv/bin/python -B -m mc.replay %s   (from /verif)' % path), f, indent=1)
        print('  part: %s' % v['part'])
        print('  case: %s' % v['case'][:1500])
        print('  what: %s' % v['what'][:1500])
        print('VIOLATION property=%s replay=%s' % (self.id, path))
        return 1


def main(argv):
    from mc import env
    import importlib
    env.setup()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(argv) > 1:
        tier = argv[1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    mod = importlib.import_module('checks.' + argv[0].lower())
    ctx = Context(mod, tier, seed)
    try:
        mod.main(ctx)
    except Stop:
        pass
    if ctx.st.evaluations == 0:
        print('nothing was explored')
        return 2
    return ctx.finish()
