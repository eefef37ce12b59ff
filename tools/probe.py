#!/usr/bin/env python3
"""
Quick probes: one-line breakages, each limited to some corner of the inputs, applied in a scratch copy and run against the checks of the
property they break.  probe.py SPEC.py [-f TEXT] [-j N];  SPEC: P = [(check, file, old, new), ...]
"""
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

PY = '/opt/venv/bin/python'
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(p):
    checks, f, old, new = p
    d = tempfile.mkdtemp(prefix='probe-', dir='/tmp')
    try:
        r, w = os.path.join(d, 'repo'), os.path.join(d, 'verif')
        subprocess.run(['git', 'clone', '-q', '/repo', r])
        shutil.copytree(VERIF, w, ignore=shutil.ignore_patterns('.git', 'seeded', 'evidence', 'replays', 'tmp'))
        t = open(os.path.join(r, f)).read()
        if t.count(old) != 1:
            return '%s: %d times %r' % (checks, t.count(old), old)
        open(os.path.join(r, f), 'w').write(t.replace(old, new))
        e = dict(os.environ, MPLBACKEND='Agg', VERIF_REPO=r, VERIF_SEED='1', VERIF_TIER='quick', VERIF_PROCS='2')
        t = subprocess.run([PY, '-B', '-m', 'pytest', '-q', '-p', 'no:cacheprovider'], cwd=r, env=e, capture_output=True)
        out = []
        for c in checks.split():
            x = subprocess.run([PY, '-B', '-m', 'mc.run', c, 'quick'], cwd=w, env=e, capture_output=True, text=True)
            out.append('%s %s' % (c, {0: 'MISSED', 1: 'caught'}.get(x.returncode, 'broken %d' % x.returncode)))
            if x.returncode == 1:
                what = [l for l in x.stdout.split('\n') if 'what:' in l]
                out.append((what or [''])[0][:90])
        return '%s%s  %s  [%s]' % ('' if t.returncode == 0 else 'TESTS FAIL ', new.strip()[:110], f.split('/')[-1], '; '.join(out))
    finally:
        shutil.rmtree(d)


if __name__ == '__main__':
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    ps = [p for p in ns['P'] if '-f' not in sys.argv or sys.argv[sys.argv.index('-f') + 1] in repr(p)]
    n = int(sys.argv[sys.argv.index('-j') + 1]) if '-j' in sys.argv else 3
    with ThreadPoolExecutor(n) as ex:
        for o in ex.map(one, ps):
            print(o, flush=True)
