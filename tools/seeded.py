"""
Works on /verif/seeded (which no check reads), in scratch copies of /repo:
    seeded.py make SPEC.py ...   writes seeded/<id>/ from the edits a spec lists
    seeded.py try [ID ...]       applies, tests, demonstrates, and runs the property's check (and, with -a, every check) against the copy
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(VERIF, 'seeded')
PY = '/opt/venv/bin/python'
DEMO_SH = '#!/bin/bash\nexport MPLBACKEND=Agg MPLCONFIGDIR=${MPLCONFIGDIR:-/opt/vp/mplconfig} PYTHONDONTWRITEBYTECODE=1\nexec %s -B "$(cd "$(dirname "$0")" && pwd)/demo.py"\n' % PY
HEAD = '''import logging
import os
import sys
sys.path.insert(0, os.getcwd())
import warnings
warnings.simplefilter('ignore')
'''


def sh(cmd, **k):
    return subprocess.run(cmd, capture_output=True, text=True, **k)


def copy():
    d = tempfile.mkdtemp(prefix='seed-', dir='/tmp')
    r = os.path.join(d, 'repo')
    sh(['git', 'clone', '-q', '/repo', r])
    return d, r


def make(spec):
    ns = {}
    exec(open(spec).read(), ns)
    for s in ns['SPECS']:
        d, r = copy()
        try:
            for f, old, new in s['edits']:
                p = os.path.join(r, f)
                t = open(p).read()
                assert t.count(old) == 1, (s['id'], f, t.count(old), old)
                open(p, 'w').write(t.replace(old, new))
            diff = sh(['git', '-C', r, 'diff']).stdout
            o = os.path.join(SEEDED, s['id'])
            os.makedirs(o, exist_ok=True)
            open(os.path.join(o, 'patch.diff'), 'w').write(diff)
            open(os.path.join(o, 'demo.sh'), 'w').write(DEMO_SH)
            open(os.path.join(o, 'demo.py'), 'w').write('"""%s"""\n' % s['what'] + HEAD + s['demo'].strip() + '\n')
            json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['what']), open(os.path.join(o, 'meta.json'), 'w'), indent=1)
        finally:
            shutil.rmtree(d)


def demo(o, r):
    return sh(['bash', os.path.join(o, 'demo.sh')], cwd=r, timeout=300)


def attempt(i, every):
    o = os.path.join(SEEDED, i)
    meta = json.load(open(os.path.join(o, 'meta.json')))
    d, r = copy()
    try:
        a = demo(o, r)
        ap = sh(['git', '-C', r, 'apply', os.path.join(o, 'patch.diff')])
        if ap.returncode:
            return '%s: DOES NOT APPLY %s' % (i, ap.stderr)
        b = demo(o, r)
        t = sh([PY, '-B', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', 'tests'], cwd=r, env=dict(os.environ, PYTHONPATH=r, MPLBACKEND='Agg'))
        ok = a.returncode == 0 and b.returncode != 0 and t.returncode == 0
        out = '%s: demo clean %d patched %d tests %d %s' % (i, a.returncode, b.returncode, t.returncode, '' if ok else '   <<<<<< ' + a.stderr[-500:] + t.stdout[-300:])
        props = [c['property'] for c in json.load(open(os.path.join(VERIF, 'MANIFEST.json')))['checks']] if every else [meta['property']]
        for p in props:
            c = sh([PY, '-B', '-m', 'mc.run', p, 'quick'], cwd=VERIF, env=dict(os.environ, VERIF_REPO=r))
            hit = c.returncode == 1 and 'VIOLATION property=%s' % p in c.stdout
            if hit or not every or c.returncode:
                w = [l for l in c.stdout.split('\n') if l.startswith('  what')]
                out += '\n    %s %s %s' % (p, 'caught' if hit else 'MISSED rc=%d' % c.returncode, w[0][:220] if w else c.stderr[-300:])
        return out
    finally:
        shutil.rmtree(d)


if __name__ == '__main__':
    if sys.argv[1] == 'make':
        for s in sys.argv[2:]:
            make(s)
    else:
        every = '-a' in sys.argv
        for i in [x for x in sys.argv[2:] if x != '-a'] or sorted(os.listdir(SEEDED)):
            print(attempt(i, every), flush=True)
