"""Replays one recorded violation, without the explorer:  /opt/venv/bin/python -B -m mc.replay FILE"""
import ast
import importlib
import json
import sys

if __name__ == '__main__':
    from mc import env, core
    path = __import__('os').path.abspath(sys.argv[1])
    env.setup()
    d = json.load(open(path))
    mod = importlib.import_module(d['check'])
    nan, inf = float('nan'), float('inf')
    lit = lambda s: eval(s, {'__builtins__': {}}, {'nan': nan, 'inf': inf})
    for attempt in (1, 2):
        r = core.evaluate(getattr(mod, d['fn']), lit(d['case']), core.Stats(), 120)
        print('run %d: %s' % (attempt, r[0] if r else 'the property holds on this case'))
    if not r and d['preceding_cases']:
        print('alone the case passes; with the cases that preceded it in the same process:')
        for c in d['preceding_cases']:
            core.evaluate(getattr(mod, d['fn']), lit(c), core.Stats(), 120)
        r = core.evaluate(getattr(mod, d['fn']), lit(d['case']), core.Stats(), 120)
        print(r[0] if r else 'the property holds')
    sys.exit(1 if r else 0)
