"""Replay on the real code (real numpy, source as it is):  replay.py FILE

FILE is JSON: property, cfg, envs (or env).  Run with the project's own
interpreter (/opt/venv/bin/python).  Exit 1 when the property is violated."""
import io
import json
import os
import sys
import importlib
import warnings

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def main():
    warnings.simplefilter('ignore')
    with open(sys.argv[1]) as f:
        job = json.load(f)
    from vsx import runner
    mod = importlib.import_module('harness.' + job['property'].lower())
    envs = job.get('envs') or [job['env']]
    out = sys.stdout
    res = []
    for env in envs:
        sys.stdout = io.StringIO()
        try:
            res.append(runner.conc_run(mod, job['cfg'], env))
        finally:
            sys.stdout = out
    if '--json' in sys.argv:
        print('VSXRESULT ' + json.dumps(res))
        return 0
    bad = 0
    if job.get('required'):
        # one input for every path of the exploration: none reaches the goals
        got = set(g for r in res for g in r.get('goals', ()))
        miss = [g for g in job['required'] if g not in got]
        print('%d runs; not reached: %s' % (len(res), miss))
        return 1 if miss else 0
    for r in res:
        print(r['status'])
        for n in r.get('failed', []):
            print('   failed:', n)
        if r.get('exc'):
            print(r['exc'])
        bad = bad or r['status'] == 'violation'
    return 1 if bad else 0


sys.exit(main())
