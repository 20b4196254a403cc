"""python3-vt check.py <PROPERTY> [--thorough] [--cfg N] [-v]

Bounded symbolic execution of convst's current source (see DESIGN.md)."""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
import warnings
warnings.simplefilter('ignore')
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
os.environ.setdefault('OMP_NUM_THREADS', '1')
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')


def work(job):
    prop, i, cfg, tier, seed, budget, max_paths, nval = job
    from vsx import runner
    try:
        r = runner.ConfigRun(prop, cfg, tier, seed, budget, max_paths, nval).run()
    except BaseException as e:
        import traceback
        r = {'cfg': cfg, 'error': ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:]}
    r['i'] = i
    return r


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--thorough', action='store_true')
    ap.add_argument('--cfg', type=int)
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    t0 = time.time()
    tier = 'thorough' if a.thorough or os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    prop = a.prop.upper()
    mod = importlib.import_module('harness.' + prop.lower())
    cfgs = list(mod.configs(tier))
    if a.cfg is not None:
        cfgs = [cfgs[a.cfg]]
    budget = getattr(mod, 'BUDGET', {}).get(tier, 60 if tier == 'quick' else 600)
    total = 480 if tier == 'quick' else 3000
    fast = float(os.environ.get('VSX_FAST', 'inf'))      # development: cap the time of each configuration
    max_paths = 200000
    jobs = [(prop, i, c, tier, seed, min(fast, c.get('_budget', budget)), max_paths, 2 if tier == 'quick' else 4)
            for i, c in enumerate(cfgs)]
    # big configurations first
    jobs.sort(key=lambda j: -j[2].get('_w', 0))
    results = []
    viol = []
    nproc = min(8, max(1, len(jobs)))
    ctx = mp.get_context('fork')
    pool = ctx.Pool(nproc, maxtasksperchild=1)
    it = pool.imap_unordered(work, jobs, chunksize=1)
    timed_out = False
    try:
        while len(results) < len(jobs):
            left = t0 + total - time.time()
            try:
                r = it.next(timeout=max(1.0, left))
            except mp.TimeoutError:
                timed_out = True
                break
            results.append(r)
            if a.v:
                show(r)
            if r.get('violations'):
                viol += [(r, v) for v in r['violations']]
                break
    finally:
        pool.terminate()
        pool.join()
    results.sort(key=lambda r: r['i'])
    return finish(prop, mod, tier, seed, cfgs, results, viol, timed_out, t0, a)


def show(r):
    if 'error' in r:
        print('ERROR', r['cfg'], r['error'])
        return
    s = r['stats']
    print('cfg%d %s: paths=%d proved=%d dec=%d q=%d solver=%.1fs wall=%.1fs complete=%s viol=%d inc=%d val=%d mism=%d unsup=%d' % (
        r['i'], {k: v for k, v in r['cfg'].items() if not k.startswith('_')}, s['paths'], r['proved_paths'],
        s['decisions'], s['queries'], s['solver_s'], r['wall'], r['complete'], len(r['violations']),
        len(r['inconclusive']), r['validated'], len(r['mismatch']), s['unsupported']))
    for x in r['inconclusive'][:3]:
        print('    inc:', x)
    for x in r['mismatch'][:3]:
        print('    mismatch:', x)
    for k, v in list(r['notes'].items())[:4]:
        print('    note:', k, v)
    for v in r['violations'][:1]:
        print('    VIOL', v['why'], v['failed'], (v['exc'] or '')[-600:])


def finish(prop, mod, tier, seed, cfgs, results, viol, timed_out, t0, a):
    ok = [r for r in results if 'error' not in r]
    errors = [r for r in results if 'error' in r]
    S = {}
    for r in ok:
        for k, v in r['stats'].items():
            S[k] = S.get(k, 0) + v
    known = load_known(prop)
    out_viol, kn = [], []
    for r, v in viol:
        k = match_known(known, r, v)
        if k:
            kn.append(k)
        else:
            out_viol.append((r, v))
    for k in known:
        if k.get('status') == 'finding':
            print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    proved = sum(r['proved_paths'] for r in ok)
    incon = [x for r in ok for x in r['inconclusive']]
    mism = [x for r in ok for x in r['mismatch']]
    incomplete = [r['cfg'] for r in ok if not r['complete'] and not r['violations']]
    done = {r['i'] for r in results}
    notrun = [c for i, c in enumerate(cfgs) if i not in done]
    reach = sorted({x for r in ok for x in r['reach']})
    funcs = sorted({x for r in ok for x in r['functions']})
    samples = []
    for r in ok:
        for s in r['samples']:
            if len(samples) < 4:
                samples.append(dict(cfg=r['cfg'], **s))
    cov = {
        'states': S.get('paths', 0), 'transitions': S.get('decisions', 0),
        'traces_validated_against_impl': sum(r['validated'] for r in ok),
        'obligations': S.get('checks', 0),
        'paths_with_all_checks_proved': proved,
        'configurations': len(cfgs), 'configurations_exhausted': sum(1 for r in ok if r['complete']),
        'configurations_cut_by_budget': incomplete[:20], 'configurations_not_run': len(notrun),
        'smt_queries': S.get('queries', 0), 'solver_s': round(S.get('solver_s', 0), 2),
        'forks': S.get('forks', 0), 'merged_branches': S.get('merges', 0),
        'infeasible_paths': S.get('infeasible', 0), 'solver_unknown': S.get('unknown', 0),
        'unsupported_paths': S.get('unsupported', 0),
        'inconclusive': incon[:20], 'encoding_mismatches': mism[:10],
        'functions_encoded': funcs, 'bounds': getattr(mod, 'BOUNDS', ''),
        'outside_the_claim': getattr(mod, 'OUTSIDE', ''),
        'reachability_witnesses': reach,
        'required_situations': sum((r.get('goals') or [0, 0])[0] for r in ok),
        'required_situations_reached': sum((r.get('goals') or [0, 0])[1] for r in ok),
        'exhaustive': not incomplete and not notrun and not incon and not errors,
        'samples': samples or ['no path explored'],
    }
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'coverage': cov,
          'assumptions': ['floats are modelled as reals (1e-8 and thresholds exact rationals)',
                          'third party libraries are the stubs of vsx/stubs.py, random draws are free inputs'] +
          list(getattr(mod, 'ASSUME', [])),
          'wall_s': round(time.time() - t0, 2), 'violations': len(out_viol)}
    # (another source tree: a development run, kept out of the evidence)
    edir = os.path.join(HERE, 'evidence') if 'VSX_REPO' not in os.environ else '/tmp/vsx-evidence'
    os.makedirs(edir, exist_ok=True)
    if a.cfg is None:
        with open(os.path.join(edir, prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
    for r in errors:
        print('ERROR in configuration %s:\n%s' % (r['cfg'], r['error']))
    print('%s %s: %d configurations, %d paths, %d proved, %d checks, %d queries, %.1fs solver, %d validated, '
          '%d inconclusive, %d mismatches, %d cut, wall %.1fs' % (
              prop, tier, len(cfgs), S.get('paths', 0), proved, S.get('checks', 0), S.get('queries', 0),
              S.get('solver_s', 0), cov['traces_validated_against_impl'], len(incon), len(mism),
              len(incomplete) + len(notrun), time.time() - t0))
    for x in incon[:5]:
        print('INCONCLUSIVE', x[:300])
    for x in mism[:5]:
        print('MISMATCH', x[:300])
    if out_viol:
        r, v = out_viol[0]
        d = os.path.join(edir, 'replays')
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, '%s.json' % prop)
        with open(p, 'w') as f:
            json.dump({'property': prop, 'cfg': r['cfg'], 'env': v['env'], 'why': v['why'],
                       'envs': v.get('envs'), 'required': v.get('required'),
                       'failed': v['failed'], 'exc': v['exc'],
                       'run': '/opt/venv/bin/python /verif/replay.py ' + p}, f, indent=1)
        print('  configuration: %s' % json.dumps(r['cfg']))
        print('  %s' % v['why'])
        print('  failed on the real code: %s' % v['failed'])
        if v.get('exc'):
            print('  ' + v['exc'].strip().splitlines()[-1])
        print('VIOLATION property=%s replay=%s' % (prop, p))
        return 1
    if errors or proved == 0:
        print('NOTHING DECIDED' if proved == 0 else 'some configurations could not be run')
        return 2 if proved == 0 else 0
    return 0


def load_known(prop):
    p = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f) if k.get('property') == prop]


def match_known(known, r, v):
    for k in known:
        if k.get('status') != 'finding':
            continue
        if all(r['cfg'].get(x) == y for x, y in k.get('cfg', {}).items()) and \
                any(any(f.startswith(p) for f in (v['failed'] or [])) for p in k['failed']):
            return k
    return None


if __name__ == '__main__':
    sys.exit(main())
