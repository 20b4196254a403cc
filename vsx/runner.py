"""Symbolic exploration of one configuration of a harness, and replay."""
import json
import os
import subprocess
import sys
import tempfile
import time
import traceback
import importlib
from fractions import Fraction

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = os.environ.get('VSX_PYTHON', '/opt/venv/bin/python')


def jenv(env):
    out = {}
    for k, v in env.items():
        if isinstance(v, bool):
            out[k] = v
        elif isinstance(v, int):
            out[k] = v
        elif isinstance(v, Fraction):
            out[k] = str(v)
        else:
            out[k] = str(Fraction(v))
    return out


def scaled(env, f, names):
    """the real inputs (no draws) of an environment, multiplied so that the
    largest is f"""
    names = [k for k in env if k in names and not k.startswith('rng[')]
    m = max([abs(Fraction(env[k])) for k in names] or [0])
    if not m:
        return None
    out = dict(env)
    for k in names:
        out[k] = str(Fraction(env[k]) * Fraction(f) / m)
    return out


def shifted(env, eng, off):
    """the unbounded real inputs moved by off"""
    from . import terms as T
    out = dict(env)
    for name in eng.real_names():
        v = eng.vars.get(name)
        if name in out and type(v) is T.Sym:
            a = T._ATOMS[next(iter(v.p))[0]]
            if a.lo is None and a.hi is None:
                out[name] = out[name] + off
    return out


def replay(prop, cfg, envs, timeout=120):
    """run the harness on the real code for given inputs"""
    fd, path = tempfile.mkstemp(prefix='vsx', suffix='.json')
    try:
        with os.fdopen(fd, 'w') as f:
            json.dump({'property': prop, 'cfg': cfg, 'envs': envs}, f)
        e = dict(os.environ)
        e['PYTHONDONTWRITEBYTECODE'] = '1'
        for k in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS'):
            e[k] = '1'
        try:
            r = subprocess.run([PY, os.path.join(HERE, 'replay.py'), path, '--json'], stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE, timeout=timeout, env=e, cwd='/')
        except subprocess.TimeoutExpired:
            return [{'status': 'timeout'} for _ in envs]
        for line in r.stdout.decode('utf-8', 'replace').splitlines():
            if line.startswith('VSXRESULT '):
                return json.loads(line[10:])
        return [{'status': 'error', 'exc': r.stderr.decode('utf-8', 'replace')[-1500:]} for _ in envs]
    finally:
        os.unlink(path)


def conc_run(mod, cfg, env, only=None):
    """one concrete run (in this process: the project's interpreter)"""
    from . import hapi, world
    h = hapi.ConcH(env)
    try:
        w = world.ConcreteWorld(h)
        mod.run(h, cfg)
        st = 'violation' if h.failed else 'ok'
        return {'status': st, 'failed': h.failed[:10], 'checks': h.ncheck, 'goals': sorted(h.goals),
                'outputs': [[n, outval(v)] for n, v in h.outputs]}
    except hapi.Skipped:
        return {'status': 'skip', 'failed': h.failed[:10]}
    except hapi.AssumeFailed:
        return {'status': 'assume', 'failed': h.failed[:10]}
    except hapi.ReplayUnsupported as e:
        return {'status': 'unsupported', 'exc': str(e)}
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        inside = any('/convst/' in f.filename for f in tb)
        txt = ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-1800:]
        if h.failed:
            return {'status': 'violation', 'failed': h.failed[:10], 'exc': txt}
        return {'status': 'violation' if inside else 'harness-error',
                'failed': ['exception %s: %s' % (type(e).__name__, str(e)[:200])], 'exc': txt}


def outval(v):
    if getattr(v, 'ndim', 0) and hasattr(v, 'ravel'):
        return [outval(x) for x in list(v.ravel())]
    if isinstance(v, (list, tuple)):
        return [outval(x) for x in v]
    if isinstance(v, str) or v is None:
        return v
    try:
        return float(v)
    except (TypeError, ValueError):
        return str(v)


def sym_outval(v, env, memo):
    from . import terms as T
    if hasattr(v, 'd') and hasattr(v, 'dt'):
        return [sym_outval(x, env, memo) for x in list(v.d.ravel())]
    if isinstance(v, (list, tuple)):
        return [sym_outval(x, env, memo) for x in v]
    if isinstance(v, str) or v is None:
        return v
    if T.is_sym(v):
        return float(T.ev(v, env, memo))
    try:
        return float(v)
    except (TypeError, ValueError):
        return str(v)


def agree(a, b):
    if isinstance(a, list) or isinstance(b, list):
        return isinstance(a, list) and isinstance(b, list) and len(a) == len(b) and \
            all(agree(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, float):
        return abs(a - b) <= 1e-5 * (1 + abs(a)) or (a != a and b != b)
    return a == b


class ConfigRun(object):
    def __init__(self, prop, cfg, tier, seed, budget, max_paths, validate=2):
        self.prop = prop
        self.cfg = cfg
        self.tier = tier
        self.seed = seed
        self.budget = budget
        self.max_paths = max_paths
        self.nvalidate = validate

    def run(self):
        from . import engine, hapi, world, terms as T
        sys.setrecursionlimit(20000)
        t0 = time.time()
        mod = importlib.import_module('harness.' + self.prop.lower())
        T.reset_atoms()
        world._CODE.clear() if False else None
        eng = engine.Engine(max_paths=self.max_paths, deadline=t0 + self.budget, seed=self.seed)
        eng.track_cfg = None
        res = {'cfg': self.cfg, 'violations': [], 'inconclusive': [], 'samples': [], 'functions': set(),
               'proved_paths': 0, 'checks': 0, 'reach': set(), 'validated': 0, 'mismatch': [], 'exc_paths': 0}
        self.funcs = res['functions']
        self.replays = 0
        self.valid = []
        self.scales = getattr(mod, 'SCALED', False)
        T.NARROW.update(on=getattr(mod, 'NARROW', False), used=False)
        self.required = set()
        self.reps = []
        nth = [0]

        def prof(frame, event, arg):
            if event == 'call':
                fn = frame.f_code.co_filename
                if fn.startswith(world.REPO + '/convst/'):
                    n = frame.f_code.co_name
                    if not n.startswith(('__vsx', '<')):
                        res['functions'].add('%s:%s' % (fn[len(world.REPO) + 1:], n))

        def fn():
            h = hapi.SymH(eng)
            world.SymbolicWorld(h)
            nth[0] += 1
            if nth[0] < 4:
                sys.setprofile(prof)
            try:
                mod.run(h, self.cfg)
            finally:
                sys.setprofile(None)

        def on_path(eng, out):
            return self.path_end(eng, out, res)
        complete = eng.explore(fn, on_path)
        res['complete'] = complete
        self.ck_goals(eng, res)
        if self.valid:
            self.validate(res)
        res['stats'] = eng.stats
        res['notes'] = eng.notes
        res['functions'] = sorted(res['functions'])
        res['reach'] = sorted(res['reach'])
        res['wall'] = round(time.time() - t0, 2)
        return res

    # ---------------------------------------------------------------- paths
    def path_end(self, eng, out, res):
        from . import terms as T
        kind, e = out
        goals = []
        bad = None
        for n, c in eng.checks:
            if type(c) is T.SBool:
                goals.append((n, c))
            elif not c:
                bad = bad or n
        res['checks'] += len(eng.checks)
        res['reach'] |= eng.reach
        eng.stats['checks'] += len(eng.checks)
        # vacuity: the path must be satisfiable
        import z3
        r = eng.check()
        if r == z3.unsat:
            eng.stats['infeasible'] += 1
            eng.stats['paths'] -= 1
            return False
        base = eng.env()
        self.required |= eng.required
        if eng.required and kind == 'ok':
            self.reps.append((base or {}, set(eng.goals)))
        if bad is not None:
            envs = self.path_envs(eng, base)
            if envs is None:
                return False
            return self.candidate(eng, envs, 'check %s fails' % bad, res)
        if kind == 'exc':
            res['exc_paths'] += 1
            tb = ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-1500:]
            envs = self.path_envs(eng, base)
            if envs is None:
                return False
            return self.candidate(eng, envs, 'exception %s: %s' % (type(e).__name__, str(e)[:150]), res, tb)
        stop = False
        if goals:
            g = T.s_and(*[c for _, c in goals])
            v, env = eng.prove(g)
            if v == 'proved':
                res['proved_paths'] += kind != 'unsupported'
            elif v == 'cex':
                return self.candidate(eng, [env or {}] + ([base] if base else []),
                                      'solver counterexample', res)
            else:
                # undecided: split into single goals
                und = []
                for n, c in goals:
                    v1, env1 = eng.prove(c)
                    if v1 == 'cex':
                        return self.candidate(eng, [env1], 'solver counterexample: %s' % n, res)
                    if v1 == 'unknown':
                        und.append(n)
                if und:
                    envs = [x for x in [env] + eng.generic_envs(3, env or base) if x]
                    stop = self.candidate(eng, envs, 'undecided: %s' % und[0], res, soft=True)
                else:
                    res['proved_paths'] += kind != 'unsupported'
        elif eng.checks:
            res['proved_paths'] += kind != 'unsupported'
        if kind == 'unsupported':
            if len(res['inconclusive']) < 20:
                res['inconclusive'].append('unsupported: %s' % e)
            if self.replays < 6 and base is not None:
                envs = [x for x in [eng.nice(T_true())] + eng.generic_envs(2, base) if x] or [{}]
                stop = self.candidate(eng, envs, 'path outside the encoding: %s' % e, res, soft=True) or stop
        elif base is not None and len(self.valid) < self.nvalidate and (eng.stats['paths'] % 7 == 1 or len(self.valid) < 1):
            env = self.generic(eng, base) or eng.nice(T_true()) or base
            try:
                memo = {}
                outs = [[n, sym_outval(v, env, memo)] for n, v in eng.outputs]
                self.valid.append((env, outs))
            except (T.Unsupported, ZeroDivisionError, OverflowError):
                pass
        if len(res['samples']) < 2 and base:
            res['samples'].append({'path_condition': [str(b)[:120] for b in eng.pc[:6]],
                                   'checks': [n for n, _ in eng.checks[:4]],
                                   'model': {k: str(v) for k, v in list(jenv(base).items())[:12]}})
        return stop

    def ck_goals(self, eng, res):
        """goals that no path reaches (existence: some input must reach them);
        confirmed by running the real code on an input of every path"""
        missing = self.required - set().union(*[g for _, g in self.reps] or [()])
        res['goals'] = [len(self.required), len(self.required) - len(missing)]
        if not missing or res['violations']:
            return
        m = sorted(missing)[0]
        why = 'no input reaches: %s' % m
        if not res['complete'] or eng.stats['unsupported'] or res['inconclusive'] or eng.stats.get('unknown'):
            res['inconclusive'].append(why + ' (paths left open)')
            return
        js = [jenv(e) for e, _ in self.reps]
        rs = []
        for i in range(0, len(js), 200):
            rs += replay(self.prop, self.cfg, js[i:i + 200], 240)
        if any(r['status'] not in ('ok', 'violation') for r in rs) or any(m in r.get('goals', ()) for r in rs):
            res['inconclusive'].append(why + ' (not confirmed on the real code)')
            return
        res['violations'].append({'why': 'all %d paths explored: %s' % (len(js), why), 'env': js[0], 'envs': js,
                                  'required': sorted(missing), 'failed': ['unreachable: ' + m], 'exc': None})

    def path_envs(self, eng, base):
        """inputs that follow the current path; None if there are none (found
        out with every operation defined)"""
        import z3
        from .engine import nonlinear
        envs = []
        if nonlinear(eng.pc)[0]:
            r, m = eng.full(eng.pc, True, 10000)
            if r == z3.unsat:
                eng.stats['infeasible'] += 1
                eng.stats['paths'] -= 1
                return None
            if r == z3.sat:
                envs.append(eng.env_of(m))
        # (an empty environment is an input as well: there are no symbolic variables)
        g = self.generic(eng, base)
        return envs + [x for x in (eng.nice(T_true()), base, g) if x] or [{}]

    def generic(self, eng, base):
        """an input of this path without special structure"""
        from . import terms as T
        for env in eng.generic_envs(4, base, 8192):
            memo = {}
            try:
                if all(T.ev(b, env, memo) if T.is_sym(b) else b for b in eng.pc):
                    return env
            except (T.Unsupported, ZeroDivisionError, OverflowError, KeyError):
                pass
        return None

    def candidate(self, eng, envs, why, res, tb=None, soft=False):
        if self.replays >= 8 and len(res['inconclusive']) < 20:
            res['inconclusive'].append('%s (not replayed: replay budget)' % why)
            return False
        self.replays += 1
        js = [jenv(x) for x in envs]
        rs = replay(self.prop, self.cfg, js)
        for env, r in zip(js, rs):
            if r['status'] == 'violation':
                res['violations'].append({'why': why, 'env': env, 'failed': r.get('failed'),
                                          'exc': r.get('exc') or tb})
                return True
        if why.startswith('solver counterexample') and not soft and self.scales:
            # a difference too small to survive rounding: the same input at other scales
            js2 = [scaled(env, f, eng.real_names()) for env in js[:2] for f in (1e-8, 1e-6, 1e-3, 1)]
            js2 = [e for e in js2 if e is not None]
            for env, r in zip(js2, replay(self.prop, self.cfg, js2) if js2 else []):
                if r['status'] == 'violation':
                    res['violations'].append({'why': why + ' (scaled)', 'env': env, 'failed': r.get('failed'),
                                              'exc': r.get('exc') or tb})
                    return True
        from . import terms as T
        if T.NARROW['used']:
            # values were rounded to a narrower type: inputs of large magnitude show it
            js3 = [jenv(shifted(e, eng, off)) for off in (1 << 24, 12345678) for e in eng.generic_envs(2, envs[0], 8192)]
            for env, r in zip(js3, replay(self.prop, self.cfg, js3)):
                if r['status'] == 'violation':
                    res['violations'].append({'why': why + ' (values rounded to a narrower type)', 'env': env,
                                              'failed': r.get('failed'), 'exc': r.get('exc') or tb})
                    return True
        if os.environ.get('VSX_DEBUG'):
            print('CAND', why, js)
        msg = '%s (replay: %s)' % (why, ','.join(sorted({r['status'] for r in rs})))
        det = [r.get('exc') for r in rs if r.get('exc')]
        if len(res['inconclusive']) < 20:
            res['inconclusive'].append(msg + (' [%s]' % det[0][-400:] if det else '') +
                                       (' {sym: %s}' % tb[-600:] if tb else ''))
        return False

    def validate(self, res):
        rs = replay(self.prop, self.cfg, [jenv(e) for e, _ in self.valid])
        for (env, outs), r in zip(self.valid, rs):
            if r['status'] == 'skip':
                continue
            if r['status'] != 'ok':
                res['mismatch'].append('path model replays as %s: %s' % (r['status'], (r.get('failed') or [r.get('exc')])[:2]))
                res.setdefault('mismatch_env', jenv(env))
                continue
            if not agree(outs, r['outputs']):
                for a, b in zip(outs, r['outputs']):
                    if not agree(a, b):
                        res['mismatch'].append('output %s: encoding %s, real %s' % (a[0], str(a[1])[:200], str(b[1])[:200]))
                        break
                else:
                    res['mismatch'].append('outputs differ in number')
                continue
            res['validated'] += 1


def T_true():
    from . import terms as T
    return True
