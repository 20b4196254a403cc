"""Re-execution depth-first symbolic engine on top of z3."""
import time
import math
import random
import traceback
from fractions import Fraction
import z3
from . import terms as T
from .terms import Sym, SBool, _ATOMS

Q = z3.Q if hasattr(z3, 'Q') else None


def zval(c):
    if type(c) is int:
        return z3.RealVal(c)
    return z3.RealVal('%d/%d' % (c.numerator, c.denominator))


class Z3Enc(object):
    """terms -> z3.  mode 'lra': abs opaque; 'lin': abs/ite exact, nonlinear
    monomials, sqrt, 1/p opaque; 'full': everything defined."""

    def __init__(self, mode):
        self.mode = mode
        self.ac = {}
        self.bc = {}
        self.pc = {}
        self.mono = {}
        self.lossy = False

    def atom(self, a, defs):
        e = self.ac.get(a.id)
        if e is None:
            e = self._atom(a)
            self.ac[a.id] = e
        ex, ds, sub = e
        if a.id not in defs:
            defs[a.id] = ds
            for s in sub:
                if type(s) is SBool:
                    self.bool(s, defs)
                else:
                    self.poly(s, defs)
        return ex

    def _atom(self, a):
        k = a.kind
        nm = '!a%d' % a.id
        tmp = {}
        if k == 'var':
            x = z3.Int(a.args[1]) if a.is_int else z3.Real(a.args[1])
            ds = []
            if a.lo is not None:
                ds.append(x >= zval(a.lo))
            if a.hi is not None:
                ds.append(x <= zval(a.hi))
            return (z3.ToReal(x) if a.is_int else x), ds, ()
        if k == 'abs':
            s = a.args[0]
            if self.mode == 'lra':
                x = z3.Real(nm)
                return x, [x >= 0], (s,)
            p = self.poly(s, tmp)
            return z3.If(p >= 0, p, -p), [], (s,)
        if k == 'ite01':
            return z3.If(self.bool(a.args[0], tmp), z3.RealVal(1), z3.RealVal(0)), [], (a.args[0],)
        if k == 'ite':
            c, p, q = a.args
            return z3.If(self.bool(c, tmp), self.poly(p, tmp), self.poly(q, tmp)), [], (c, p, q)
        if k == 'sqrt':
            x = z3.Real(nm)
            ds = [x >= 0]
            if self.mode == 'full':
                ds.append(x * x == self.poly(a.args[0], tmp))
            if T.p_is_int(a.args[0].p):
                # root of a bounded integer: linear facts at the squares
                lo = T.p_lower(a.args[0].p)
                hi = T.p_lower(T.p_scale(a.args[0].p, -1))
                if lo is not None and lo >= 0 and hi is not None and -hi <= 1024:
                    p = self.poly(a.args[0], tmp)
                    for g in range(math.isqrt(int(lo)), math.isqrt(int(-hi)) + 2):
                        ds.append((x >= g) == (p >= g * g))
                        ds.append((x <= g) == (p <= g * g))
            return x, ds, (a.args[0],)
        if k == 'inv':
            x = z3.Real(nm)
            ds = []
            lo = T.p_lower(a.args[0].p)
            if lo is not None and lo > 0:
                ds += [x > 0, x <= zval(T.nfrac(Fraction(1) / lo))]
            if self.mode == 'full':
                ds.append(x * self.poly(a.args[0], tmp) == 1)
            return x, ds, (a.args[0],)
        if k == 'floor':
            x = z3.Int(nm)
            xr = z3.ToReal(x)
            p = self.poly(a.args[0], tmp)
            return xr, [xr <= p, p < xr + 1], (a.args[0],)
        if k == 'pow2':
            x = z3.Real(nm)
            p = self.poly(a.args[0], tmp)
            ds = [x > 0]
            lo = T.p_lower(a.args[0].p)
            hi = T.p_lower(T.p_scale(a.args[0].p, -1))
            l2 = math.floor(float(lo)) if lo is not None and lo > -10 else -2
            h2 = math.ceil(-float(hi)) if hi is not None and -hi < 12 else 6
            grid = set()
            for e in range(l2, h2 + 1):
                grid.add(Fraction(2) ** e)
            top = min(2 ** h2, 64)
            for v in range(1, 2 * top + 3):
                grid.add(Fraction(v, 2))
            for g in sorted(grid):
                # a concrete boundary log2(g); exact at powers of two
                lg = math.log2(g)
                lg = T.to_frac(lg)
                ds.append((x >= zval(T.nfrac(g))) == (p >= zval(lg)))
                if lg == int(lg):
                    ds.append((x <= zval(T.nfrac(g))) == (p <= zval(lg)))
            return x, ds, (a.args[0],)
        if k == 'uf':
            f = z3.Function('uf_%s' % a.args[0], *([z3.RealSort()] * len(a.args)))
            return f(*[self.poly(s, tmp) for s in a.args[1:]]), [], a.args[1:]
        raise AssertionError(k)

    def poly(self, s, defs):
        e = self.pc.get(s.key)
        terms = []
        # definitions must be collected even when the expression is cached
        for m, c in s.p.items():
            xs = [self.atom(_ATOMS[i], defs) for i in m]
            if e is None:
                if not xs:
                    terms.append(zval(c))
                    continue
                if len(xs) == 1:
                    x = xs[0]
                elif self.mode == 'full':
                    x = xs[0]
                    for y in xs[1:]:
                        x = x * y
                else:
                    x = z3.Real('!m' + '_'.join(map(str, m)))
                terms.append(x if c == 1 else zval(c) * x)
        if e is None:
            if not terms:
                e = z3.RealVal(0)
            elif len(terms) == 1:
                e = terms[0]
            else:
                e = z3.Sum(*terms)
            self.pc[s.key] = e
        if self.mode != 'full':
            for m in s.p:
                if len(m) > 1 and ('m', m) not in defs:
                    if all(_ATOMS[i].nonneg for i in m) or (len(m) == 2 and m[0] == m[1]):
                        defs[('m', m)] = [z3.Real('!m' + '_'.join(map(str, m))) >= 0]
                    else:
                        defs[('m', m)] = []
        return e

    def bool(self, b, defs):
        if type(b) is not SBool:
            return z3.BoolVal(bool(b))
        e = self.bc.get(b.id)
        if b.op in ('le', 'lt', 'eq'):
            p = self.poly(b.args[0], defs)
            if e is None:
                e = p <= 0 if b.op == 'le' else p < 0 if b.op == 'lt' else p == 0
        elif b.op == 'bvar':
            if e is None:
                e = z3.Bool(b.args[0])
        else:
            xs = [self.bool(x, defs) for x in b.args]
            if e is None:
                e = z3.Not(xs[0]) if b.op == 'not' else z3.And(*xs) if b.op == 'and' else z3.Or(*xs)
        self.bc[b.id] = e
        return e


def nonlinear(bs):
    """does any atom the booleans depend on need the full encoding"""
    acc = set()
    for b in bs:
        if type(b) is SBool:
            T.bool_atoms(b, acc)
    vars_, nl = [], False
    for i in acc:
        a = _ATOMS[i]
        if a.kind in ('sqrt', 'inv', 'pow2', 'uf'):
            nl = True
        elif a.kind == 'var':
            vars_.append(a)
    if not nl:
        nl = any(_has_mono(b, set()) for b in bs if type(b) is SBool)
    return nl, vars_


def _has_mono(b, seen):
    if ('b', b.id) in seen:
        return False
    seen.add(('b', b.id))
    if b.op == 'bvar':
        return False
    if b.op in ('le', 'lt', 'eq'):
        return _poly_mono(b.args[0], seen)
    return any(_has_mono(x, seen) for x in b.args)


def _poly_mono(s, seen):
    for m in s.p:
        if len(m) > 1:
            return True
        for i in m:
            if i in seen:
                continue
            seen.add(i)
            for x in _ATOMS[i].args:
                if type(x) is SBool and _has_mono(x, seen):
                    return True
                if type(x) is Sym and _poly_mono(x, seen):
                    return True
    return False


class Budget(T.EngineSignal):
    pass


class Engine(object):
    def __init__(self, max_paths=100000, deadline=None, seed=1):
        self.max_paths = max_paths
        self.deadline = deadline
        self.rnd = random.Random(seed)
        self.stats = dict(paths=0, decisions=0, forks=0, queries=0, solver_s=0.0,
                          checks=0, aborted=0, infeasible=0, unknown=0,
                          unsupported=0, merges=0)
        self.enc = Z3Enc('lin')
        self.solver = z3.SimpleSolver()
        self.solver.set('timeout', 10000)
        self.spec_depth = 0
        self.merge_on = True
        self.vars = {}
        self.consts = {}
        self.notes = {}

    def note(self, s):
        self.notes[s] = self.notes.get(s, 0) + 1

    # ------------------------------------------------------------- per path
    def start_path(self, prefix):
        self.prefix = prefix
        self.pos = 0
        self.choices = []       # list of [kind, taken, alternatives-left]
        self.pc = []            # SBools asserted
        self.pcset = set()
        self.pending = []
        self.defs = {}
        self.fixed = {}
        self.vars = {}
        self.consts = {}
        self.checks = []
        self.outputs = []
        self.reach = set()
        self.goals = set()
        self.required = set()
        self.model = None
        self.spec_depth = 0
        self.solver.push()

    def end_path(self):
        self.solver.pop()

    def assert_(self, b):
        if type(b) is not SBool:
            return bool(b)
        if b.id in self.pcset:
            return True
        self.pc.append(b)
        self.pcset.add(b.id)
        if b.op == 'and':
            for x in b.args:
                self.pcset.add(x.id)
        self.pending.append(b)
        return True

    def flush(self):
        if self.pending:
            for b in self.pending:
                d = {}
                e = self.enc.bool(b, d)
                self._adddefs(d)
                self.solver.add(e)
            self.pending = []

    def _adddefs(self, d):
        for k, ds in d.items():
            if k not in self.defs:
                self.defs[k] = True
                for x in ds:
                    self.solver.add(x)

    def check(self, extra=None):
        """sat check of the path condition (+ extra) in the 'lin' encoding"""
        self.flush()
        t = time.time()
        self.stats['queries'] += 1
        if extra is None:
            r = self.solver.check()
            if r == z3.sat:
                self.model = self.solver.model()
        else:
            d = {}
            e = self.enc.bool(extra, d)
            new = {k: v for k, v in d.items() if k not in self.defs}
            if any(new.values()):
                # definitions are harmless truths: keep them for the path
                self._adddefs(new)
            self.solver.push()
            self.solver.add(e)
            r = self.solver.check()
            if r == z3.sat:
                self.model = self.solver.model()
            self.solver.pop()
        self.stats['solver_s'] += time.time() - t
        if r == z3.unknown:
            self.stats['unknown'] += 1
        return r

    def under_model(self, b):
        """truth of b in the current model of the path condition (or None)"""
        if self.model is None:
            return None
        d = {}
        e = self.enc.bool(b, d)
        if any(v for k, v in d.items() if k not in self.defs):
            return None
        v = self.model.eval(e, model_completion=True)
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
        return None

    def decide(self, c):
        if type(c) is not SBool:
            return bool(c)
        if c.id in self.pcset:
            return True
        nc = T.s_not(c)
        if type(nc) is not SBool:
            return not nc
        if nc.id in self.pcset:
            return False
        if self.fixed:
            try:
                return bool(T.fix_ev(c, self.fixed))
            except T.NotFixed:
                pass
        if self.spec_depth:
            raise T.SpecAbort()
        if self.pos < len(self.prefix):
            kind, v = self.prefix[self.pos]
            self.pos += 1
            if kind in ('b', 'B'):
                self.assert_(c if v else nc)
                self.choices.append((kind, v))
                return v
            raise RuntimeError('nondeterministic re-execution (%s)' % kind)
        self.pos += 1
        if self.deadline and time.time() > self.deadline:
            raise Budget()
        self.stats['decisions'] += 1
        m = self.under_model(c)
        if m is None:
            rt = self.check(c) != z3.unsat
            mt = self.model
            rf = self.check(nc) != z3.unsat
            if rt:
                self.model = mt
        elif m:
            rt = True
            mt = self.model
            rf = self.check(nc) != z3.unsat
            self.model = mt
        else:
            rf = True
            mf = self.model
            rt = self.check(c) != z3.unsat
            if not rt:
                self.model = mf
        if rt and rf:
            self.stats['forks'] += 1
            self.choices.append(('b', True))
            self.work.append(self.choices[:-1] + [('b', False)])
            self.assert_(c)
            return True
        if rt:
            self.choices.append(('B', True))
            self.assert_(c)
            return True
        if rf:
            self.choices.append(('B', False))
            self.assert_(nc)
            return False
        raise T.PathAbort('infeasible')

    def entails(self, c):
        """is c implied by the path condition (no fork)"""
        if type(c) is not SBool:
            return bool(c)
        if c.id in self.pcset:
            return True
        return self.check(T.s_not(c)) == z3.unsat

    def entails_nonneg(self, x):
        """x >= 0 under the path condition: linear reasoning, then squares
        certificate by the full encoding"""
        c = T.le(0, x)
        if type(c) is not SBool:
            return bool(c)
        if self.psd(x):
            return True
        if self.check(T.s_not(c)) == z3.unsat:
            return True
        return self.full(self.pc, T.s_not(c), 5000)[0] == z3.unsat

    def psd(self, x):
        """quadratic form with a rational LDL^T certificate of
        non-negativity (x^T A x with monomials treated as variables)"""
        idx = {}
        quad = {}
        for m, c in x.p.items():
            if len(m) > 2:
                return False
            mm = (m + (-1, -1))[:2] if len(m) < 2 else m
            a, b = sorted(mm)
            quad[(a, b)] = c
            idx[a] = 1
            idx[b] = 1
        names = sorted(idx, reverse=True)
        n = len(names)
        A = [[Fraction(0)] * n for _ in range(n)]
        for (a, b), c in quad.items():
            i, j = names.index(a), names.index(b)
            if i == j:
                A[i][i] += c
            else:
                A[i][j] += Fraction(c) / 2
                A[j][i] += Fraction(c) / 2
        for i in range(n):
            if A[i][i] < 0:
                return False
            if A[i][i] == 0:
                if any(A[i][j] != 0 for j in range(i, n)):
                    return False
                continue
            for j in range(i + 1, n):
                f = A[j][i] / A[i][i]
                if f:
                    for k in range(i, n):
                        A[j][k] -= f * A[i][k]
        return True

    def full(self, pc, neg, timeout):
        """decide pc and neg with every operation defined (nlsat)"""
        enc = Z3Enc('full')
        s = z3.Solver()
        s.set('timeout', timeout)
        d = {}
        for b in list(pc) + [neg]:
            s.add(enc.bool(b, d))
        for ds in d.values():
            for x in ds:
                s.add(x)
        t = time.time()
        self.stats['queries'] += 1
        r = s.check()
        self.stats['solver_s'] += time.time() - t
        return r, (s.model() if r == z3.sat else None)

    def concretize(self, x, limit=80):
        c = T.p_const(x.p)
        if c is not None:
            return int(c)
        if self.fixed:
            try:
                return int(T.fix_ev(x, self.fixed))
            except T.NotFixed:
                pass
        if self.spec_depth:
            raise T.SpecAbort()
        n = 0
        while True:
            if self.pos < len(self.prefix):
                kind, v = self.prefix[self.pos]
                self.pos += 1
                assert kind in ('v', 'n', 'V'), 'nondeterministic re-execution'
                self.choices.append((kind, v))
                c = T.eq(x, v)
                if kind in ('v', 'V'):
                    self.assert_(c)
                    self.fix(x, v)
                    return v
                self.assert_(T.s_not(c))
                continue
            self.pos += 1
            if self.deadline and time.time() > self.deadline:
                raise Budget()
            self.stats['decisions'] += 1
            if self.check() == z3.unsat:
                raise T.PathAbort('infeasible')
            if self.model is None:
                raise T.Unsupported('solver unknown in concretisation')
            d = {}
            e = self.enc.poly(x, d)
            if any(v for k, v in d.items() if k not in self.defs):
                self._adddefs({k: v for k, v in d.items() if k not in self.defs})
                if self.check() != z3.sat:
                    raise T.Unsupported('solver unknown in concretisation')
            v = self.model.eval(e, model_completion=True)
            fr = Fraction(v.numerator_as_long(), v.denominator_as_long()) if z3.is_rational_value(v) else None
            if fr is None or fr.denominator != 1:
                raise T.Unsupported('non integral concretisation')
            v = int(fr)
            c = T.eq(x, v)
            nc = T.s_not(c)
            mm = self.model
            more = type(nc) is SBool and self.check(nc) != z3.unsat
            self.model = mm
            n += 1
            if more:
                self.stats['forks'] += 1
                if n > limit:
                    raise T.Unsupported('too many values')
                self.choices.append(('v', v))
                self.work.append(self.choices[:-1] + [('n', v)])
            else:
                self.choices.append(('V', v))
            self.assert_(c)
            self.fix(x, v)
            return v

    def fix(self, x, v):
        """remember atoms whose value the path condition determines"""
        t = [(m, c) for m, c in x.p.items() if m]
        if len(t) == 1 and len(t[0][0]) == 1:
            self.fixed[t[0][0][0]] = T.nfrac(Fraction(v - x.p.get((), 0)) / t[0][1])

    def choose(self, n, label='choose'):
        """free fork over n alternatives (driver-level nondeterminism)"""
        if self.pos < len(self.prefix):
            kind, v = self.prefix[self.pos]
            self.pos += 1
            self.choices.append((kind, v))
            return v
        self.pos += 1
        self.stats['forks'] += n - 1
        base = list(self.choices)
        for i in range(n - 1, 0, -1):
            self.work.append(base + [('c', i)])
        self.choices.append(('c', 0))
        return 0

    # ------------------------------------------------------------- explore
    def explore(self, fn, on_path):
        """run fn() over all paths; on_path(engine, outcome) at each end"""
        T.set_engine(self)
        self.work = [[]]
        complete = True
        while self.work:
            if self.stats['paths'] + self.stats['aborted'] >= self.max_paths or \
                    (self.deadline and time.time() > self.deadline):
                complete = False
                break
            prefix = self.work.pop()
            self.start_path(prefix)
            try:
                try:
                    fn()
                    out = ('ok', None)
                except T.PathAbort as e:
                    self.stats['infeasible'] += 1
                    continue
                except Budget:
                    complete = False
                    break
                except T.Unsupported as e:
                    self.stats['unsupported'] += 1
                    tb = traceback.extract_tb(e.__traceback__)
                    loc = ''
                    for f in reversed(tb):
                        if '/convst/' in f.filename:
                            loc = ' at %s:%s' % (f.filename.split('/convst/')[-1], f.lineno)
                            break
                    self.note('unsupported: %s%s' % (e, loc))
                    out = ('unsupported', e)
                except T.SpecAbort as e:
                    self.stats['unsupported'] += 1
                    self.note('unsupported: escaped speculation')
                    out = ('unsupported', e)
                except Exception as e:
                    out = ('exc', e)
                if out[0] != 'ok' and out[0] != 'unsupported':
                    if self.check() == z3.unsat:
                        self.stats['infeasible'] += 1
                        continue
                self.stats['paths'] += 1
                stop = on_path(self, out)
                if stop:
                    complete = False
                    break
            finally:
                self.end_path()
        return complete

    # ------------------------------------------------- deciding assertions
    def prove(self, goal):
        """('proved', None) | ('cex', model-env) | ('unknown', env)"""
        if type(goal) is not SBool:
            if goal:
                return 'proved', None
            self.check()
            return 'cex', self.env()
        if goal.id in self.pcset:
            return 'proved', None
        neg = T.s_not(goal)
        if type(neg) is not SBool:
            return 'proved', None
        # tier 1: abs opaque
        r = self.tier1(neg)
        if r == z3.unsat:
            return 'proved', None
        r = self.check(neg)
        if r == z3.unsat:
            return 'proved', None
        nl, _ = nonlinear(self.pc + [neg])
        if r == z3.sat:
            env = self.env()
            if not nl:
                return 'cex', self.nice(neg) or env
        else:
            env = None
        r, m = self.full(self.pc, neg, 10000)
        if r == z3.unsat:
            return 'proved', None
        if r == z3.sat:
            return 'cex', self.env_of(m)
        return 'unknown', env

    def tier1(self, neg):
        enc = self.__dict__.setdefault('enc1', None)
        if enc is None:
            enc = self.enc1 = Z3Enc('lra')
        s = z3.SimpleSolver()
        s.set('timeout', 5000)
        d = {}
        for b in self.pc + [neg]:
            s.add(enc.bool(b, d))
        for ds in d.values():
            for x in ds:
                s.add(x)
        t = time.time()
        self.stats['queries'] += 1
        r = s.check()
        self.stats['solver_s'] += time.time() - t
        return r

    def nice(self, neg):
        """prefer a model on a coarse grid (exact in floats, robust)"""
        self.flush()
        d = {}
        e = self.enc.bool(neg, d)
        self._adddefs(d)
        for bound in (8, 64):
            self.solver.push()
            self.solver.add(e)
            for n, v in enumerate(self.vars.values()):
                if type(v) is not SBool and v.k == 'f' and len(v.p) == 1:
                    a = _ATOMS[next(iter(v.p))[0]]
                    x = self.enc.atom(a, {})
                    k = z3.Int('nice%d' % n)
                    self.solver.add(x * 4 == z3.ToReal(k))
                    if a.lo is None or a.lo >= -bound:
                        self.solver.add(x >= -bound)
                    if a.hi is None or a.hi <= bound:
                        self.solver.add(x <= bound)
            self.solver.set('timeout', 4000)
            t = time.time()
            self.stats['queries'] += 1
            r = self.solver.check()
            self.stats['solver_s'] += time.time() - t
            m = self.solver.model() if r == z3.sat else None
            self.solver.pop()
            self.solver.set('timeout', 10000)
            if m is not None:
                return self.env_of(m)
        return None

    def env(self):
        return self.env_of(self.model) if self.model is not None else None

    def real_names(self):
        return set(n for n, v in self.vars.items()
                   if type(v) is not SBool and not _ATOMS[next(iter(v.p))[0]].is_int)

    def env_of(self, m):
        env = dict(self.consts)
        for name, v in self.vars.items():
            if type(v) is SBool:
                x = m.eval(z3.Bool(name), model_completion=True)
                env[name] = z3.is_true(x)
                continue
            a = _ATOMS[next(iter(v.p))[0]]
            x = m.eval(z3.Int(a.args[1]) if a.is_int else z3.Real(a.args[1]), model_completion=True)
            if z3.is_algebraic_value(x):
                x = x.approx(20)
            fr = Fraction(x.as_long()) if z3.is_int_value(x) else \
                Fraction(x.numerator_as_long(), x.denominator_as_long())
            # a variable the solver never saw has no bound there: any value
            # within its declared range extends the model
            if a.lo is not None and fr < a.lo:
                fr = Fraction(a.lo)
            if a.hi is not None and fr > a.hi:
                fr = Fraction(a.hi)
            env[name] = T.nfrac(fr)
        return env

    def generic_envs(self, n, base, den=8):
        """random perturbations of the free real inputs of a model (candidate
        counterexamples for non linear conditions; replay decides)"""
        out = []
        for i in range(n):
            env = dict(base or {})
            for name, v in self.vars.items():
                if type(v) is SBool:
                    continue
                a = _ATOMS[next(iter(v.p))[0]]
                if a.is_int:
                    continue
                lo = a.lo if a.lo is not None else -4
                hi = a.hi if a.hi is not None else 4
                env[name] = T.to_frac(round(self.rnd.uniform(float(lo), float(hi)) * den) / float(den))
                if env[name] < lo:
                    env[name] = T.to_frac(lo)
            out.append(env)
        return out
