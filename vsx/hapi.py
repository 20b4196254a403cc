"""What a harness sees: inputs, assumptions and checks, in both worlds."""
import math
import re
from fractions import Fraction


class AssumeFailed(Exception):
    pass


class Skipped(AssumeFailed):
    """a replay that ends where rounding decides"""


class ReplayUnsupported(Exception):
    pass


class Base(object):
    pinned = False      # preparatory code: one outcome of every choice only

    def load(self, name):
        return self.w.load(name)

    @property
    def np(self):
        return self.w.np

    def pick(self, name, xs):
        return xs[self.draw_index(name, len(xs))]

    def choose(self, name, n):
        return self.draw_index(name, n)

    def reals(self, name, shape, lo=None, hi=None):
        if isinstance(shape, int):
            shape = (shape,)
        n = 1
        for s in shape:
            n *= s
        xs = [self.real('%s[%s]' % (name, self._ix(i, shape)), lo, hi) for i in range(n)]
        return self.np.asarray(xs, dtype=float).reshape(shape)

    @staticmethod
    def _ix(i, shape):
        out = []
        for s in reversed(shape):
            out.append(str(i % s))
            i //= s
        return ','.join(reversed(out))

    def ints(self, name, shape, lo, hi):
        if isinstance(shape, int):
            shape = (shape,)
        n = 1
        for s in shape:
            n *= s
        xs = [self.int('%s[%s]' % (name, self._ix(i, shape)), lo, hi) for i in range(n)]
        return self.np.asarray(xs, dtype=int).reshape(shape)

    def sum(self, xs):
        s = 0
        for x in xs:
            s = s + x
        return s

    def mean(self, xs):
        return self.sum(xs) / len(xs)

    def std(self, xs):
        m = self.mean(xs)
        return self.sqrt(self.sum([(x - m) * (x - m) for x in xs]) / len(xs))

    def znorm(self, xs):
        m, s = self.mean(xs), self.std(xs)
        return [(x - m) / (s + 1e-8) for x in xs]

    def manhattan(self, a, b):
        return self.sum([self.abs(x - y) for x, y in zip(a, b)])

    def cands(self, x, length, dil, phase):
        """the admissible dilated subsequences of a series (spec)"""
        n = len(x)
        m = n if phase else n - (length - 1) * dil
        return [[x[(i + j * dil) % n] if phase else x[i + j * dil] for j in range(length)] for i in range(m)]

    def dist_vector(self, x, values, length, dil, norm, phase):
        return [self.manhattan(self.znorm(c) if norm else c, values) for c in self.cands(x, length, dil, phase)]

    def all_eq(self, xs, ys):
        return self.and_(*[self.eq(a, b) for a, b in zip(xs, ys)])

    def numbers(self, text):
        """the numbers written in a text, symbolic ones included"""
        out = []
        for m in re.finditer(r'<sym (\d+)>|-?\d+(?:\.\d+)?(?:e-?\d+)?', text):
            if m.group(1) is not None:
                out.append(self.T.PRINTED[int(m.group(1))])
            else:
                out.append(float(m.group(0)) if '.' in m.group(0) or 'e' in m.group(0) else int(m.group(0)))
        return out

    def ck_list(self, name, xs, ys):
        """element by element equality, lengths included"""
        xs, ys = list(xs), list(ys)
        self.check(name + ' (count %d vs %d)' % (len(xs), len(ys)), len(xs) == len(ys))
        for i, (a, b) in enumerate(zip(xs, ys)):
            self.check('%s[%d]' % (name, i), self.eq(a, b))

    def ck_arr(self, name, arr, ys, shape=None):
        if shape is not None:
            self.check('%s shape %s' % (name, tuple(arr.shape)), tuple(arr.shape) == tuple(shape))
        self.ck_list(name, self.elems(arr), ys)

    def elems(self, arr):
        return list(arr.ravel()) if hasattr(arr, 'ravel') else list(arr)

    def call(self, fn, *a, **k):
        """('ok', value) or ('exc', exception)"""
        try:
            return 'ok', fn(*a, **k)
        except (AssumeFailed, ReplayUnsupported):
            raise
        except Exception as e:
            return 'exc', e

    def rounding(self, c):
        """end a replay whose outcome hangs on float rounding"""
        if self.mode == 'conc' and c:
            raise Skipped()

    def ck_raises(self, name, exc, fn, *a, **k):
        s, v = self.call(fn, *a, **k)
        self.check('%s: expected %s, got %s' % (name, exc.__name__, 'no exception' if s == 'ok' else type(v).__name__),
                   s == 'exc' and isinstance(v, exc))

    def snapshot(self, a):
        """element list and shape of an array (or list of arrays)"""
        if isinstance(a, (list, tuple)):
            return [self.snapshot(x) for x in a]
        if hasattr(a, 'shape') and hasattr(a, 'ravel') and getattr(a, 'ndim', 0) > 0:
            return (tuple(a.shape), str(a.dtype), list(a.copy().ravel()))
        return a

    def same(self, s, t):
        """truth value: two snapshots agree exactly"""
        if isinstance(s, list):
            if not isinstance(t, list) or len(s) != len(t):
                return False
            return self.and_(*[self.same(a, b) for a, b in zip(s, t)]) if s else True
        if isinstance(s, tuple):
            if not isinstance(t, tuple) or s[0] != t[0] or s[1] != t[1]:
                return False
            if s[1] == 'object':
                return self.and_(*[self.same(self.snapshot(a), self.snapshot(b)) for a, b in zip(s[2], t[2])]) if s[2] else True
            return self.and_(*[self.ident(a, b) for a, b in zip(s[2], t[2])]) if s[2] else True
        return self.ident(s, t)


class SymH(Base):
    mode = 'sym'

    def __init__(self, eng):
        from . import terms as T
        self.T = T
        self.eng = eng
        self.memo = {}
        T.PRINTED[:] = []
        self.ncheck = 0

    # -------------------------------------------------------------- inputs
    def _reg(self, name, v):
        self.eng.vars[name] = v
        return v

    def real(self, name, lo=None, hi=None, default=None):
        return self._reg(name, self.T.var(name, False, lo, hi))

    def int(self, name, lo=None, hi=None):
        if lo is not None and lo == hi:
            return lo
        return self._reg(name, self.T.var(name, True, lo, hi))

    def bool(self, name):
        return self._reg(name, self.T.bvar(name))

    def draw_unit(self, name):
        v = self.real(name, 0, 1)
        self.eng.assert_(self.T.lt(v, 1))
        return v

    def draw_uniform(self, name, lo, hi):
        T = self.T
        lo, hi = self._sc(lo), self._sc(hi)
        if not T.is_sym(lo) and not T.is_sym(hi):
            a, b = (lo, hi) if lo <= hi else (hi, lo)
            if a == b:
                return float(a)
            return self.real(name, float(a), float(b))
        lo, hi = T.lift(lo), T.lift(hi)
        key = (lo.key, hi.key)
        k = 0
        while True:
            nm = name if k == 0 else '%s~%d' % (name, k)
            m = self.memo.get(nm)
            if m is None or m[0] == key:
                break
            k += 1
        if m is not None:
            return m[1]
        if lo.key == hi.key:
            v = lo
        else:
            v = self.real(nm)
            self.eng.assert_(T.s_or(T.s_and(T.le(lo, v), T.le(v, hi)), T.s_and(T.le(hi, v), T.le(v, lo))))
        self.memo[nm] = (key, v)
        return v

    def _sc(self, x):
        if hasattr(x, 'd') and hasattr(x, 'dt'):
            return next(iter(x.d.flat))
        return x

    def drawn(self, name):
        return False

    def draw_index(self, name, n):
        if n == 1:
            return 0
        k = (name, n)
        if k in self.memo:
            return self.memo[k]
        i = 0 if self.pinned else self.eng.choose(n)
        self.eng.consts[name] = i
        self.memo[k] = i
        return i

    # --------------------------------------------------- assume and assert
    def assume(self, c):
        if not self.eng.assert_(self._sc(c)):
            raise self.T.PathAbort('assumption')

    def check(self, name, c):
        c = self._sc(c)
        self.ncheck += 1
        if hasattr(c, '_real'):
            c = bool(c)
        self.eng.checks.append((name, c))

    def reach(self, name):
        self.eng.reach.add(name)

    def require(self, names):
        """goals that some path of the configuration has to reach"""
        self.eng.required |= set(names)

    def goal(self, name):
        self.eng.goals.add(name)

    def out(self, name, v):
        self.eng.outputs.append((name, v))

    def truth(self, c):
        return bool(c)

    def unsupported(self, msg):
        raise self.T.Unsupported(msg)

    # ------------------------------------------------------------ operators
    def eq(self, a, b):
        a, b = self._sc(a), self._sc(b)
        if self.T.is_sym(a) or self.T.is_sym(b):
            r = self.T.eq(a, b)
            return False if r is NotImplemented else r
        if isinstance(a, float) or isinstance(b, float):
            try:
                fa, fb = float(a), float(b)
            except (TypeError, ValueError):
                return bool(a == b)
            if math.isfinite(fa) and math.isfinite(fb):
                return abs(fa - fb) <= 1e-9 * (1 + abs(fa))
            return fa == fb or (fa != fa and fb != fb)
        return bool(a == b)

    def ident(self, a, b):
        a, b = self._sc(a), self._sc(b)
        if self.T.is_sym(a) or self.T.is_sym(b):
            r = self.T.eq(a, b)
            return False if r is NotImplemented else r
        return a is b or bool(a == b) or (a != a and b != b)

    def le(self, a, b, exact=False):
        return self.T.le(self._sc(a), self._sc(b))

    def lt(self, a, b, exact=False):
        return self.T.lt(self._sc(a), self._sc(b))

    def and_(self, *xs):
        return self.T.s_and(*xs)

    def or_(self, *xs):
        return self.T.s_or(*xs)

    def not_(self, x):
        return self.T.s_not(x)

    def implies(self, a, b):
        return self.T.s_or(self.T.s_not(a), b)

    def ite(self, c, a, b):
        return self.T.ite(c, a, b)

    def abs(self, x):
        return self.T.sabs(x)

    def sqrt(self, x):
        x = self._sc(x)
        if self.T.is_sym(x):
            return self.T.ssqrt(x)
        return math.sqrt(x)

    def to_int(self, b):
        return self.T.b2i(b) if self.T.is_sym(b) else int(b)

    def value_key(self, arr):
        out = []
        for e in self.elems(arr):
            out.append(('s', e.key) if isinstance(e, self.T.Sym) else ('b', e.id) if isinstance(e, self.T.SBool)
                       else ('c', self.T.to_frac(e) if self.T._num(e) else e))
        return tuple(out)

    def uf(self, name, args):
        return self.T.uf(name, *args)

    def is_sym(self, x):
        return self.T.is_sym(x)

    # ----------------------------------------------------- parallel loops
    def track_begin(self, w):
        from . import symnp
        self.TR = symnp.TRACK
        if w.track:
            self.TR.begin(0)

    def track_iter(self, w, i):
        if w.track:
            self.TR.it = i

    def track_end(self, w):
        pass

    def conflicts(self):
        from . import symnp
        return symnp.TRACK.conflicts


class ConcH(Base):
    mode = 'conc'
    TOL = 1e-6

    def __init__(self, env):
        self.env = {}
        for k, v in env.items():
            if isinstance(v, str):
                v = Fraction(v)
            self.env[k] = v
        self.memo = {}
        self.failed = []
        self.ncheck = 0
        self.outputs = []
        self.used = set()
        self.goals = set()
        self._conf = []

    def real(self, name, lo=None, hi=None, default=None):
        self.used.add(name)
        v = self.env.get(name)
        if v is None:
            if default is not None:
                return default
            v = lo if lo is not None else 0
        return float(v)

    def int(self, name, lo=None, hi=None):
        v = self.env.get(name)
        if v is None:
            v = lo if lo is not None else 0
        return int(v)

    def bool(self, name):
        return bool(self.env.get(name, False))

    def draw_unit(self, name):
        v = self.env.get(name)
        if v is None:
            return 0.5
        return min(max(float(v), 0.0), 1.0 - 2.0 ** -53)

    def draw_uniform(self, name, lo, hi):
        lo, hi = float(lo), float(hi)
        a, b = min(lo, hi), max(lo, hi)
        k = 0
        while True:
            nm = name if k == 0 else '%s~%d' % (name, k)
            m = self.memo.get(nm)
            if m is None or (abs(m[0][0] - lo) < 1e-9 and abs(m[0][1] - hi) < 1e-9):
                break
            k += 1
        if m is not None:
            return m[1]
        v = self.env.get(nm)
        v = a if v is None else min(max(float(v), a), b)
        self.memo[nm] = ((lo, hi), v)
        return v

    def drawn(self, name):
        """is the draw an input of this replay"""
        return name in self.env or name + '~1' in self.env

    def draw_index(self, name, n):
        if n == 1:
            return 0
        v = self.env.get(name)
        return int(v) % n if v is not None else 0

    def assume(self, c):
        if not c:
            raise AssumeFailed()

    def check(self, name, c):
        self.ncheck += 1
        if not bool(c):
            self.failed.append(name)

    def reach(self, name):
        pass

    def require(self, names):
        pass

    def goal(self, name):
        self.goals.add(name)

    def out(self, name, v):
        self.outputs.append((name, v))

    def truth(self, c):
        return bool(c)

    def unsupported(self, msg):
        raise ReplayUnsupported(msg)

    def eq(self, a, b):
        if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
            return a == b
        try:
            a, b = float(a), float(b)
        except (TypeError, ValueError):
            return bool(a == b)
        if a == b:
            return True
        if math.isnan(a) or math.isnan(b) or math.isinf(a) or math.isinf(b):
            return math.isnan(a) and math.isnan(b)
        return abs(a - b) <= self.TOL * (1 + min(abs(a), abs(b)))

    def ident(self, a, b):
        if a is b:
            return True
        try:
            if a == b:
                return True
            return math.isnan(a) and math.isnan(b)
        except Exception:
            return False

    def le(self, a, b, exact=False):
        return a <= b if exact else a <= b + self.TOL * (1 + abs(b))

    def lt(self, a, b, exact=False):
        return a < b if exact else a < b + self.TOL * (1 + abs(b))

    def and_(self, *xs):
        return all(bool(x) for x in xs)

    def or_(self, *xs):
        return any(bool(x) for x in xs)

    def not_(self, x):
        return not x

    def implies(self, a, b):
        return (not a) or bool(b)

    def ite(self, c, a, b):
        return a if c else b

    def abs(self, x):
        return abs(x)

    def sqrt(self, x):
        return math.sqrt(x) if x > 0 else 0.0

    def to_int(self, b):
        return int(bool(b))

    def value_key(self, arr):
        out = []
        for e in self.elems(arr):
            try:
                out.append(round(float(e), 9))
            except (TypeError, ValueError):
                out.append(e)
        return tuple(out)

    def uf(self, name, args):
        import hashlib
        h = int(hashlib.md5(name.encode()).hexdigest()[:6], 16)
        s = (h % 97) / 13.0
        for i, a in enumerate(args):
            s += ((h >> (i % 11)) % 23 + 1.25 + i) * float(a)
        return s

    def is_sym(self, x):
        return False

    def track_begin(self, w):
        if w.track:
            from . import tracknp
            tracknp.begin(self)

    def track_iter(self, w, i):
        if w.track:
            from . import tracknp
            tracknp.iteration(self, i)

    def track_end(self, w):
        if w.track:
            from . import tracknp
            tracknp.end(self)

    def conflicts(self):
        return self._conf
