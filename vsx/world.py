"""Loads convst from /repo's current source into one of two worlds: symbolic
(numpy look-alike, rewritten source) or concrete (real numpy, the source as it
is).  Python 3.9 compatible; used by the replay under the project's own
interpreter."""
import os
import sys
import hashlib
import types
import builtins
import importlib
from . import rng
from . import stubs

REPO = os.environ.get('VSX_REPO', '/repo')
_CODE = {}


class World(object):
    def __init__(self, h):
        self.h = h
        h.w = self
        rng.W = self
        self.ctx = []          # njit call stack: parallel flag
        self.iters = []        # iteration of the current parallel loop
        self.schedule = 'forward'
        self.track = False
        self.loops = 0
        self.cpus = 4
        self.num_threads = self.cpus
        self.threads_log = []
        self.records = []
        self.plots = []
        self.overloads = []
        self.pin_p = None
        self.datasets = {}
        self.counts = {}
        self.memo = {}
        self.fresh = 0
        self.real_pandas = False
        self.pin_ridge = False
        self.semi_lib = 0       # k: all but one in k of the libraries' outcomes are fixed
        self.setup()

    # ----------------------------------------------------------- services
    def rec(self, kind, **kw):
        kw['kind'] = kind
        self.records.append(kw)

    def recs(self, kind):
        return [r for r in self.records if r['kind'] == kind]

    def count(self, k):
        n = self.counts.get(k, 0)
        self.counts[k] = n + 1
        return n

    def fresh_id(self):
        self.fresh += 1
        return self.fresh - 1

    def in_njit(self):
        return bool(self.ctx)

    def iter_tag(self):
        return '@%d' % self.iters[-1] if self.iters else ''

    def set_num_threads(self, n):
        self.threads_log.append(n)
        self.num_threads = n

    def parallel_loop(self, r):
        idx = list(r)
        if self.schedule == 'reverse':
            idx.reverse()
        self.loops += 1
        self.h.track_begin(self)
        try:
            for i in idx:
                self.iters.append(i)
                self.h.track_iter(self, i)
                try:
                    yield i
                finally:
                    self.h.track_iter(self, None)
                    self.iters.pop()
        finally:
            self.h.track_end(self)

    def lib_real(self, name, lo=None, hi=None):
        """an outcome of a library: arbitrary, or (semi_lib) fixed but for some"""
        v = int(hashlib.md5(name.encode()).hexdigest()[:7], 16)
        if not self.semi_lib or v % self.semi_lib == 0:
            return self.h.real(name, lo, hi)
        lo = -8.0 if lo is None else lo
        hi = 8.0 if hi is None else hi
        return lo + (hi - lo) * ((v >> 4) % 255 + 1) / 256.0

    def fresh_array(self, name, shape):
        n = 1
        for s in shape:
            n *= s
        if self.pin_ridge and name.startswith('ridge'):
            xs = [float(1 + i % 3) for i in range(n)]
        else:
            xs = [self.lib_real('%s[%d]' % (name, i)) for i in range(n)]
        return self.np.asarray(xs, dtype=float).reshape(shape)

    def memo_values(self, key, arr, n, prefix, lo=None, hi=None):
        k = (key, self.h.value_key(arr))
        if k not in self.memo:
            i = self.count(prefix)
            self.memo[k] = [self.lib_real('%s#%d.%d' % (prefix, i, j), lo, hi) for j in range(n)]
        return list(self.memo[k])

    def simplex(self, key, arr, n):
        k = (key, self.h.value_key(arr))
        if k not in self.memo:
            i = self.count(key[0])
            v = [self.lib_real('%s#%d.%d' % (key[0], i, j), 0, 1) for j in range(n)]
            if self.semi_lib:
                v = [x / n for x in v]
            # the last entry is determined: rows sum to one
            s = 0
            for x in v[:-1]:
                s = s + x
            v[-1] = 1 - s
            self.h.assume(v[-1] >= 0)
            self.memo[k] = v
        return list(self.memo[k])

    def uf(self, name, args):
        return self.h.uf(name, args)


class ConcreteWorld(World):
    def setup(self):
        import numpy
        self.np = numpy
        self.real_np = numpy
        self.np_global = rng.fill_module(numpy.random, rng.GlobalStream())
        emp = getattr(numpy, '_vsx_empty', None) or numpy.empty
        numpy._vsx_empty = emp

        def empty(shape, dtype=float, order='C', **k):
            a = emp(shape, dtype, order)
            if a.dtype.kind == 'f' and sys._getframe(1).f_globals.get('__name__', '').startswith('convst'):
                i = self.count('empty')
                for j in range(a.size):
                    a.flat[j] = self.h.real('empty#%d[%d]' % (i, j), default=12345.678)
            elif a.dtype.kind in 'iu' and sys._getframe(1).f_globals.get('__name__', '').startswith('convst'):
                a[...] = 77777
            return a
        numpy.empty = empty
        jl, self.joblib_delayed, self.Parallel = stubs.joblib_mods(self)
        for n in list(sys.modules):
            if n == 'convst' or n.startswith('convst.'):
                del sys.modules[n]
        for n in list(sys.modules):
            if n.split('.')[0] in ('numba', 'sklearn', 'joblib', 'scipy', 'aeon', 'networkx',
                                   'matplotlib', 'seaborn'):
                del sys.modules[n]
        for d in (stubs.numba_mods(self), jl, stubs.sklearn_mods(self), stubs.other_mods(self)):
            sys.modules.update(d)
        os.cpu_count = lambda: self.cpus
        import multiprocessing
        multiprocessing.cpu_count = lambda: self.cpus
        if REPO not in sys.path:
            sys.path.insert(0, REPO)
        sys.dont_write_bytecode = True

    def load(self, name):
        if name.startswith('convst.utils') or name.startswith('convst.classifiers') or True:
            if not self.real_pandas and 'pandas' not in sys.modules:
                from . import pdstub
                sys.modules.update(pdstub.mods(self))
            elif self.real_pandas and getattr(sys.modules.get('pandas'), '_vsx_stub', False):
                for n in list(sys.modules):
                    if n.split('.')[0] == 'pandas':
                        del sys.modules[n]
        return importlib.import_module(name)


class SymbolicWorld(World):
    def setup(self):
        from . import symnp, rewrite, symmath
        import numpy
        self.real_np = numpy
        self.np = symnp.make_module()
        rnd = types.ModuleType('numpy.random')
        gs = rng.GlobalStream()
        self.np.random = rnd
        self.np_global = rng.fill_module(rnd, gs)
        rnd.mtrand = types.SimpleNamespace(_rand=self.np_global)
        self.runtime = rewrite.Runtime
        self.mods = {'numpy': self.np, 'numpy.random': rnd, 'numpy.linalg': self.np.linalg,
                     'numpy.lib': self.np.lib, 'numpy.lib.stride_tricks': self.np.lib.stride_tricks,
                     'numpy.fft': self.np.fft, 'math': symmath.make_module()}
        jl, self.joblib_delayed, self.Parallel = stubs.joblib_mods(self)
        from . import pdstub
        for d in (stubs.numba_mods(self), jl, stubs.sklearn_mods(self), stubs.other_mods(self),
                  pdstub.mods(self)):
            self.mods.update(d)
        o = types.ModuleType('os')
        o.__dict__.update(os.__dict__)
        o.cpu_count = lambda: self.cpus
        o.sched_getaffinity = lambda p: set(range(self.cpus))
        self.mods['os'] = o
        self.mods['os.path'] = os.path
        mp = types.ModuleType('multiprocessing')
        mp.cpu_count = lambda: self.cpus
        self.mods['multiprocessing'] = mp
        ti = types.ModuleType('timeit')
        ti.default_timer = lambda: float(self.count('timer'))
        self.mods['timeit'] = ti
        tm = types.ModuleType('time')
        tm.time = tm.perf_counter = tm.process_time = lambda: float(self.count('timer'))
        self.mods['time'] = tm
        b = dict(builtins.__dict__)
        b.update(__import__=self.import_, min=rewrite.b_min, max=rewrite.b_max, any=rewrite.b_any,
                 all=rewrite.b_all, isinstance=rewrite.b_isinstance, print=lambda *a, **k: None)
        self.builtins = b
        symnp.HOOKS['empty'] = self.fill_empty
        symnp.TRACK.__init__()

    def fill_empty(self, a):
        if a.d.size == 0 or a.d.size > 400:
            return
        i = self.count('empty')
        if a.dt.kind == 'f':
            for j in range(a.d.size):
                a.d.flat[j] = self.h.real('empty#%d[%d]' % (i, j))
        elif a.dt.kind in 'iu':
            for j in range(a.d.size):
                a.d.flat[j] = 77777

    def import_(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals.get('__package__') or globals['__name__']
            base = pkg.split('.')
            if level > 1:
                base = base[:-(level - 1)]
            name = '.'.join(base + ([name] if name else []))
        top = name.split('.')[0]
        if top == 'convst':
            m = self.load(name)
            if fromlist:
                for f in fromlist:
                    if f != '*' and not hasattr(m, f):
                        try:
                            self.load(name + '.' + f)
                        except ImportError:
                            pass
                return m
            return self.mods[top] if not level else m
        if name in self.mods or top in self.mods:
            parts = name.split('.')
            for k in range(2, len(parts) + 1):
                if '.'.join(parts[:k]) not in self.mods and \
                        not hasattr(self.mods[top], parts[1]):
                    self.h.unsupported('import of %s' % name)
            if fromlist:
                return self.mods[name]
            return self.mods[top]
        return builtins.__import__(name, globals, locals, fromlist, level)

    def load(self, name):
        m = self.mods.get(name)
        if m is not None:
            return m
        parts = name.split('.')
        if len(parts) > 1:
            parent = self.load('.'.join(parts[:-1]))
        else:
            parent = None
        base = os.path.join(REPO, *parts)
        if os.path.isdir(base):
            path, pkg = os.path.join(base, '__init__.py'), True
        else:
            path, pkg = base + '.py', False
        if not os.path.exists(path):
            raise ModuleNotFoundError('No module named %r' % name)
        code = _CODE.get(path)
        if code is None:
            from . import rewrite
            with open(path) as f:
                src = f.read()
            code = rewrite.transform(src, path)
            _CODE[path] = code
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name if pkg else '.'.join(parts[:-1])
        if pkg:
            m.__path__ = [base]
        m.__dict__['__builtins__'] = self.builtins
        m.__dict__['__vsx__'] = self.runtime
        self.mods[name] = m
        exec(code, m.__dict__)
        if parent is not None:
            setattr(parent, parts[-1], m)
        return m
