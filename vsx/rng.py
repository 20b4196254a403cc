"""Random number streams whose draws are inputs of the analysis.

Every draw has a name: the identity of its stream (global state of numpy,
of numba, a seeded generator), the iteration of the parallel loop it happens
in and a running number.  Equal names give equal values, so that two runs
that are given the same seed and consume it alike see the same values.
Works on symbolic values (values are solver variables or forks) and on
concrete ones (values are read from a script)."""
import hashlib

W = None            # the current World


def _tok(seed):
    return str(int(seed))


class Stream(object):
    def __init__(self, token):
        self.token = token
        self.n = {}

    def __deepcopy__(self, memo):
        s = Stream(self.token)
        s.n = dict(self.n)
        return s

    def __copy__(self):
        return self.__deepcopy__(None)

    def name(self):
        tag = W.iter_tag()
        k = self.n.get(tag, 0)
        self.n[tag] = k + 1
        return 'rng[%s]%s#%d' % (self.token, tag, k)


class GlobalStream(object):
    """the legacy global state: numba keeps its own"""

    def __init__(self):
        self.s = {'np': None, 'nb': None}

    def cur(self):
        w = 'nb' if W.in_njit() else 'np'
        if self.s[w] is None:
            self.s[w] = Stream('%s-unseeded%d' % (w, W.fresh_id()))
        return self.s[w]

    def seed(self, seed):
        w = 'nb' if W.in_njit() else 'np'
        if seed is None:
            self.s[w] = Stream('%s-unseeded%d' % (w, W.fresh_id()))
        else:
            self.s[w] = Stream('%s%s' % ('nb' if w == 'nb' else 'mt', _tok(seed)))


def _shape(size):
    if size is None:
        return None
    if isinstance(size, (tuple, list)):
        return tuple(int(x) for x in size)
    return (int(size),)


class Gen(object):
    """the methods of RandomState and Generator"""

    def __init__(self, stream):
        self._s = stream

    def __deepcopy__(self, memo):
        import copy
        g = type(self).__new__(type(self))
        g.__dict__.update(self.__dict__)
        g._s = copy.deepcopy(self._s)
        return g

    def _st(self):
        s = self._s
        return s.cur() if type(s) is GlobalStream else s

    def _arr(self, size, one, dtype=float):
        np = W.np
        sh = _shape(size)
        if sh is None:
            return one()
        n = 1
        for x in sh:
            n *= x
        xs = [one() for _ in range(n)]
        return np.asarray(xs, dtype=dtype).reshape(sh)

    def seed(self, seed=None):
        if type(self._s) is GlobalStream:
            self._s.seed(seed)
        else:
            self._s = Stream('mt' + _tok(seed))

    def get_state(self, legacy=True):
        import copy
        return copy.deepcopy(self._st())

    def set_state(self, st):
        import copy
        if type(self._s) is GlobalStream:
            self._s.s['nb' if W.in_njit() else 'np'] = copy.deepcopy(st)
        else:
            self._s = copy.deepcopy(st)

    # ------------------------------------------------------------- reals
    def _unit(self):
        return W.h.draw_unit(self._st().name())

    def random(self, size=None):
        return self._arr(size, self._unit)

    random_sample = ranf = sample = random

    def rand(self, *shape):
        return self._arr(shape if shape else None, self._unit)

    def uniform(self, low=0.0, high=1.0, size=None):
        np = W.np
        if size is None and (getattr(low, 'ndim', 0) or getattr(high, 'ndim', 0)):
            lo, hi = np.broadcast_arrays(np.asarray(low), np.asarray(high))
            xs = [W.h.draw_uniform(self._st().name(), a, b)
                  for a, b in zip(list(lo.ravel()), list(hi.ravel()))]
            return np.asarray(xs, dtype=float).reshape(lo.shape)
        return self._arr(size, lambda: W.h.draw_uniform(self._st().name(), low, high))

    def normal(self, loc=0.0, scale=1.0, size=None):
        return self._arr(size, lambda: loc + scale * W.h.draw_uniform(self._st().name(), -8, 8))

    def standard_normal(self, size=None):
        return self.normal(size=size)

    def randn(self, *shape):
        return self.normal(size=shape if shape else None)

    # ---------------------------------------------------------- integers
    def randint(self, low, high=None, size=None, dtype=int, endpoint=False):
        if high is None:
            low, high = 0, low
        low, high = int(low), int(high) + (1 if endpoint else 0)

        def one():
            nm = self._st().name()
            if high - low >= 2 ** 16:
                # a seed: an opaque value determined by its draw
                d = int(hashlib.md5(nm.encode()).hexdigest()[:6], 16)
                return low + d % (high - low)
            return low + W.h.draw_index(nm, high - low)
        if size is None:
            return one()
        return self._arr(size, one, dtype=int)

    random_integers = None

    def integers(self, low, high=None, size=None, dtype=int, endpoint=False):
        return self.randint(low, high, size, endpoint=endpoint)

    def tomaxint(self, size=None):
        return self.randint(2 ** 31, size=size)

    # ------------------------------------------------------------ choices
    def choice(self, a, size=None, replace=True, p=None):
        np = W.np
        if hasattr(a, 'ndim') and a.ndim == 0:
            a = a.item()
        if not hasattr(a, '__len__'):
            n = int(a)
            if n <= 0:
                raise ValueError('a must be greater than 0 unless no samples are taken')
            pool = None
        else:
            pool = np.asarray(a) if not hasattr(a, 'ndim') else a
            n = len(pool)
        sh = _shape(size)
        if n == 0 and (sh is None or all(sh)):
            raise ValueError("'a' cannot be empty unless no samples are taken")
        if sh is None:
            i = W.h.draw_index(self._st().name(), n)
            return i if pool is None else pool[i]
        k = 1
        for x in sh:
            k *= x
        nm = self._st().name()
        if replace:
            idx = [W.h.draw_index('%s.%d' % (nm, j), n) for j in range(k)]
        else:
            if k > n:
                raise ValueError('Cannot take a larger sample than population when replace=False')
            left = list(range(n))
            idx = []
            for j in range(k):
                i = W.h.draw_index('%s.%d' % (nm, j), len(left))
                idx.append(left.pop(i))
        ix = np.asarray(idx, dtype=int).reshape(sh)
        return ix if pool is None else pool[ix]

    def _perm(self, n):
        nm = self._st().name()
        left = list(range(n))
        out = []
        for j in range(n):
            i = W.h.draw_index('%s.%d' % (nm, j), len(left))
            out.append(left.pop(i))
        return out

    def shuffle(self, x, axis=0):
        n = len(x)
        p = self._perm(n)
        if hasattr(x, 'ndim'):
            c = x.copy()
            x[:] = c[W.np.asarray(p, dtype=int)]
        else:
            c = list(x)
            for i, j in enumerate(p):
                x[i] = c[j]

    def permutation(self, x, axis=0):
        np = W.np
        if not hasattr(x, '__len__'):
            return np.asarray(self._perm(int(x)), dtype=int)
        a = np.asarray(x)
        return a[np.asarray(self._perm(len(a)), dtype=int)]

    def permuted(self, x, axis=None):
        return self.permutation(x)

    def __getattr__(self, n):
        if n.startswith('_'):
            raise AttributeError(n)
        W.h.unsupported('random.%s' % n)


class RandomState(Gen):
    def __init__(self, seed=None):
        if seed is None:
            Gen.__init__(self, Stream('unseeded%d' % W.fresh_id()))
        elif isinstance(seed, Stream):
            Gen.__init__(self, seed)
        else:
            Gen.__init__(self, Stream('mt' + _tok(seed)))


class Generator(Gen):
    pass


class GlobalState(RandomState):
    def __init__(self, gs):
        Gen.__init__(self, gs)

    def __deepcopy__(self, memo):
        return self


def default_rng(seed=None):
    if isinstance(seed, (Generator,)):
        return seed
    if seed is None:
        return Generator(Stream('unseeded%d' % W.fresh_id()))
    return Generator(Stream('pcg' + _tok(seed)))


NAMES = ('seed get_state set_state random random_sample ranf sample rand uniform '
         'normal standard_normal randn randint integers choice shuffle permutation').split()


def fill_module(m, gs):
    g = GlobalState(gs)
    for n in NAMES:
        if n != 'integers':
            setattr(m, n, getattr(g, n))
    m.RandomState = RandomState
    m.Generator = Generator
    m.default_rng = default_rng
    return g
