"""A numpy look-alike whose arrays may hold symbolic elements.

Operations whose operands are all concrete are executed by the installed
numpy; structure-only operations run numpy on the object array of elements;
arithmetic, comparisons, reductions, sorting, searching are implemented over
terms.  Boolean masks and integer indices that are symbolic are concretised by
forking the execution."""
import builtins
import operator
import sys
import types
import numpy as np
from fractions import Fraction
from . import terms as T
from .terms import (Sym, SBool, is_sym, Unsupported, cast, ite, lift, s_and,
                    s_or, s_not, b2i)


class Tracker(object):
    """cell access log of the iterations of a parallel loop"""

    def __init__(self):
        self.active = 0
        self.it = None
        self.keep = []
        self.w = {}
        self.r = {}
        self.conflicts = []
        self.loop = None

    def addrs(self, d):
        base = d.__array_interface__['data'][0]
        off = np.zeros((), dtype=np.int64)
        for n, s in zip(d.shape, d.strides):
            off = np.add.outer(off, np.arange(n, dtype=np.int64) * s)
        return (off.ravel() + base).tolist()

    def read(self, d):
        if self.it is None:
            return
        self.keep.append(d)
        it = self.it
        for a in self.addrs(d):
            s = self.r.get(a)
            if s is None:
                self.r[a] = {it}
            else:
                s.add(it)
            w = self.w.get(a)
            if w is not None and (len(w) > 1 or it not in w):
                self.conflict('read', a, w)

    def write(self, d):
        if self.it is None:
            return
        self.keep.append(d)
        it = self.it
        for a in self.addrs(d):
            w = self.w.setdefault(a, set())
            w.add(it)
            if len(w) > 1:
                self.conflict('write', a, w)
            r = self.r.get(a)
            if r is not None and (len(r) > 1 or it not in r):
                self.conflict('write', a, r)

    def conflict(self, kind, a, others):
        if len(self.conflicts) < 20:
            f = sys._getframe(3)
            where = ''
            while f is not None:
                if '/convst/' in f.f_code.co_filename:
                    where = '%s:%d' % (f.f_code.co_filename.split('/convst/')[-1], f.f_lineno)
                    break
                f = f.f_back
            self.conflicts.append((kind, where, self.it, sorted(o for o in others if o != self.it)))

    def begin(self, n_iter):
        self.w, self.r, self.keep = {}, {}, []


TRACK = Tracker()


def _has_sym(d):
    for e in d.flat:
        t = type(e)
        if t is Sym or t is SBool:
            return True
    return False


class ndarray(object):
    __slots__ = ('d', 'dt', '__weakref__')
    __array_ufunc__ = None
    __array_priority__ = 2000
    __hash__ = None

    def __init__(self, d, dt):
        self.d = d
        self.dt = np.dtype(dt)

    def __array__(self, *a, **k):
        raise Unsupported('native numpy applied to a symbolic array')

    # ------------------------------------------------------------ basics
    @property
    def shape(self):
        return self.d.shape

    @shape.setter
    def shape(self, s):
        self.d.shape = s

    @property
    def dtype(self):
        return self.dt

    @property
    def ndim(self):
        return self.d.ndim

    @property
    def size(self):
        return self.d.size

    @property
    def itemsize(self):
        return self.dt.itemsize

    @property
    def nbytes(self):
        return self.dt.itemsize * self.d.size

    @property
    def strides(self):
        if self.dt.itemsize != 8:
            raise Unsupported('strides of a %s array' % self.dt)
        return self.d.strides

    @property
    def flags(self):
        return self.d.flags

    @property
    def base(self):
        return self.d.base

    @property
    def T(self):
        return ndarray(self.d.T, self.dt)

    @property
    def flat(self):
        return iter(self.ravel())

    @property
    def real(self):
        return self

    def __len__(self):
        return len(self.d)

    def __iter__(self):
        if self.d.ndim == 0:
            raise TypeError('iteration over a 0-d array')
        for i in builtins.range(len(self.d)):
            yield self[i]

    def __bool__(self):
        if self.d.size == 1:
            return bool(ndread(self).flat[0])
        if self.d.size == 0:
            return False
        raise ValueError('The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()')

    def __index__(self):
        if self.d.size == 1 and self.dt.kind in 'iub':
            return operator.index(ndread(self).flat[0])
        raise TypeError('only integer scalar arrays can be converted to a scalar index')

    def __int__(self):
        if self.d.size == 1:
            return int(ndread(self).flat[0])
        raise TypeError('only size-1 arrays can be converted to Python scalars')

    def __float__(self):
        if self.d.size == 1:
            return float(ndread(self).flat[0])
        raise TypeError('only size-1 arrays can be converted to Python scalars')

    def __repr__(self):
        return 'array(%r)' % (self.d.tolist(),)

    def __format__(self, spec):
        return repr(self)

    def __contains__(self, x):
        return bool(any(self == x))

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        return self.copy()

    def __reduce__(self):
        raise Unsupported('pickling arrays')

    # ------------------------------------------------------------ indexing
    def __getitem__(self, idx):
        if TRACK.it is not None:
            _track_mask(idx)
        r = self.d[_index(idx)]
        if type(r) is np.ndarray:
            if TRACK.it is not None and r.size and not np.shares_memory(r, self.d):
                for c in _cells(self.d, _index(idx)):
                    TRACK.read(c)
            return ndarray(r, self.dt)
        if TRACK.it is not None:
            TRACK.read(_cell(self.d, _index(idx)))
        return _scalar(r, self.dt)

    def __setitem__(self, idx, v):
        if T.ENGINE is not None and T.ENGINE.spec_depth:
            raise T.SpecAbort()
        idx = _index(idx)
        if self.dt == object:
            if type(v) is ndarray:
                tgt = self.d[idx]
                if type(tgt) is np.ndarray and tgt.shape != ():
                    self.d[idx] = ndread(v)
                else:
                    self.d[idx] = v
            else:
                self.d[idx] = v
            return
        if type(v) is ndarray or isinstance(v, (list, tuple, np.ndarray)):
            v = asarr(v)
            vd = ndread(v)
            if v.dt != self.dt or v.dt == object:
                vd = _castd(vd, v.dt, self.dt)
            self.d[idx] = vd
        else:
            if isinstance(v, (str, type(None))) and self.dt.kind in 'iuf':
                v = self.dt.type(v)
            self.d[idx] = cast(v, self.dt) if not isinstance(v, str) else v
        if TRACK.it is not None:
            t = self.d[idx]
            if type(t) is np.ndarray and np.shares_memory(t, self.d):
                TRACK.write(t)
            elif type(t) is np.ndarray:
                ids = _cells(self.d, idx)
                for c in ids:
                    TRACK.write(c)
            else:
                TRACK.write(_cell(self.d, idx))

    # ------------------------------------------------------------ methods
    def astype(self, dt, order='K', casting='unsafe', subok=True, copy=True):
        dt = np.dtype(dt)
        if dt == self.dt and not copy:
            return self
        return ndarray(_castd(ndread(self), self.dt, dt), dt)

    def copy(self, order='C'):
        return ndarray(ndread(self).copy(), self.dt)

    def tolist(self):
        if self.d.ndim == 0:
            return _py(_scalar(ndread(self)[()], self.dt))
        return [x.tolist() if type(x) is ndarray else _py(x) for x in self]

    def item(self, *a):
        if a:
            return _py(_scalar(ndread(self).item(*a), self.dt))
        if self.d.size != 1:
            raise ValueError('can only convert an array of size 1 to a Python scalar')
        return _py(_scalar(next(iter(ndread(self).flat)), self.dt))

    def fill(self, v):
        self[...] = v

    def reshape(self, *s, **k):
        if len(s) == 1 and not isinstance(s[0], (int, np.integer, Sym)):
            s = tuple(s[0])
        s = tuple(operator.index(x) for x in s)
        return ndarray(self.d.reshape(s), self.dt)

    def ravel(self, order='C'):
        return ndarray(self.d.ravel(order), self.dt)

    def flatten(self, order='C'):
        return ndarray(ndread(self).flatten(order), self.dt)

    def transpose(self, *a):
        return ndarray(self.d.transpose(*a), self.dt)

    def swapaxes(self, a, b):
        return ndarray(self.d.swapaxes(a, b), self.dt)

    def squeeze(self, axis=None):
        return ndarray(self.d.squeeze(axis), self.dt)

    def view(self, *a):
        if a:
            raise Unsupported('ndarray.view')
        return ndarray(self.d.view(), self.dt)

    def sort(self, axis=-1, kind=None, order=None):
        r = sort(self, axis)
        self[...] = r

    def nonzero(self):
        return nonzero(self)

    def dot(self, o):
        return dot(self, o)

    def take(self, *a, **k):
        return take(self, *a, **k)

    def repeat(self, *a, **k):
        return repeat(self, *a, **k)

    def round(self, decimals=0):
        return round_(self, decimals)

    def clip(self, lo=None, hi=None, **k):
        return clip(self, k.get('min', lo), k.get('max', hi))

    # ------------------------------------------------------------ operators
    def __neg__(self):
        return negative(self)

    def __pos__(self):
        return self.copy()

    def __abs__(self):
        return absolute(self)

    def __invert__(self):
        return logical_not(self) if self.dt == bool else invert(self)


def _track_mask(idx):
    if type(idx) is ndarray:
        TRACK.read(idx.d)
    elif type(idx) is tuple:
        for x in idx:
            if type(x) is ndarray:
                TRACK.read(x.d)


def _cell(d, idx):
    """0-d (or small) view on the addressed cell"""
    if type(idx) is not tuple:
        idx = (idx,)
    if builtins.any(isinstance(i, (list, np.ndarray)) for i in idx):
        return np.empty(0, object)
    return d[idx + (Ellipsis,)]


def _cells(d, idx):
    pos = np.arange(d.size).reshape(d.shape)[idx]
    out = []
    for p in np.unique(np.atleast_1d(pos)):
        out.append(d[np.unravel_index(p, d.shape) + (Ellipsis,)])
    return out


def ndread(a):
    """elements for computing with (logged as reads in parallel loops)"""
    if TRACK.it is not None:
        TRACK.read(a.d)
    return a.d


def _py(x):
    return x.item() if isinstance(x, np.generic) else x


def _scalar(e, dt):
    t = type(e)
    if t is Sym or t is SBool:
        return e
    if dt == object:
        return e
    if t is dt.type:
        return e
    return dt.type(e)


def _castd(d, dt0, dt):
    if dt == object:
        if dt0 == object:
            return d.copy()
        out = np.empty(d.shape, object)
        for i, e in np.ndenumerate(d):
            out[i] = _scalar(e, dt0)
        return out
    if not _has_sym(d):
        if dt0 == object:
            if builtins.any(type(e) is ndarray for e in d.flat):
                raise ValueError('setting an array element with a sequence.')
            return d.astype(dt).astype(object)
        return d.astype(dt0).astype(dt).astype(object)
    out = np.empty(d.shape, object)
    for i, e in np.ndenumerate(d):
        if not is_sym(e):
            if type(e) is ndarray:
                raise ValueError('setting an array element with a sequence.')
            out[i] = dt.type(dt0.type(e)) if dt0 != object else dt.type(e)
        else:
            out[i] = cast(e, dt)
    return out


def _index(idx):
    if type(idx) is tuple:
        return tuple([_index1(x) for x in idx])
    return _index1(idx)


def _index1(x):
    t = type(x)
    if t is int:
        return x
    if t is ndarray:
        if x.dt == bool:
            if x.d.ndim == 0:
                return bool(x.d[()])
            return np.array([bool(e) for e in x.d.flat], dtype=bool).reshape(x.d.shape)
        if x.dt.kind in 'iu':
            return np.array([operator.index(e) for e in x.d.flat], dtype=np.intp).reshape(x.d.shape)
        if x.d.size == 0:
            return np.zeros(x.d.shape, np.intp) if x.dt.kind != 'f' else _ixerr()
        _ixerr()
    if t is slice:
        return slice(_sl(x.start), _sl(x.stop), _sl(x.step))
    if t is Sym:
        if x.k != 'i':
            _ixerr()
        return x.__index__()
    if t is SBool:
        return bool(x)
    if t is list:
        if not x:
            return []
        return _index1(asarr(x))
    if isinstance(x, np.ndarray):
        return x
    return x


def _ixerr():
    raise IndexError('only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and integer or boolean arrays are valid indices')


def _sl(x):
    if x is None:
        return None
    if type(x) is Sym and x.k != 'i':
        raise TypeError('slice indices must be integers or None or have an __index__ method')
    return operator.index(x)


# ------------------------------------------------------------------ creation

def _proto(x):
    """native stand-in of x, to learn the dtype and shape numpy would give"""
    t = type(x)
    if t is ndarray:
        if x.dt == object:
            return x.d
        if x.d.ndim == 0:
            return x.dt.type(0) if x.dt.kind not in 'US' else x.d[()]
        if x.dt.kind in 'US':
            return x.d.astype(x.dt)
        return np.zeros(x.d.shape, x.dt)
    if t is Sym:
        return 0 if x.k == 'i' else 0.0
    if t is SBool:
        return False
    if isinstance(x, (list, tuple)):
        return [_proto(y) for y in x]
    if isinstance(x, Fraction):
        return 0.0
    return x


def _flat_elems(x, out, depth):
    if type(x) is ndarray:
        out.extend(_scalar(e, x.dt) for e in ndread(x).flat)
    elif isinstance(x, (list, tuple)) and depth > 0:
        for y in x:
            _flat_elems(y, out, depth - 1)
    elif isinstance(x, np.ndarray):
        out.extend(x.flat)
    else:
        out.append(x)


def asarr(x, dtype=None):
    if hasattr(x, '_vsx_list'):
        x = x._vsx_list
    elif hasattr(x, '_vsx_array'):
        x = x._vsx_array()
    if type(x) is ndarray:
        if dtype is not None and np.dtype(dtype) != x.dt:
            return x.astype(dtype)
        return x
    if isinstance(x, np.ndarray):
        a = ndarray(x.astype(object), x.dtype)
        return a if dtype is None else asarr(a, dtype)
    if isinstance(x, (types.GeneratorType, range, map, zip)) or \
            isinstance(x, (type({}.keys()), type({}.values()))):
        if not isinstance(x, range):
            d = np.empty((), object)
            d[()] = x
            return ndarray(d, object)
        x = list(x)
    if isinstance(x, (set, dict)):
        d = np.empty((), object)
        d[()] = x
        return ndarray(d, object)
    if dtype is not None and np.dtype(dtype) == object and isinstance(x, (list, tuple)) and \
            builtins.any(type(e) is ndarray for e in x):
        shapes = {e.shape if type(e) is ndarray else None for e in x}
        if len(shapes) > 1:
            d = np.empty(len(x), object)
            for i, e in enumerate(x):
                d[i] = e
            return ndarray(d, object)
    p = np.asarray(_proto(x), dtype=(object if dtype is not None and np.dtype(dtype) == object else None))
    shape = p.shape
    dt = p.dtype
    elems = []
    _flat_elems(x, elems, len(shape))
    d = np.empty(len(elems), object)
    for i, e in enumerate(elems):
        d[i] = e
    n = 1
    for s in shape:
        n *= s
    if len(elems) != n:
        raise Unsupported('array of ragged content')
    d = d.reshape(shape)
    if dt.kind in 'US':
        d = np.asarray([str(e) for e in elems], dtype=object).reshape(shape)
    elif dt != object:
        d = _castd(d, np.dtype(object), dt)
    a = ndarray(d, dt)
    if dtype is not None:
        a = a.astype(dtype)
    return a


def array(x, dtype=None, copy=True, order='K', subok=False, ndmin=0):
    if type(x) is ndarray:
        a = x.astype(dtype) if dtype is not None else (x.copy() if copy else x)
    else:
        a = asarr(x, dtype)
    while a.ndim < ndmin:
        a = ndarray(a.d[None], a.dt)
    return a


def asarray(x, dtype=None, order=None):
    return asarr(x, dtype)


def _shape(s):
    if isinstance(s, (int, np.integer)) or type(s) is Sym:
        return (operator.index(s),)
    return tuple(operator.index(v) for v in s)


def full(shape, v, dtype=None, order='C'):
    if dtype is None:
        dtype = asarr(v).dt
    dt = np.dtype(dtype)
    d = np.empty(_shape(shape), object)
    if type(v) is ndarray:
        a = ndarray(d, dt)
        a[...] = v
        return a
    v = cast(v, dt)
    d.fill(v)
    return ndarray(d, dt)


def zeros(shape, dtype=float, order='C'):
    return full(shape, 0, dtype)


def ones(shape, dtype=float, order='C'):
    return full(shape, 1, dtype)


def empty(shape, dtype=float, order='C'):
    """uninitialised memory: fresh symbolic content when an engine runs, so
    that nothing may depend on it"""
    dt = np.dtype(dtype)
    if dt == object:
        return ndarray(np.empty(_shape(shape), object), dt)
    a = full(shape, 0, dt)
    h = HOOKS.get('empty')
    if h is not None:
        h(a)
    return a


HOOKS = {}


def zeros_like(a, dtype=None, order='K', subok=True, shape=None):
    a = asarr(a)
    return zeros(a.shape if shape is None else shape, dtype or a.dt)


def ones_like(a, dtype=None, order='K', subok=True, shape=None):
    a = asarr(a)
    return ones(a.shape if shape is None else shape, dtype or a.dt)


def empty_like(a, dtype=None, order='K', subok=True, shape=None):
    a = asarr(a)
    return empty(a.shape if shape is None else shape, dtype or a.dt)


def full_like(a, v, dtype=None, order='K', subok=True, shape=None):
    a = asarr(a)
    return full(a.shape if shape is None else shape, v, dtype or a.dt)


def arange(*a, **k):
    a = [x if not is_sym(x) else (operator.index(x) if x.k == 'i' else x) for x in a]
    if builtins.any(is_sym(x) for x in a):
        raise Unsupported('arange with symbolic reals')
    return wrap(np.arange(*a, **k))


def linspace(*a, **k):
    return call_native('linspace', a, k)


# --------------------------------------------------------- conversions

def to_native(x):
    t = type(x)
    if t is ndarray:
        if x.dt == object:
            return ndread(x)
        return ndread(x).astype(x.dt)
    if t is list:
        return [to_native(y) for y in x]
    if t is tuple:
        return tuple(to_native(y) for y in x)
    if t is dict:
        return {k: to_native(v) for k, v in x.items()}
    return x


def wrap(x):
    t = type(x)
    if t is np.ndarray:
        return ndarray(x.astype(object), x.dtype)
    if t is tuple:
        return tuple(wrap(y) for y in x)
    if t is list:
        return [wrap(y) for y in x]
    if isinstance(x, np.ndarray):
        return wrap(np.asarray(x))
    return x


def anysym(x):
    t = type(x)
    if t is Sym or t is SBool:
        return True
    if t is ndarray:
        return _has_sym(x.d)
    if t is list or t is tuple:
        return builtins.any(anysym(y) for y in x)
    if t is dict:
        return builtins.any(anysym(y) for y in x.values())
    return False


def call_native(name, a, k):
    f = name if callable(name) else _getnp(name)
    if anysym(a) or anysym(k):
        raise Unsupported('numpy.%s of symbolic values' % (name if isinstance(name, str) else getattr(name, '__name__', '?')))
    return wrap(f(*[to_native(x) for x in a], **{n: to_native(v) for n, v in k.items()}))


def _getnp(name):
    f = np
    for p in name.split('.'):
        f = getattr(f, p)
    return f


def _dconv(x, mode):
    t = type(x)
    if t is ndarray:
        if mode == 'd':
            return ndread(x)
        if x.dt == object:
            return x.d
        return np.zeros(x.d.shape, x.dt) if x.dt.kind not in 'US' else x.d.astype(x.dt)
    if t is Sym or t is SBool:
        if mode == 'd':
            d = np.empty((), object)
            d[()] = x
            return d
        return _proto(x)
    if t is list:
        return [_dconv(y, mode) for y in x]
    if t is tuple:
        return tuple(_dconv(y, mode) for y in x)
    if isinstance(x, np.generic) and mode == 'd':
        return x
    return x


def _pair(r, q):
    if type(r) is np.ndarray:
        qd = q.dtype
        return ndarray(r, qd)
    if isinstance(r, (list, tuple)):
        return type(r)(_pair(x, y) for x, y in zip(r, q))
    if is_sym(r):
        return r
    if isinstance(q, np.generic):
        return _scalar(r, q.dtype)
    return r


def struct(name, f=None):
    f = f or _getnp(name)

    def g(*a, **k):
        k = dict(k)
        dtype = k.pop('dtype', None)
        out = k.pop('out', None)
        a = [_idx_arg(x) for x in a]
        k = {n: _idx_arg(v) for n, v in k.items()}
        r = f(*[_dconv(x, 'd') for x in a], **{n: _dconv(v, 'd') for n, v in k.items()})
        q = f(*[_dconv(x, 't') for x in a], **{n: _dconv(v, 't') for n, v in k.items()})
        r = _pair(r, q)
        if dtype is not None:
            r = r.astype(dtype)
        if out is not None:
            out[...] = r
            return out
        return r
    g.__name__ = name.split('.')[-1]
    return g


def _idx_arg(x):
    if type(x) is Sym and x.k == 'i':
        return x
    return x


def struct_seq(name):
    """functions over a sequence of arrays"""
    f = _getnp(name)

    def g(seq, *a, **k):
        if type(seq) is ndarray:
            seq = [x for x in seq]
        seq = [asarr(x) for x in seq]
        dtype = k.pop('dtype', None)
        k.pop('out', None)
        a = [to_native(x) for x in a]
        r = f([ndread(x) for x in seq], *a, **k)
        q = f([_dconv(x, 't') for x in seq], *a, **k)
        r = ndarray(r, q.dtype)
        # values coming from arrays of a narrower dtype
        if builtins.any(x.dt != q.dtype for x in seq):
            out = np.empty(r.d.shape, object)
            for i, e in np.ndenumerate(r.d):
                out[i] = e if q.dtype == object else cast(e, q.dtype) if q.dtype.kind in 'biuf' else str(e)
            r = ndarray(out, q.dtype)
        if dtype is not None:
            r = r.astype(dtype)
        return r
    g.__name__ = name
    return g


concatenate = struct_seq('concatenate')
stack = struct_seq('stack')
vstack = struct_seq('vstack')
hstack = struct_seq('hstack')
dstack = struct_seq('dstack')
column_stack = struct_seq('column_stack')
row_stack = vstack


def append(a, v, axis=None):
    a, v = asarr(a), asarr(v)
    if axis is None:
        return concatenate((a.ravel(), v.ravel()))
    return concatenate((a, v), axis=axis)


for _n in ('repeat tile roll flip fliplr flipud moveaxis rollaxis rot90 delete '
           'insert expand_dims atleast_1d atleast_2d atleast_3d broadcast_to '
           'split array_split hsplit vsplit diagonal diag trace triu tril '
           'take_along_axis resize pad swapaxes transpose squeeze ravel '
           'broadcast_arrays compress extract').split():
    globals()[_n] = struct(_n)
sliding_window_view = struct('lib.stride_tricks.sliding_window_view')
as_strided = struct('lib.stride_tricks.as_strided')


def _wrap_first(f):
    def g(a, *r, **k):
        if not type(a) is ndarray and isinstance(a, (list, tuple)):
            a = asarr(a)
        r = [tuple(operator.index(v) if type(v) is Sym else v for v in x) if isinstance(x, tuple)
             else operator.index(x) if type(x) is Sym else to_native(x) if type(x) is ndarray and not anysym(x) else x for x in r]
        if type(a) is not ndarray and not is_sym(a):
            a = asarr(a)
        return f(a, *r, **k)
    g.__name__ = f.__name__
    return g


for _n in ('repeat tile roll flip moveaxis expand_dims broadcast_to swapaxes '
           'transpose squeeze ravel diagonal diag trace triu tril rot90 fliplr '
           'flipud insert delete').split():
    globals()[_n] = _wrap_first(globals()[_n])


def reshape(a, s=None, order='C', **k):
    a = asarr(a)
    s = k.get('newshape', k.get('shape', s))
    return a.reshape(s)


def take(a, idx, axis=None, **k):
    a = asarr(a)
    idx = _index1(asarr(idx))
    if isinstance(idx, np.ndarray) or axis is not None:
        return _wrapd(np.take(ndread(a), idx, axis=axis), a.dt)
    return _wrapd(np.take(ndread(a), idx), a.dt)


def _wrapd(r, dt):
    if type(r) is np.ndarray:
        if r.ndim == 0:
            return _scalar(r[()], dt)
        return ndarray(r, dt)
    return _scalar(r, dt)


def copy(a, order='K', subok=False):
    return asarr(a).copy()


def put(a, ind, v, mode='raise'):
    a.ravel()[ind] = v


def copyto(dst, src, casting='same_kind', where=True):
    if where is True:
        dst[...] = src
    else:
        src = broadcast_to(asarr(src), dst.shape)
        dst[where] = src[where]


def putmask(a, mask, v):
    a[mask] = asarr(v)[mask] if asarr(v).shape == a.shape else v


def place(a, mask, v):
    a[mask] = v


def fill_diagonal(a, v, wrap=False):
    for i in builtins.range(builtins.min(a.shape)):
        a[i, i] = v


# ---------------------------------------------------------------- elementwise

def _ew(name, symf, nat=None, nin=1):
    nat = nat or _getnp(name)

    def g(*args, **k):
        out = k.pop('out', None)
        where_ = k.pop('where', True)
        dtype = k.pop('dtype', None)
        k.pop('casting', None)
        if isinstance(out, tuple):
            out = out[0]
        if len(args) > nin:
            out = args[nin]
            args = args[:nin]
        if where_ is not True:
            raise Unsupported('ufunc where=')
        for a in args:
            ta = type(a)
            if ta is not ndarray and ta is not Sym and ta is not SBool and \
                    getattr(a, '_vsx_opaque', False):
                return NotImplemented
        scal = builtins.all(type(a) is not ndarray and not isinstance(a, (list, tuple, np.ndarray)) for a in args)
        if scal and not builtins.any(is_sym(a) for a in args):
            with np.errstate(all='ignore'):
                r = nat(*args)
            r = r if dtype is None else np.dtype(dtype).type(r)
        elif scal:
            r = symf(*args)
            if dtype is not None:
                r = cast(r, dtype)
        else:
            arrs = [asarr(a) for a in args]
            # python scalars are weak: keep them as they are for dtype rules
            ds = [ndread(a) for a in arrs]
            if not builtins.any(_has_sym(d) for d in ds):
                nats = [a if (not isinstance(a, (list, tuple, ndarray, np.ndarray))) else
                        (x.d if x.dt == object else d.astype(x.dt)) for a, x, d in zip(args, arrs, ds)]
                with np.errstate(all='ignore'):
                    r = nat(*nats)
                if dtype is not None:
                    r = np.asarray(r).astype(dtype)
                r = wrap(np.asarray(r)) if np.ndim(r) else r
                if isinstance(r, ndarray) and r.dt == object and builtins.all(x.dt != object for x in arrs):
                    pass
            else:
                protos = []
                for a, x in zip(args, arrs):
                    if x.dt == object:
                        kinds = {_kind(e) for e in x.d.flat}
                        protos.append(np.float64(1) if 'f' in kinds else np.int64(1) if 'i' in kinds else np.bool_(True))
                    elif isinstance(a, (list, tuple, ndarray, np.ndarray)):
                        protos.append(np.ones((1,), x.dt))
                    elif type(a) is Sym:
                        protos.append(1 if a.k == 'i' else 1.0)
                    elif type(a) is SBool:
                        protos.append(True)
                    else:
                        protos.append(type(a)(1) if not isinstance(a, (float, np.floating)) else type(a)(1.0))
                with np.errstate(all='ignore'):
                    rdt = np.asarray(nat(*protos)).dtype
                b = np.broadcast_arrays(*ds) if len(ds) > 1 else ds
                res = np.empty(b[0].shape, object)
                dts = [x.dt for x in arrs]
                with np.errstate(all='ignore'):
                    for i in np.ndindex(*b[0].shape):
                        es = [bb[i] for bb in b]
                        if builtins.any(is_sym(e) for e in es):
                            res[i] = symf(*[e if is_sym(e) or dt == object else dt.type(e) for e, dt in zip(es, dts)])
                        else:
                            res[i] = nat(*[e if dt == object else dt.type(e) for e, dt in zip(es, dts)])
                        if rdt.kind == 'f' and type(res[i]) is Sym and res[i].k == 'i':
                            res[i] = Sym(res[i].p, 'f')
                r = ndarray(res, rdt)
                if dtype is not None:
                    r = r.astype(dtype)
                if r.d.ndim == 0:
                    r = _scalar(r.d[()], r.dt)
        if out is not None:
            out[...] = r
            return out
        return r
    g.__name__ = name
    g.nin = nin
    if nin == 2:
        g.outer = lambda a, b: g(asarr(a).reshape(asarr(a).shape + (1,) * asarr(b).ndim), b)
        g.reduce = lambda a, axis=0, dtype=None, keepdims=False, initial=None: _ufreduce(g, a, axis, keepdims)
        g.accumulate = lambda a, axis=0: _ufacc(g, a, axis)
        g.at = _ufat(g)
    return g


def _kind(e):
    if type(e) is Sym:
        return e.k
    if type(e) is SBool or isinstance(e, (bool, np.bool_)):
        return 'b'
    if isinstance(e, (int, np.integer)):
        return 'i'
    return 'f'


def _ufreduce(g, a, axis, keepdims):
    a = asarr(a)
    if axis is None:
        a = a.ravel()
        axis = 0
    a2 = moveaxis(a, axis, 0)
    r = a2[0]
    for i in builtins.range(1, len(a2)):
        r = g(r, a2[i])
    if keepdims:
        r = expand_dims(asarr(r), axis)
    return r


def _ufacc(g, a, axis):
    a = asarr(a)
    a2 = moveaxis(a, axis, 0)
    r = [a2[0]]
    for i in builtins.range(1, len(a2)):
        r.append(g(r[-1], a2[i]))
    return moveaxis(stack(r), 0, axis)


def _ufat(g):
    def at(a, idx, b=None):
        pos = arange(a.size).reshape(a.shape)[idx]
        fl = a.ravel()
        b = broadcast_to(asarr(b), asarr(pos).shape).ravel()
        for i, p in enumerate(asarr(pos).ravel().d):
            u = np.unravel_index(int(p), a.shape)
            a[u] = g(a[u], b[i])
    return at


def _s(f):
    return f


def _sdivide(a, b):
    return sdiv_(a, b)


def sdiv_(a, b):
    return T.sdiv(lift(a), lift(b))


add = _ew('add', lambda a, b: (T.s_or(a, b) if T.isboolish(a) and T.isboolish(b) else lift(a) + lift(b)), nin=2)
subtract = _ew('subtract', lambda a, b: lift(a) - lift(b), nin=2)
multiply = _ew('multiply', lambda a, b: (T.s_and(a, b) if T.isboolish(a) and T.isboolish(b) else lift(a) * lift(b)), nin=2)
true_divide = divide = _ew('true_divide', sdiv_, nin=2)
floor_divide = _ew('floor_divide', lambda a, b: T.sfloordiv(lift(a), lift(b)), nin=2)
mod = remainder = _ew('remainder', lambda a, b: T.smod(lift(a), lift(b)), nin=2)
power = float_power = _ew('power', T.spow, nin=2)
negative = _ew('negative', lambda a: -lift(a))
positive = _ew('positive', lambda a: a)
absolute = abs = fabs = _ew('absolute', T.sabs)
sign = _ew('sign', lambda a: ite(T.lt(0, a), 1, ite(T.lt(a, 0), -1, 0)))
square = _ew('square', lambda a: lift(a) * lift(a))
sqrt = _ew('sqrt', T.ssqrt)
exp = _ew('exp', lambda a: T.uf('exp', a))
exp2 = _ew('exp2', T.spow2)
log = _ew('log', lambda a: T.uf('log', a))
log2 = _ew('log2', T.slog2)
log10 = _ew('log10', lambda a: T.uf('log10', a))
log1p = _ew('log1p', lambda a: T.uf('log', 1 + lift(a)))
cos = _ew('cos', lambda a: T.uf('cos', a))
sin = _ew('sin', lambda a: T.uf('sin', a))
tanh = _ew('tanh', lambda a: T.uf('tanh', a))
reciprocal = _ew('reciprocal', lambda a: sdiv_(1.0, a))
floor = _ew('floor', lambda a: T.sfloor(a))
ceil = _ew('ceil', lambda a: -lift(T.sfloor(-lift(a))))
trunc = fix = _ew('trunc', lambda a: cast(T.strunc(a), np.float64))
rint = _ew('rint', T.srint)
less = _ew('less', T.lt, nin=2)
less_equal = _ew('less_equal', T.le, nin=2)
greater = _ew('greater', lambda a, b: T.lt(b, a), nin=2)
greater_equal = _ew('greater_equal', lambda a, b: T.le(b, a), nin=2)


def _eqs(a, b):
    r = T.eq(a, b)
    return False if r is NotImplemented else r


equal = _ew('equal', _eqs, nin=2)
not_equal = _ew('not_equal', lambda a, b: s_not(_eqs(a, b)), nin=2)


def _tb(x):
    return x if T.isboolish(x) else T.ne(x, 0)


logical_and = _ew('logical_and', lambda a, b: s_and(_tb(a), _tb(b)), nin=2)
logical_or = _ew('logical_or', lambda a, b: s_or(_tb(a), _tb(b)), nin=2)
logical_xor = _ew('logical_xor', lambda a, b: T.s_xor(_tb(a), _tb(b)), nin=2)
logical_not = _ew('logical_not', lambda a: s_not(_tb(a)))


def _bitop(name, f):
    def s(a, b):
        if T.isboolish(a) and T.isboolish(b):
            return f(a, b)
        raise Unsupported('bitwise operation on symbolic integers')
    return _ew(name, s, nin=2)


bitwise_and = _bitop('bitwise_and', s_and)
bitwise_or = _bitop('bitwise_or', s_or)
bitwise_xor = _bitop('bitwise_xor', T.s_xor)


def _inv(a):
    if type(a) is SBool:
        return s_not(a)
    return -lift(a) - 1


invert = bitwise_not = _ew('invert', _inv)
left_shift = _ew('left_shift', lambda a, b: a * (2 ** operator.index(b)), nin=2)
right_shift = _ew('right_shift', lambda a, b: a // (2 ** operator.index(b)), nin=2)
minimum = fmin = _ew('minimum', T.smin, nin=2)
maximum = fmax = _ew('maximum', T.smax, nin=2)
isnan = _ew('isnan', lambda a: False)
isinf = _ew('isinf', lambda a: False)
isfinite = _ew('isfinite', lambda a: True)
hypot = _ew('hypot', lambda a, b: T.ssqrt(lift(a) * lift(a) + lift(b) * lift(b)), nin=2)


def round_(a, decimals=0, out=None):
    if decimals == 0:
        return rint(a)
    if not anysym(a):
        return call_native('round', (a, decimals), {})
    return rint(a * (10 ** decimals)) / (10 ** decimals)


around = round = round_


def divmod_(a, b):
    return floor_divide(a, b), mod(a, b)


def clip(a, a_min=None, a_max=None, out=None, **k):
    r = a
    if a_min is not None:
        r = maximum(r, a_min)
    if a_max is not None:
        r = minimum(r, a_max)
    if r is a:
        r = copy(a)
    if out is not None:
        out[...] = r
        return out
    return r


def nan_to_num(x, *a, **k):
    return call_native('nan_to_num', (x,) + a, k) if not anysym(x) else copy(x)


def isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    return less_equal(absolute(subtract(a, b)), add(atol, multiply(rtol, absolute(b))))


def allclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    return all(isclose(a, b, rtol, atol))


def array_equal(a, b, equal_nan=False):
    a, b = asarr(a), asarr(b)
    if a.shape != b.shape:
        return False
    return _pybool(all(equal(a, b)))


def array_equiv(a, b):
    return _pybool(all(equal(a, b)))


def _pybool(x):
    return x if is_sym(x) else bool(x)


_OPS = dict(add=add, sub=subtract, mul=multiply, truediv=true_divide,
            floordiv=floor_divide, mod=mod, pow=power)
_OPS.update({'and': bitwise_and, 'or': bitwise_or, 'xor': bitwise_xor,
             'lshift': left_shift, 'rshift': right_shift})


def _mkop(f):
    return (lambda self, o: f(self, o)), (lambda self, o: f(o, self))


def _mkiop(f):
    def g(self, o):
        r = asarr(f(self, o))
        if not np.can_cast(r.dt, self.dt, 'same_kind'):
            raise TypeError("Cannot cast ufunc output from %r to %r with casting rule 'same_kind'" % (r.dt, self.dt))
        self[...] = r
        return self
    return g


for _n, _f in _OPS.items():
    a_, b_ = _mkop(_f)
    setattr(ndarray, '__%s__' % _n, a_)
    setattr(ndarray, '__r%s__' % _n, b_)
    setattr(ndarray, '__i%s__' % _n, _mkiop(_f))
for _n, _f in dict(lt=less, le=less_equal, gt=greater, ge=greater_equal).items():
    setattr(ndarray, '__%s__' % _n, _mkop(_f)[0])


def _arr_eq(self, o):
    if o is None:
        return full(self.shape, False, bool)
    try:
        return equal(self, o)
    except ValueError:
        raise


def _arr_ne(self, o):
    if o is None:
        return full(self.shape, True, bool)
    return not_equal(self, o)


ndarray.__eq__ = _arr_eq
ndarray.__ne__ = _arr_ne
ndarray.__matmul__ = lambda self, o: matmul(self, o)
ndarray.__rmatmul__ = lambda self, o: matmul(o, self)
ndarray.__divmod__ = lambda self, o: divmod_(self, o)


# ---------------------------------------------------------------- reductions

def _axes(axis, ndim):
    if axis is None:
        return tuple(builtins.range(ndim))
    if type(axis) is tuple:
        return tuple(operator.index(x) % ndim for x in axis)
    axis = operator.index(axis)
    if not -ndim <= axis < ndim:
        raise np.exceptions.AxisError(axis, ndim) if hasattr(np, 'exceptions') else np.AxisError(axis, ndim)
    return (axis % ndim,)


def _red(name, f1, nat=None):
    nat = nat or _getnp(name)

    def g(a, axis=None, dtype=None, out=None, keepdims=False, **k):
        if name in ('argmin', 'argmax') and dtype is not None and out is None:
            dtype = None
        if isinstance(a, types.GeneratorType):
            a = list(a)
        a = asarr(a)
        d = ndread(a)
        if not _has_sym(d):
            kk = dict(k)
            if axis is not None:
                kk['axis'] = to_native(axis)
            if keepdims:
                kk['keepdims'] = True
            if dtype is not None:
                kk['dtype'] = dtype
            with np.errstate(all='ignore'):
                r = wrap(nat(d if a.dt == object else d.astype(a.dt), **kk))
        else:
            ax = _axes(axis, a.ndim)
            rest = [i for i in builtins.range(a.ndim) if i not in ax]
            d2 = d.transpose(rest + list(ax)).reshape([a.shape[i] for i in rest] + [-1])
            adt = a.dt
            if adt == object:
                adt = np.dtype(np.float64 if builtins.any(_kind(e) == 'f' for e in d.flat) else np.int64)
            kw = {x: y for x, y in k.items() if x in ('ddof',)}
            with np.errstate(all='ignore'):
                rdt = np.asarray(nat(np.ones(3, adt), **kw)).dtype
            kw = k
            if rest:
                res = np.empty(d2.shape[:-1], object)
                for i in np.ndindex(*res.shape):
                    res[i] = f1(list(d2[i]), adt, **kw)
                if keepdims:
                    res = res.reshape([1 if i in ax else a.shape[i] for i in builtins.range(a.ndim)])
                r = ndarray(res, rdt)
                if rdt.kind == 'f':
                    for i, e in np.ndenumerate(res):
                        res[i] = cast(e, rdt)
            else:
                r = f1(list(d2), adt, **kw)
                r = cast(r, rdt)
                if keepdims:
                    r = full((1,) * a.ndim, r, rdt)
            if dtype is not None:
                r = r.astype(dtype)
        if out is not None:
            out[...] = r
            return out
        return r
    g.__name__ = name
    return g


def _f_sum(es, dt, **k):
    if not es:
        return dt.type(0)
    p = {}
    kind = 'i' if dt.kind in 'iub' else 'f'
    for e in es:
        p = T.p_add(p, lift(e).p)
    return T.mk(p, kind)


def _f_prod(es, dt, **k):
    r = lift(1)
    for e in es:
        r = lift(r * lift(e))
    return T.mk(r.p, 'i' if dt.kind in 'iub' else 'f')


def _f_mean(es, dt, **k):
    return T.sdiv(lift(_f_sum(es, dt)), lift(float(len(es))))


def _f_var(es, dt, ddof=0, mean=None, **k):
    n = len(es)
    m = lift(_f_mean(es, dt))
    p = {}
    for e in es:
        t = T.p_add(lift(e).p, m.p, -1)
        p = T.p_add(p, T.p_mul(t, t))
    if n > 1:
        T.note_variance(es, p)
    return T.sdiv(lift(T.mk(p, 'f')), lift(float(n - ddof)))


def _f_std(es, dt, ddof=0, **k):
    return T.ssqrt(_f_var(es, dt, ddof))


def _f_min(es, dt, **k):
    r = es[0]
    for e in es[1:]:
        r = T.smin(r, e)
    return r


def _f_max(es, dt, **k):
    r = es[0]
    for e in es[1:]:
        r = T.smax(r, e)
    return r


def _f_argmin(es, dt, **k):
    r, ix = es[0], np.int64(0)
    for i, e in enumerate(es[1:], 1):
        c = T.lt(e, r)
        ix = ite(c, np.int64(i), ix)
        r = ite(c, e, r)
    return ix


def _f_argmax(es, dt, **k):
    return _f_argmin([-lift(e) for e in es], dt)


def _f_all(es, dt, **k):
    return s_and(*[_tb(e) for e in es])


def _f_any(es, dt, **k):
    return s_or(*[_tb(e) for e in es])


def _f_ptp(es, dt, **k):
    return _f_max(es, dt) - _f_min(es, dt)


def _sort_net(es):
    """merge-free sort: insertion through min/max terms"""
    out = []
    for e in es:
        new = []
        for x in out:
            c = T.lt(e, x)
            lo, hi = ite(c, e, x), ite(c, x, e)
            new.append(lo)
            e = hi
        new.append(e)
        out = new
    return out


def _f_percentile1(es, q, method='linear'):
    n = len(es)
    s = _sort_net(es)
    if is_sym(q):
        # symbolic rank: piecewise over the cells
        q = lift(q)
        pos = q * Fraction(n - 1, 100) if n > 1 else lift(0)
        r = s[-1]
        for i in builtins.range(n - 2, -1, -1):
            fr = pos - i
            v = lift(s[i]) + lift(fr) * (lift(s[i + 1]) - lift(s[i]))
            r = ite(T.le(pos, i + 1), v, r) if i < n - 2 else v
        return r
    pos = T.to_frac(q) * Fraction(n - 1, 100)
    lo = int(pos // 1)
    fr = pos - lo
    if method != 'linear':
        if method == 'lower':
            return s[lo]
        if method == 'higher':
            return s[builtins.min(n - 1, lo + (fr > 0))]
        if method == 'midpoint':
            hi = builtins.min(n - 1, lo + (fr > 0))
            return (lift(s[lo]) + s[hi]) / 2
        if method == 'nearest':
            return s[int(np.rint(float(pos)))]
        raise Unsupported('percentile method %s' % method)
    if fr == 0:
        return s[lo]
    return T.mk(T.p_add(lift(s[lo]).p, T.p_scale(T.p_add(lift(s[lo + 1]).p, lift(s[lo]).p, -1), fr)), 'f')


def percentile(a, q, axis=None, out=None, overwrite_input=False, method='linear', keepdims=False, interpolation=None):
    if interpolation is not None:
        method = interpolation
    if not anysym(a) and not anysym(q):
        return call_native('percentile', (a, q), dict(axis=axis, method=method, keepdims=keepdims))
    a = asarr(a)
    qa = asarr(q)
    if a.size == 0:
        raise IndexError('index -1 is out of bounds for axis 0 with size 0')
    for x in qa.d.flat:
        if not is_sym(x) and not 0 <= x <= 100:
            raise ValueError('Percentiles must be in the range [0, 100]')
    res = []
    for x in qa.d.flat:
        f = lambda es, dt, x=x, **k: _f_percentile1(es, x, method)
        if axis is None:
            res.append(cast(f(list(ndread(a).flat), a.dt), np.float64))
        else:
            res.append(_red('median', f)(a, axis=axis, keepdims=keepdims))
    if qa.ndim == 0:
        return res[0]
    if axis is None:
        return asarr(res).reshape(qa.shape)
    return stack(res)


def quantile(a, q, **k):
    return percentile(a, multiply(100, q), **k)


_f_median = lambda es, dt, **k: _f_percentile1(es, 50)

sum = _red('sum', _f_sum)
prod = _red('prod', _f_prod)
mean = _red('mean', _f_mean)
var = _red('var', _f_var)
std = _red('std', _f_std)
amin = min = nanmin = _red('min', _f_min)
amax = max = nanmax = _red('max', _f_max)
ptp = _red('ptp', _f_ptp)
all = _red('all', _f_all)
any = _red('any', _f_any)
argmin = _red('argmin', _f_argmin)
argmax = _red('argmax', _f_argmax)
median = _red('median', _f_median)
nansum, nanmean, nanstd = sum, mean, std
count_nonzero = _red('count_nonzero', lambda es, dt, **k: _f_sum([b2i(_tb(e)) if is_sym(_tb(e)) else int(bool(_tb(e))) for e in es], np.dtype(np.int64)))


def average(a, axis=None, weights=None, **k):
    if weights is None:
        return mean(a, axis=axis)
    w = asarr(weights)
    a = asarr(a)
    if w.ndim == 1 and a.ndim > 1:
        w = w.reshape([-1 if i == axis % a.ndim else 1 for i in builtins.range(a.ndim)])
    return sum(a * w, axis=axis) / sum(broadcast_to(w, a.shape), axis=axis)


def _meth(f):
    def m(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return f(self, axis=axis, dtype=dtype, out=out, keepdims=keepdims, **k)
    return m


for _n in 'sum prod mean var std min max ptp all any argmin argmax'.split():
    setattr(ndarray, _n, _meth(globals()[_n]))


def _cum(name, op):
    nat = _getnp(name)

    def g(a, axis=None, dtype=None, out=None):
        a = asarr(a)
        if not anysym(a):
            return call_native(name, (a,), dict(axis=axis, dtype=dtype))
        if axis is None:
            a = a.ravel()
            axis = 0
        rdt = nat(np.ones(2, a.dt)).dtype
        d = np.moveaxis(ndread(a), axis, -1)
        res = np.empty(d.shape, object)
        for i in np.ndindex(*d.shape[:-1]):
            acc = None
            for j in builtins.range(d.shape[-1]):
                acc = cast(d[i + (j,)], rdt) if acc is None else op(acc, cast(d[i + (j,)], rdt))
                res[i + (j,)] = acc
        r = ndarray(np.moveaxis(res, -1, axis), rdt)
        if dtype is not None:
            r = r.astype(dtype)
        return r
    g.__name__ = name
    return g


cumsum = nancumsum = _cum('cumsum', lambda a, b: a + b)
cumprod = _cum('cumprod', lambda a, b: a * b)
_cmin = _cum('cumsum', T.smin)
ndarray.cumsum = lambda self, axis=None, dtype=None, out=None: cumsum(self, axis, dtype)
ndarray.cumprod = lambda self, axis=None, dtype=None, out=None: cumprod(self, axis, dtype)


def diff(a, n=1, axis=-1, prepend=None, append=None):
    a = asarr(a)
    if not anysym(a) and prepend is None and append is None:
        return call_native('diff', (a, n, axis), {})
    if prepend is not None or append is not None:
        raise Unsupported('diff prepend/append')
    n = operator.index(n)
    if n < 0:
        raise ValueError('order must be non-negative but got ' + repr(n))
    ax = axis % a.ndim
    for _ in builtins.range(n):
        s1 = tuple(slice(1, None) if i == ax else slice(None) for i in builtins.range(a.ndim))
        s0 = tuple(slice(None, -1) if i == ax else slice(None) for i in builtins.range(a.ndim))
        a = (a[s1] - a[s0]) if a.dt != bool else (a[s1] != a[s0])
    return a


def ediff1d(a, *r, **k):
    return diff(asarr(a).ravel())


def dot(a, b, out=None):
    if not anysym(a) and not anysym(b):
        return call_native('dot', (a, b), {})
    a, b = asarr(a), asarr(b)
    if a.ndim == 0 or b.ndim == 0:
        return multiply(a, b)
    if a.ndim == 1 and b.ndim == 1:
        if a.shape != b.shape:
            raise ValueError('shapes not aligned')
        return sum(multiply(a, b))
    if b.ndim == 1:
        return sum(multiply(a, b), axis=-1)
    if a.ndim == 1:
        return sum(multiply(a.reshape(-1, 1), b), axis=-2) if b.ndim == 2 else _uns('dot')
    if a.ndim == 2 and b.ndim == 2:
        if a.shape[1] != b.shape[0]:
            raise ValueError('shapes not aligned')
        return sum(multiply(a.reshape(a.shape + (1,)), b.reshape((1,) + b.shape)), axis=1)
    _uns('dot')


def _uns(n):
    raise Unsupported(n)


def matmul(a, b, **k):
    a, b = asarr(a), asarr(b)
    if a.ndim <= 2 and b.ndim <= 2:
        return dot(a, b)
    return sum(multiply(a.reshape(a.shape + (1,)), b.reshape(b.shape[:-2] + (1,) + b.shape[-2:])), axis=-2)


inner = dot


def vdot(a, b):
    return dot(asarr(a).ravel(), asarr(b).ravel())


def outer(a, b):
    return multiply(asarr(a).reshape(-1, 1), asarr(b).reshape(1, -1))


def norm(x, ord=None, axis=None, keepdims=False):
    if not anysym(x):
        return call_native('linalg.norm', (x,), dict(ord=ord, axis=axis, keepdims=keepdims))
    x = asarr(x)
    if ord == 1:
        if x.ndim == 1 or axis is not None:
            return sum(absolute(x), axis=axis, keepdims=keepdims)
    if ord in (None, 2):
        return sqrt(sum(square(x), axis=axis, keepdims=keepdims))
    if ord == np.inf:
        return max(absolute(x), axis=axis, keepdims=keepdims)
    raise Unsupported('norm')


def einsum(*a, **k):
    return call_native('einsum', a, k)


# ------------------------------------------------------- searching / sorting

def _conc_bool(a):
    return np.array([bool(_tb(e)) if is_sym(e) else bool(e) for e in ndread(a).flat], dtype=bool).reshape(a.shape)


def nonzero(a):
    a = asarr(a)
    return tuple(wrap(x) for x in np.nonzero(_conc_bool(a)))


def flatnonzero(a):
    return nonzero(asarr(a).ravel())[0]


def argwhere(a):
    return wrap(np.argwhere(_conc_bool(asarr(a))))


def where(c, x=None, y=None):
    if x is None and y is None:
        return nonzero(c)
    if not (anysym(c) or anysym(x) or anysym(y)):
        return call_native('where', (c, x, y), {})
    c, xa, ya = asarr(c), asarr(x), asarr(y)
    px = np.ones((1,), xa.dt) if type(x) is ndarray else _proto(x) if not isinstance(x, list) else np.ones((1,), xa.dt)
    py = np.ones((1,), ya.dt) if type(y) is ndarray else _proto(y) if not isinstance(y, list) else np.ones((1,), ya.dt)
    rdt = np.where(np.ones((1,), bool), px, py).dtype
    cb, xb, yb = np.broadcast_arrays(ndread(c), ndread(xa), ndread(ya))
    res = np.empty(cb.shape, object)
    for i in np.ndindex(*cb.shape):
        cc = cb[i]
        if not is_sym(cc):
            r = xb[i] if cc else yb[i]
            res[i] = cast(r, rdt) if rdt != object else r
        else:
            try:
                res[i] = cast(ite(_tb(cc), cast(xb[i], rdt), cast(yb[i], rdt)), rdt)
            except T.SpecAbort:
                res[i] = cast(xb[i] if bool(cc) else yb[i], rdt)
    if res.ndim == 0:
        return ndarray(res, rdt)
    return ndarray(res, rdt)


def select(conds, choices, default=0):
    r = asarr(default)
    for c, v in reversed(list(zip(conds, choices))):
        r = where(c, v, r)
    return r


def _rank_order(es):
    """stable order of possibly symbolic elements, by forking comparisons;
    returns (order, ranks)"""
    order = []
    for i, e in enumerate(es):
        lo, hi = 0, len(order)
        # binary insertion, after equal elements
        while lo < hi:
            m = (lo + hi) // 2
            if bool(T.lt(e, es[order[m]])):
                hi = m
            else:
                lo = m + 1
        order.insert(lo, i)
    return order


def sort(a, axis=-1, kind=None, order=None, stable=None):
    a = asarr(a)
    if not anysym(a):
        return call_native('sort', (a,), dict(axis=axis, kind=kind))
    if axis is None:
        a = a.ravel()
        axis = 0
    d = np.moveaxis(ndread(a), axis, -1)
    res = np.empty(d.shape, object)
    for i in np.ndindex(*d.shape[:-1]):
        r = _sort_net(list(d[i]))
        for j, e in enumerate(r):
            res[i + (j,)] = e
    return ndarray(np.moveaxis(res, -1, axis), a.dt)


def argsort(a, axis=-1, kind=None, order=None, stable=None):
    a = asarr(a)
    if not anysym(a):
        # numpy's default sort is not stable; ties are resolved as numpy does
        return call_native('argsort', (a,), dict(axis=axis, kind=kind))
    d = np.moveaxis(ndread(a), axis, -1)
    res = np.empty(d.shape, object)
    for i in np.ndindex(*d.shape[:-1]):
        for j, e in enumerate(_rank_order(list(d[i]))):
            res[i + (j,)] = e
    return ndarray(np.moveaxis(res, -1, axis), np.int64)


ndarray.argsort = lambda self, axis=-1, kind=None, order=None, stable=None: argsort(self, axis, kind)


def lexsort(keys, axis=-1):
    keys = [asarr(k) for k in keys]
    if not builtins.any(anysym(k) for k in keys):
        return call_native('lexsort', (keys,), dict(axis=axis))
    n = keys[0].shape[0]
    order = list(builtins.range(n))
    for k in keys:
        r = _rank_order([k.d[i] for i in order])
        order = [order[i] for i in r]
    return asarr(order)


def partition(a, kth, axis=-1, **k):
    if not anysym(a):
        return call_native('partition', (a, kth, axis), k)
    return sort(a, axis)


def argpartition(a, kth, axis=-1, **k):
    if not anysym(a):
        return call_native('argpartition', (a, kth, axis), k)
    return argsort(a, axis)


def _ranks(es):
    order = _rank_order(es)
    ranks = [0] * len(es)
    r = -1
    prev = None
    for i in order:
        if prev is None or not bool(T.eq(es[i], es[prev])):
            r += 1
        ranks[i] = r
        prev = i
    return ranks


def unique(a, return_index=False, return_inverse=False, return_counts=False, axis=None, **kk):
    a = asarr(a)
    kw = dict(return_index=return_index, return_inverse=return_inverse, return_counts=return_counts, axis=axis)
    if not anysym(a):
        return call_native('unique', (a,), kw)
    if a.dt.kind == 'b' or a.dt.kind in 'iu' and not getattr(T.ENGINE, 'rank_unique', False):
        c = np.array([operator.index(e) if a.dt.kind != 'b' else bool(e) for e in ndread(a).flat]).reshape(a.shape).astype(a.dt)
        return wrap(np.unique(c, **kw))
    es = list(ndread(a).flat)
    ranks = _ranks(es)
    rep = {}
    for r, e in zip(ranks, es):
        rep.setdefault(r, e)
    nat = np.array(ranks).reshape(a.shape)
    out = np.unique(nat, **kw)
    single = type(out) is np.ndarray
    outs = [out] if single else list(out)
    u = outs[0]
    d = np.empty(u.shape, object)
    for i, r in np.ndenumerate(u):
        d[i] = rep[int(r)]
    res = [ndarray(d, a.dt)] + [wrap(o) for o in outs[1:]]
    return res[0] if single else tuple(res)


def isin(e, t, assume_unique=False, invert=False, **k):
    e, t = asarr(e), asarr(t)
    if not anysym(e) and not anysym(t):
        return call_native('isin', (e, t), dict(invert=invert))
    res = np.empty(e.shape, object)
    for i, x in np.ndenumerate(ndread(e)):
        c = s_or(*[_eqs(x, y) for y in ndread(t).flat])
        res[i] = s_not(c) if invert else c
    return ndarray(res, bool)


def in1d(a, b, assume_unique=False, invert=False):
    return isin(asarr(a).ravel(), b, invert=invert)


def _conc(a):
    a = asarr(a)
    if not anysym(a):
        return a
    if a.dt.kind in 'iu':
        return wrap(np.array([operator.index(e) for e in a.d.flat]).reshape(a.shape).astype(a.dt))
    if a.dt.kind == 'b':
        return wrap(_conc_bool(a))
    raise Unsupported('set operation on symbolic reals')


def _setop(name):
    def g(a, b, *r, **k):
        return call_native(name, (_conc(a), _conc(b)) + r, k)
    g.__name__ = name
    return g


intersect1d, setdiff1d, union1d, setxor1d = [_setop(n) for n in ('intersect1d', 'setdiff1d', 'union1d', 'setxor1d')]


def bincount(x, weights=None, minlength=0):
    x = _conc(x)
    if weights is None or not anysym(weights):
        return call_native('bincount', (x,), dict(weights=weights, minlength=minlength))
    n = builtins.max(minlength, int(builtins.max(list(x.d), default=-1)) + 1)
    out = zeros(n)
    for i in builtins.range(len(x)):
        out[int(x.d[i])] = out[int(x.d[i])] + asarr(weights)[i]
    return out


def searchsorted(a, v, side='left', sorter=None):
    if not anysym(a) and not anysym(v):
        return call_native('searchsorted', (a, v), dict(side=side))
    a = asarr(a)
    va = asarr(v)
    res = np.empty(va.shape, object)
    for i, x in np.ndenumerate(ndread(va)):
        cs = [T.lt(e, x) if side == 'left' else T.le(e, x) for e in ndread(a)]
        res[i] = _f_sum([b2i(c) if is_sym(c) else int(c) for c in cs], np.dtype(np.int64))
    r = ndarray(res, np.int64)
    return r if va.ndim else r.d[()]


def apply_along_axis(f, axis, a, *r, **k):
    a = asarr(a)
    axis %= a.ndim
    m = moveaxis(a, axis, -1)
    lead = m.shape[:-1]
    outs = [f(m[i], *r, **k) for i in np.ndindex(*lead)]
    o = stack([asarr(x) for x in outs])
    o = o.reshape(lead + o.shape[1:])
    if o.ndim > len(lead):
        for _ in builtins.range(o.ndim - len(lead)):
            pass
        o = moveaxis(o, -1, axis) if o.ndim - len(lead) == 1 else o
    return o


def vectorize(f, **k):
    def g(*a):
        arrs = [asarr(x) for x in a]
        b = np.broadcast_arrays(*[ndread(x) for x in arrs])
        return asarr([f(*[_scalar(bb[i], x.dt) for bb, x in zip(b, arrs)]) for i in np.ndindex(*b[0].shape)]).reshape(b[0].shape)
    return g


def fromiter(it, dtype, count=-1):
    return asarr(list(it), dtype)


def meshgrid(*a, **k):
    return call_native('meshgrid', a, k)


class _CClass(object):
    def __init__(self, ax):
        self.ax = ax

    def __getitem__(self, key):
        if type(key) is not tuple:
            key = (key,)
        parts = []
        for x in key:
            if isinstance(x, slice):
                parts.append(wrap(np.r_[x]))
            else:
                parts.append(asarr(x))
        if self.ax == 'c':
            return column_stack([p if p.ndim else p.reshape(1) for p in parts])
        return concatenate([p if p.ndim else p.reshape(1) for p in parts])


c_ = _CClass('c')
r_ = _CClass('r')
s_ = index_exp = np.s_


def ndenumerate(a):
    a = asarr(a)
    for i in np.ndindex(*a.shape):
        yield i, a[i]


def ndindex(*s):
    if len(s) == 1 and isinstance(s[0], tuple):
        s = s[0]
    return np.ndindex(*[operator.index(x) for x in s])


def iterable(x):
    try:
        iter(x)
        return True
    except TypeError:
        return False


def ndim(a):
    return asarr(a).ndim


def shape(a):
    return asarr(a).shape


def size(a, axis=None):
    a = asarr(a)
    return a.size if axis is None else a.shape[axis]


def isscalar(x):
    return is_sym(x) or np.isscalar(x)


def iscomplexobj(x):
    return False


# ------------------------------------------------------------------- dtypes

class _TM(type):
    def __instancecheck__(cls, x):
        real = cls._real
        if type(x) is Sym:
            probe = np.int64 if x.k == 'i' else np.float64
            return issubclass(probe, real)
        if type(x) is SBool:
            return issubclass(np.bool_, real)
        return isinstance(x, real)

    def __subclasscheck__(cls, c):
        c = getattr(c, '_real', c)
        return isinstance(c, type) and issubclass(c, cls._real)

    def __eq__(cls, o):
        return getattr(o, '_real', o) is cls._real

    def __hash__(cls):
        return hash(cls._real)


def _mktype(real):
    concrete = real not in (np.number, np.integer, np.floating, np.generic,
                            np.signedinteger, np.unsignedinteger, np.inexact)

    def __new__(cls, x=0, *a):
        if type(x) is ndarray or isinstance(x, (list, tuple)):
            r = asarr(x).astype(real)
            return r
        if is_sym(x):
            return cast(x, real)
        if isinstance(x, np.ndarray):
            return wrap(x.astype(real))
        return real(x, *a)
    ns = {'__new__': __new__, '_real': real}
    try:
        return _TM(real.__name__, (real,), ns)
    except TypeError:
        # bool_ cannot be subclassed
        ns['dtype'] = np.dtype(real)
        return _TM(real.__name__, (object,), ns)


_TYPES = {}
for _n in ('int8 int16 int32 int64 uint8 uint16 uint32 uint64 float16 float32 '
           'float64 integer floating number generic signedinteger inexact').split():
    _TYPES[_n] = _mktype(getattr(np, _n))
globals().update(_TYPES)
bool_ = _mktype(np.bool_)
int_ = intp = longlong = int64
uint = uint64
float_ = double = float64
intc = int32
single = float32
object_ = np.object_
str_ = np.str_
complex128 = np.complex128


def _unreal(t):
    return getattr(t, '_real', t)


def issubdtype(a, b):
    return np.issubdtype(_unreal(a), _unreal(b))


def dtype(x, *a, **k):
    return np.dtype(_unreal(x), *a, **k)


class _DtypeMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, np.dtype)

    def __call__(cls, x, *a, **k):
        return np.dtype(_unreal(x), *a, **k)


class dtype(metaclass=_DtypeMeta):
    pass


def result_type(*a):
    return np.result_type(*[x.dt if type(x) is ndarray else _unreal(x) for x in a])


def can_cast(a, b, *r):
    return np.can_cast(_unreal(a), _unreal(b), *r)


def promote_types(a, b):
    return np.promote_types(_unreal(a), _unreal(b))


def iinfo(t):
    return np.iinfo(_unreal(t))


def finfo(t):
    return np.finfo(_unreal(t))


def shares_memory(a, b, *r):
    return np.shares_memory(a.d, b.d)


may_share_memory = shares_memory
ascontiguousarray = asfortranarray = asanyarray = require = asarray
newaxis = None
inf = Inf = infty = np.inf
nan = NaN = np.nan
pi = np.pi
e = np.e
errstate = np.errstate
seterr = np.seterr
set_printoptions = lambda *a, **k: None
concat = concatenate
permute_dims = transpose


def ix_(*a):
    return call_native('ix_', a, {})


def triu_indices(*a, **k):
    return wrap(np.triu_indices(*a, **k))


def tril_indices(*a, **k):
    return wrap(np.tril_indices(*a, **k))


def make_module():
    """module object named numpy"""
    m = types.ModuleType('numpy')
    g = globals()
    skip = {'np', 'T', 'builtins', 'operator', 'types', 'sys', 'make_module',
            'Fraction', 'Sym', 'SBool', 'lift', 'cast', 'ite', 'struct', 'struct_seq',
            'wrap', 'asarr', 'anysym', 'call_native', 'to_native', 'HOOKS', 'TRACK', 'Tracker'}
    for n, v in g.items():
        if n.startswith('__') or n in skip:
            continue
        if n.startswith('_'):
            continue
        setattr(m, n, v)
    m.bool = bool_
    m.__version__ = '1.24.4'
    m.divmod = divmod_
    lib = types.ModuleType('numpy.lib')
    st = types.ModuleType('numpy.lib.stride_tricks')
    st.sliding_window_view = sliding_window_view
    st.as_strided = as_strided
    st.broadcast_to = broadcast_to
    lib.stride_tricks = st
    m.lib = lib
    la = types.ModuleType('numpy.linalg')
    la.norm = norm
    la.inv = lambda *a: call_native('linalg.inv', a, {})
    m.linalg = la
    fft = types.ModuleType('numpy.fft')
    m.fft = fft

    def __getattr__(name):
        if name.startswith('__'):
            raise AttributeError(name)
        v = getattr(np, name)
        if callable(v) and not isinstance(v, type):
            def f(*a, **k):
                return call_native(name, a, k)
            f.__name__ = name
            return f
        return v
    m.__getattr__ = __getattr__
    return m
