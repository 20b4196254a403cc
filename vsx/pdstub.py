"""The small part of pandas convst uses."""
import types


class Series(object):
    def __init__(self, values, index=None, w=None):
        self.w = w
        self._v = list(values)
        self._ix = list(index) if index is not None else list(range(len(self._v)))
        self.name = None
        self._key = None      # name of the index

    @property
    def index(self):
        return Index(self._ix, self.w)

    @property
    def values(self):
        return self.w.np.asarray(self._v)

    @property
    def loc(self):
        return _SLoc(self, False)

    @property
    def iloc(self):
        return _SLoc(self, True)

    @property
    def size(self):
        return len(self._v)

    @property
    def ndim(self):
        return 1

    def __getattr__(self, k):
        return _missing(self, 'Series', k)

    def _map(self, f):
        return Series([f(x) for x in self._v], self._ix, self.w)

    def _bin(self, o, f):
        if isinstance(o, Series):
            if o._ix != self._ix:
                self.w.h.unsupported('pandas alignment')
            return Series([f(x, y) for x, y in zip(self._v, o._v)], self._ix, self.w)
        if hasattr(o, '__len__') and not isinstance(o, str):
            return Series([f(x, y) for x, y in zip(self._v, list(o))], self._ix, self.w)
        return self._map(lambda x: f(x, o))

    def __lt__(self, o):
        return self._bin(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._bin(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._bin(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._bin(o, lambda a, b: a >= b)

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    def __radd__(self, o):
        return self._bin(o, lambda a, b: b + a)

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a)

    def __mul__(self, o):
        return self._bin(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._bin(o, lambda a, b: a / b)

    def __neg__(self):
        return self._map(lambda a: -a)

    def __and__(self, o):
        t = self.w.h.truth
        return self._bin(o, lambda a, b: t(a) and t(b))

    def __or__(self, o):
        t = self.w.h.truth
        return self._bin(o, lambda a, b: t(a) or t(b))

    def __contains__(self, k):
        return k in self._ix

    def abs(self):
        return self._map(abs)

    def round(self, decimals=0):
        return Series(_rounded(self._v, decimals, self.w), self._ix, self.w)

    def astype(self, dtype, *a, **k):
        return Series(list(self.values.astype(dtype)), self._ix, self.w)

    def apply(self, f, *a, **k):
        return self._map(f)

    def map(self, f, *a, **k):
        return self._map(f if callable(f) else (lambda x: f[x]))

    def copy(self, deep=True):
        return Series(self._v, self._ix, self.w)

    def items(self):
        return zip(list(self._ix), list(self._v))

    iteritems = items

    def to_list(self):
        return list(self._v)

    def to_dict(self):
        return dict(self.items())

    def to_frame(self, name=None):
        d = DataFrame({name if name is not None else (self.name or 0): list(self._v)})
        d._index = list(self._ix)
        return d

    def get(self, k, default=None):
        return self._v[self._ix.index(k)] if k in self._ix else default

    def sum(self):
        s = 0
        for x in self._v:
            s = s + x
        return s

    def all(self):
        return all(self.w.h.truth(x) for x in self._v)

    def any(self):
        return any(self.w.h.truth(x) for x in self._v)

    def count(self):
        return len(self._v)

    def min(self):
        r = self._v[0]
        for x in self._v[1:]:
            r = x if self.w.h.truth(x < r) else r
        return r

    def idxmax(self):
        b = 0
        for i in range(1, len(self._v)):
            b = i if self.w.h.truth(self._v[i] > self._v[b]) else b
        return self._ix[b]

    def idxmin(self):
        b = 0
        for i in range(1, len(self._v)):
            b = i if self.w.h.truth(self._v[i] < self._v[b]) else b
        return self._ix[b]

    def nunique(self):
        return len(set(self._v))

    def value_counts(self):
        ks = []
        for v in self._v:
            if v not in ks:
                ks.append(v)
        ks = sorted(ks, key=lambda k: -sum(1 for v in self._v if v == k))
        return Series([sum(1 for v in self._v if v == k) for k in ks], ks, self.w)

    def sort_index(self, ascending=True):
        ix = sorted(range(len(self._ix)), key=lambda i: self._ix[i], reverse=not ascending)
        return Series([self._v[i] for i in ix], [self._ix[i] for i in ix], self.w)

    def reindex(self, labels, *a, **k):
        labels = list(labels)
        return Series([self.get(x, float('nan')) for x in labels], labels, self.w)

    def reset_index(self, drop=False, name=None):
        if drop:
            return Series(self._v, None, self.w)
        d = self.to_frame(name)
        d._index_name = self._key
        return d.reset_index()

    def rank(self, axis=0, ascending=True, method='average'):
        r = self.to_frame('x').rank(ascending=ascending, method=method)
        return Series(r._c['x'], self._ix, self.w)

    def to_numpy(self, *a, **k):
        return self.values

    @property
    def _vsx_list(self):
        return self._v

    def __array__(self, dtype=None, copy=None):
        import numpy
        return numpy.asarray(self._v, dtype=dtype)

    @property
    def dtype(self):
        return self.values.dtype

    @property
    def shape(self):
        return (len(self._v),)

    def __len__(self):
        return len(self._v)

    def __iter__(self):
        return iter(self._v)

    def tolist(self):
        return list(self._v)

    def keys(self):
        return self.index

    def max(self):
        r = self._v[0]
        for x in self._v[1:]:
            r = x if self.w.h.truth(x > r) else r
        return r

    def mean(self):
        s = 0
        for x in self._v:
            s = s + x
        return s / len(self._v)

    def unique(self):
        return self.w.np.unique(self.values)

    def __eq__(self, o):
        return Series([x == o for x in self._v], self._ix, self.w)

    def __ne__(self, o):
        return Series([x != o for x in self._v], self._ix, self.w)

    def __invert__(self):
        return Series([not x for x in self._v], self._ix, self.w)

    def isin(self, vals):
        vals = list(vals)
        return Series([any(x == v for v in vals) for x in self._v], self._ix, self.w)

    def sort_values(self, ascending=True):
        ix = list(range(len(self._v)))
        # stable insertion sort with symbolic comparisons
        for i in range(1, len(ix)):
            j = i
            while j > 0:
                a, b = self._v[ix[j - 1]], self._v[ix[j]]
                sw = self.w.h.truth(a > b) if ascending else self.w.h.truth(a < b)
                if not sw:
                    break
                ix[j - 1], ix[j] = ix[j], ix[j - 1]
                j -= 1
        return Series([self._v[i] for i in ix], [self._ix[i] for i in ix], self.w)

    def __getitem__(self, k):
        if isinstance(k, slice):
            return Series(self._v[k], self._ix[k], self.w)
        if isinstance(k, int) and k not in self._ix:
            return self._v[k]
        if _is_mask(k):
            keep = [i for i, m in enumerate(k) if self.w.h.truth(m)]
            return Series([self._v[i] for i in keep], [self._ix[i] for i in keep], self.w)
        if isinstance(k, (list, Index)) or hasattr(k, 'ravel'):
            return Series([self._v[self._ix.index(x)] for x in k], list(k), self.w)
        return self._v[self._ix.index(k)]

    def __setitem__(self, k, v):
        if k in self._ix:
            self._v[self._ix.index(k)] = v
        else:
            self._ix.append(k)
            self._v.append(v)


class _SLoc(object):
    def __init__(self, s, pos):
        self.s = s
        self.pos = pos

    def __getitem__(self, k):
        s = self.s
        if self.pos and isinstance(k, slice):
            return s[k]
        if self.pos and not _is_mask(k):
            if isinstance(k, (list, tuple)) or hasattr(k, 'ravel') and getattr(k, 'ndim', 0):
                return Series([s._v[i] for i in k], [s._ix[i] for i in k], s.w)
            return s._v[k]
        return s[k]


def _is_mask(k):
    if isinstance(k, (str, slice, tuple)) or not hasattr(k, '__len__') or not len(k):
        return False
    if str(getattr(k, 'dtype', '')) == 'bool':
        return True
    return all(isinstance(x, bool) or type(x).__name__ in ('SBool', 'bool_') for x in k)


# members of the real classes that the stub leaves out: the path ends as unsupported
_LEFT_OUT = set('''agg aggregate add align all any append applymap apply asfreq assign astype at bfill clip combine corr
count cov cumprod cumsum cut describe diff div dot drop drop_duplicates dropna dtypes duplicated empty eq equals eval
ewm expanding explode factorize ffill fillna filter first ge get gt head hist iat idxmax idxmin info insert interpolate
isna isnull items iterrows itertuples join last le lt mask max median melt merge min mod mul ndim ne nlargest notna
notnull nsmallest nunique pct_change pipe pivot pivot_table plot pop pow prod quantile query reindex rename
rename_axis replace resample rolling sample sem set_axis set_index shift skew sort_index squeeze stack std str
sub sum swapaxes T tail take to_csv to_dict to_frame to_list to_numpy to_records transform transpose truncate
unstack update value_counts var where xs'''.split())


def _missing(o, cls, k):
    if k in _LEFT_OUT and not k.startswith('_'):
        DataFrame.W.h.unsupported('pandas %s.%s' % (cls, k))
    raise AttributeError("'%s' object has no attribute '%s'" % (cls, k))


def _rounded(v, decimals, w):
    if any(isinstance(x, (str, bytes)) or x is None for x in v):
        return list(v)
    return list(w.np.round(w.np.asarray(v), decimals)) if len(v) else []


class Index(object):
    def __init__(self, names, w):
        self._n = list(names)
        self.w = w

    def __eq__(self, o):
        o = list(o) if isinstance(o, (list, tuple, Index)) else [o] * len(self._n)
        return self.w.np.asarray([bool(x == y) for x, y in zip(self._n, o)], dtype=bool)

    def __ne__(self, o):
        return ~(self == o)

    __hash__ = None

    @property
    def values(self):
        return self.w.np.asarray(self._n)

    def __array__(self, dtype=None, copy=None):
        import numpy
        return numpy.asarray(self._n)

    def difference(self, o):
        return Index(sorted(n for n in self._n if n not in list(o)), self.w)

    def __iter__(self):
        return iter(self._n)

    def __len__(self):
        return len(self._n)

    def __getitem__(self, i):
        if _is_mask(i):
            return Index([n for n, m in zip(self._n, i) if self.w.h.truth(m)], self.w)
        if isinstance(i, slice):
            return Index(self._n[i], self.w)
        if isinstance(i, list) or (hasattr(i, 'ravel') and getattr(i, 'ndim', 0)):
            return Index([self._n[j] for j in i], self.w)
        return self._n[i]

    def __contains__(self, x):
        return x in self._n

    def __getattr__(self, k):
        return _missing(self, 'Index', k)

    @property
    def shape(self):
        return (len(self._n),)

    @property
    def size(self):
        return len(self._n)

    def tolist(self):
        return list(self._n)

    to_list = tolist

    def to_numpy(self, *a, **k):
        return self.values

    def unique(self):
        return Index([n for i, n in enumerate(self._n) if n not in self._n[:i]], self.w)

    def sort_values(self, ascending=True):
        return Index(sorted(self._n, reverse=not ascending), self.w)

    def isin(self, vals):
        vals = list(vals)
        return self.w.np.asarray([n in vals for n in self._n], dtype=bool)

    def intersection(self, o):
        return Index([n for n in self._n if n in list(o)], self.w)

    def union(self, o):
        return Index(sorted(set(self._n) | set(o)), self.w)

    def get_loc(self, x):
        return self._n.index(x)

    def drop(self, x):
        x = [x] if isinstance(x, str) else list(x)
        return Index([n for n in self._n if n not in x], self.w)


class _Loc(object):
    def __init__(self, df):
        self.df = df

    def __getitem__(self, k):
        df = self.df
        if isinstance(k, tuple):
            r, c = k
            if isinstance(r, slice) and r == slice(None):
                return df[c]
            if isinstance(r, Series) or _is_mask(r):
                return df._rows(r)[c]
            if isinstance(r, (list, Index)) or hasattr(r, 'ravel'):
                return self[r][c]
            if isinstance(c, (list, Index, slice)):
                return self[r][c]
            return df._c[c][df._index.index(r)]
        if isinstance(k, Series) or _is_mask(k):
            return df._rows(k)
        if isinstance(k, (list, Index)) or hasattr(k, 'ravel'):
            return df._reorder([df._index.index(x) for x in k])
        if isinstance(k, slice):
            df.w.h.unsupported('DataFrame.loc[%r]' % (k,))
        i = df._index.index(k)
        return Series([df._c[c][i] for c in df._names], df._names, df.w)

    def __setitem__(self, k, v):
        df = self.df
        r, c = k
        if r not in df._index:
            df._index.append(r)
            for x in df._names:
                df._c[x].append(float('nan'))
        if c not in df._names:
            df._names.append(c)
            df._c[c] = [float('nan')] * len(df._index)
        df._c[c][df._index.index(r)] = v


class _ILoc(object):
    def __init__(self, df):
        self.df = df

    def __getitem__(self, i):
        df = self.df
        if isinstance(i, tuple):
            r, c = i
            d = df if isinstance(r, slice) and r == slice(None) else self[r]
            if isinstance(d, Series):
                return d.iloc[c]
            if isinstance(c, slice):
                return d._cols(d._names[c])
            return d._cols([d._names[j] for j in c]) if hasattr(c, '__len__') else d[d._names[c]]
        if isinstance(i, slice):
            return df._reorder(list(range(len(df._index)))[i])
        if _is_mask(i):
            return df._rows(i)
        if hasattr(i, '__len__'):
            return df._reorder(list(i))
        return Series([df._c[c][i] for c in df._names], df._names, df.w)


class DataFrame(object):
    W = None

    def __init__(self, data=None, index=None, columns=None):
        self.w = DataFrame.W
        self._c = {}
        self._names = []
        n = 0
        if isinstance(data, dict):
            for k, v in data.items():
                idx = v.index if isinstance(v, Series) else None
                self._c[k] = list(v)
                self._names.append(k)
                n = len(self._c[k])
                if index is None and idx is not None:
                    index = idx
        elif data is not None:
            a = self.w.np.asarray(data)
            n = a.shape[0]
            columns = list(columns) if columns is not None else list(range(a.shape[1]))
            for j, k in enumerate(columns):
                self._names.append(k)
                self._c[k] = [a[i, j] for i in range(n)]
        self._index = list(index) if index is not None else list(range(n))

    @property
    def loc(self):
        return _Loc(self)

    @property
    def iloc(self):
        return _ILoc(self)

    @property
    def columns(self):
        return Index(self._names, self.w)

    @property
    def index(self):
        return Index(self._index, self.w)

    @property
    def shape(self):
        return (len(self._index), len(self._names))

    @property
    def ndim(self):
        return 2

    @property
    def size(self):
        return len(self._index) * len(self._names)

    @property
    def values(self):
        np = self.w.np
        return np.asarray([[self._c[c][i] for c in self._names] for i in range(len(self._index))]).reshape(self.shape)

    def to_numpy(self, *a, **k):
        return self.values

    def _vsx_array(self):
        return self.values

    def __array__(self, dtype=None, copy=None):
        return self.values

    def __len__(self):
        return len(self._index)

    def __getitem__(self, k):
        if isinstance(k, Series) or _is_mask(k):
            return self._rows(k)
        if isinstance(k, (list, Index)):
            return self._cols(list(k))
        return Series(self._c[k], self._index, self.w)

    def __setitem__(self, k, v):
        if k not in self._names:
            self._names.append(k)
        if isinstance(v, Series) and list(v._ix) != self._index:
            v = v.reindex(self._index)
        self._c[k] = list(v) if hasattr(v, '__len__') and not isinstance(v, str) else [v] * len(self._index)

    def __getattr__(self, k):
        if not k.startswith('_') and k in self.__dict__.get('_names', ()):
            return self[k]
        return _missing(self, 'DataFrame', k)

    def __iter__(self):
        return iter(self._names)

    def __contains__(self, k):
        return k in self._names

    def items(self):
        return [(k, self[k]) for k in self._names]

    @property
    def T(self):
        d = DataFrame({})
        d._names = list(self._index)
        d._index = list(self._names)
        for i, k in enumerate(self._index):
            d._c[k] = [self._c[c][i] for c in self._names]
        return d

    transpose = lambda self: self.T

    @property
    def empty(self):
        return not self._index or not self._names

    def iterrows(self):
        for i, r in enumerate(self._index):
            yield r, Series([self._c[c][i] for c in self._names], self._names, self.w)

    def itertuples(self, index=True, name='Pandas'):
        from collections import namedtuple
        f = (['Index'] if index else []) + [str(c) for c in self._names]
        mk = namedtuple(name, f, rename=True) if name else (lambda *a: a)
        for i, r in enumerate(self._index):
            yield mk(*(([r] if index else []) + [self._c[c][i] for c in self._names]))

    def to_dict(self, orient='dict'):
        if orient == 'records':
            return [{c: self._c[c][i] for c in self._names} for i in range(len(self._index))]
        if orient == 'list':
            return {c: list(self._c[c]) for c in self._names}
        if orient != 'dict':
            self.w.h.unsupported('DataFrame.to_dict(%r)' % orient)
        return {c: dict(zip(self._index, self._c[c])) for c in self._names}

    def set_index(self, k, *a, **kw):
        if not isinstance(k, str):
            self.w.h.unsupported('DataFrame.set_index(%r)' % (k,))
        d = DataFrame({c: self._c[c] for c in self._names if c != k})
        d._index = list(self._c[k])
        return d

    def sort_index(self, ascending=True):
        ix = sorted(range(len(self._index)), key=lambda i: self._index[i], reverse=not ascending)
        return self._reorder(ix)

    def reindex(self, index=None, columns=None, *a, **k):
        d = self
        if index is not None:
            d = d._reorder([d._index.index(x) for x in index])
        if columns is not None:
            d = d._cols(list(columns))
        return d

    def head(self, n=5):
        return self._reorder(list(range(len(self._index)))[:n])

    def drop_duplicates(self, subset=None):
        cols = self._names if subset is None else [subset] if isinstance(subset, str) else list(subset)
        keys = [tuple(self._c[c][i] for c in cols) for i in range(len(self._index))]
        return self._reorder([i for i, x in enumerate(keys) if x not in keys[:i]])

    def pivot(self, index=None, columns=None, values=None):
        rs, cs = self._c[index], self._c[columns]
        d = DataFrame({})
        d._index = sorted(set(rs))
        d._names = sorted(set(cs))
        at = {}
        for i in range(len(self._index)):
            if (rs[i], cs[i]) in at:
                raise ValueError('Index contains duplicate entries, cannot reshape')
            at[rs[i], cs[i]] = self._c[values][i]
        for c in d._names:
            d._c[c] = [at.get((r, c), float('nan')) for r in d._index]
        return d

    def pivot_table(self, values=None, index=None, columns=None, **k):
        if k:
            self.w.h.unsupported('DataFrame.pivot_table(%r)' % (k,))
        try:
            return self.pivot(index, columns, values)
        except ValueError:
            self.w.h.unsupported('DataFrame.pivot_table of duplicates')

    def _cols(self, ks):
        d = DataFrame({k: self._c[k] for k in ks})
        d._index = list(self._index)
        return d

    def _rows(self, mask):
        keep = [i for i, m in enumerate(mask) if self.w.h.truth(m)]
        d = DataFrame({k: [self._c[k][i] for i in keep] for k in self._names})
        d._index = [self._index[i] for i in keep]
        return d

    def _reorder(self, ix):
        d = DataFrame({k: [self._c[k][i] for i in ix] for k in self._names})
        d._index = [self._index[i] for i in ix]
        return d

    def sort_values(self, by, ascending=True):
        by = [by] if isinstance(by, str) else list(by)
        ix = sorted(range(len(self._index)), key=lambda i: tuple(self._c[b][i] for b in by), reverse=not ascending)
        return self._reorder(ix)

    def groupby(self, by):
        return _Group(self, [by] if isinstance(by, str) else list(by))

    def reset_index(self, drop=False):
        d = DataFrame({})
        if not drop:
            nm = getattr(self, '_index_name', None) or 'index'
            d._names.append(nm)
            d._c[nm] = list(self._index)
        for k in self._names:
            d._names.append(k)
            d._c[k] = list(self._c[k])
        d._index = list(range(len(self._index)))
        return d

    def round(self, decimals=0):
        if not isinstance(decimals, int):
            self.w.h.unsupported('DataFrame.round(dict)')
        d = DataFrame({})
        d._index, d._names = list(self._index), list(self._names)
        d._c = {k: _rounded(self._c[k], decimals, self.w) for k in self._names}
        return d

    def rank(self, axis=0, ascending=True, method='average'):
        h = self.w.h
        if method not in ('average', 'min', 'max') or axis != 0:
            h.unsupported('DataFrame.rank(%r, %r)' % (axis, method))
        d = DataFrame({})
        d._index = list(self._index)
        for k in self._names:
            col = self._c[k]
            out = []
            for x in col:
                better = 0
                same = 0
                for y in col:
                    better = better + h.to_int(y < x if ascending else y > x)
                    same = same + h.to_int(y == x)
                out.append({'average': better + (same + 1) / 2, 'min': better + 1, 'max': better + same}[method])
            d._names.append(k)
            d._c[k] = out
        return d

    def mean(self, axis=0):
        if axis == 1:
            vals = []
            for i in range(len(self._index)):
                s = 0
                for k in self._names:
                    s = s + self._c[k][i]
                vals.append(s / len(self._names))
            return Series(vals, self._index, self.w)
        return Series([Series(self._c[k], None, self.w).mean() for k in self._names], self._names, self.w)

    def copy(self, deep=True):
        d = DataFrame({k: list(self._c[k]) for k in self._names})
        d._index = list(self._index)
        return d


class _Group(object):
    def __init__(self, df, by, col=None):
        self.df = df
        self.by = by
        self.col = col

    def __getattr__(self, k):
        if k.startswith('_'):
            raise AttributeError(k)
        DataFrame.W.h.unsupported('pandas groupby.%s' % k)

    def _keys(self):
        return self.df._c[self.by[0]] if len(self.by) == 1 else list(zip(*[self.df._c[b] for b in self.by]))

    def __getitem__(self, k):
        return _Group(self.df, self.by, k)

    def __iter__(self):
        vals = self._keys()
        for k in sorted(set(vals)):
            d = self.df._reorder([i for i, v in enumerate(vals) if v == k])
            yield k, (d if self.col is None else d[self.col])

    def _each(self, f):
        gs = list(self)
        s = Series([f(d) for _, d in gs], [k for k, _ in gs], self.df.w)
        if len(self.by) == 1:
            s._key = self.by[0]
        return s

    def size(self):
        return self._each(len)

    def nunique(self):
        return self._each(lambda d: d.nunique())

    def count(self):
        if self.col is None:
            self.df.w.h.unsupported('pandas groupby.count')
        return self._each(len)

    def get_group(self, k):
        return dict(iter(self))[k]

    @property
    def groups(self):
        vals = self._keys()
        return {k: [self.df._index[i] for i, v in enumerate(vals) if v == k] for k in sorted(set(vals))}

    def mean(self):
        if self.col is None:
            self.df.w.h.unsupported('pandas groupby.mean')
        return self._each(lambda d: d.mean())


def mods(w):
    DataFrame.W = w
    m = types.ModuleType('pandas')
    m._vsx_stub = True

    class DF(DataFrame):
        def __init__(self, data=None, index=None, columns=None):
            DataFrame.__init__(self, data, index, columns)
            if isinstance(data, dict):
                for v in data.values():
                    if isinstance(v, Series) and v._key:
                        self._index_name = v._key
    DF.__name__ = 'DataFrame'
    m.DataFrame = DF
    m.Series = lambda data=None, index=None, **k: Series(data, index, w)
    m.__version__ = '1.5.3'

    def concat(*a, **k):
        w.h.unsupported('pandas.concat')
    m.concat = concat
    return {'pandas': m}
