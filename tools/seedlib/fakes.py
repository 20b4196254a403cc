"""Small pure Python stand-ins for the third party modules convst imports
(numba, joblib, scikit-learn, scipy, aeon, matplotlib, ...), so that its code
can be run where they are not installed.  Importing this file installs those
that are missing."""
import importlib
import itertools
import os
import sys
import types

import numpy as np

sys.path.insert(0, os.getcwd())
sys.dont_write_bytecode = True

DATASETS = {}        # (name, split) -> (X, y)
DRAWN = []           # (method, args, kwargs) of every drawing call
PVALUES = {}         # frozenset of two tuples of values -> p-value
OVERLOADS = {}       # numpy function -> implementation factory


def _mod(name, **attrs):
    m = sys.modules.get(name)
    if m is None:
        m = types.ModuleType(name)
        m.__path__ = []
        sys.modules[name] = m
        if '.' in name:
            parent, _, child = name.rpartition('.')
            setattr(_mod(parent), child, m)
    for k, v in attrs.items():
        setattr(m, k, v)
    return m


# ---------------------------------------------------------------- numba
def njit(*args, **kw):
    if args and callable(args[0]) and not kw:
        return args[0]
    return lambda f: f


class _T:
    class Integer: pass
    class NoneType: pass
    class Optional:
        def __init__(self, type): self.type = type
    class Array:
        def __init__(self, ndim): self.ndim = ndim


def overload(fn):
    def deco(impl):
        OVERLOADS[fn] = impl
        return impl
    return deco


class TypingError(Exception):
    pass


_mod('numba', njit=njit, jit=njit, prange=range, types=_T,
     set_num_threads=lambda n: None)
_mod('numba.extending', overload=overload, register_jitable=njit)
_mod('numba.core')
_mod('numba.core.errors', TypingError=TypingError)


# --------------------------------------------------------------- joblib
class Parallel:
    def __init__(self, *args, **kw): pass
    def __call__(self, jobs): return [f(*a, **k) for f, a, k in jobs]


def delayed(f):
    return lambda *a, **k: (f, a, k)


_mod('joblib', Parallel=Parallel, delayed=delayed)


# -------------------------------------------------------------- sklearn
class BaseEstimator:
    def get_params(self, deep=True):
        import inspect
        names = [p for p in inspect.signature(type(self).__init__).parameters
                 if p not in ('self', 'args', 'kwargs')]
        return {n: getattr(self, n) for n in names}

    def set_params(self, **kw):
        for k, v in kw.items():
            setattr(self, k, v)
        return self


class TransformerMixin:
    def fit_transform(self, X, y=None, **kw):
        return self.fit(X, y, **kw).transform(X)


class ClassifierMixin:
    pass


def check_random_state(seed):
    if seed is None:
        return np.random.mtrand._rand
    if isinstance(seed, (int, np.integer)):
        return np.random.RandomState(seed)
    if isinstance(seed, np.random.RandomState):
        return seed
    raise ValueError('not a seed: %r' % (seed,))


def check_is_fitted(est, attributes=None):
    names = [attributes] if isinstance(attributes, str) else attributes or []
    if not all(hasattr(est, a) for a in names):
        raise ValueError('not fitted')


def resample(*arrays, replace=True, n_samples=None, random_state=None,
             stratify=None):
    rng = check_random_state(random_state)
    n = len(arrays[0])
    k = n if n_samples is None else n_samples
    if stratify is None:
        idx = rng.randint(0, n, size=k) if replace else rng.permutation(n)[:k]
    else:
        stratify = np.asarray(stratify)
        classes, counts = np.unique(stratify, return_counts=True)
        share = np.floor(counts * k / float(n)).astype(int)
        for j in np.argsort(-(counts * k / float(n) - share), kind='stable'):
            if share.sum() < k:
                share[j] += 1
        parts = []
        for c, s in zip(classes, share):
            rows = np.where(stratify == c)[0]
            parts.append(rows[rng.randint(0, len(rows), size=s)] if replace
                         else rng.permutation(rows)[:s])
        idx = rng.permutation(np.concatenate(parts))
    out = [np.asarray(a)[idx] for a in arrays]
    return out[0] if len(out) == 1 else out


def softmax(X, copy=True):
    X = np.exp(X - X.max(axis=1, keepdims=True))
    return X / X.sum(axis=1, keepdims=True)


def accuracy_score(y, p):
    return float(np.mean(np.asarray(y).ravel() == np.asarray(p).ravel()))


class _Scorer:
    def __init__(self, f): self.f = f
    def __call__(self, est, X, y): return self.f(y, est.predict(X))


class StandardScaler(BaseEstimator, TransformerMixin):
    def __init__(self, copy=True, with_mean=True, with_std=True):
        self.copy, self.with_mean, self.with_std = copy, with_mean, with_std

    def fit(self, X, y=None):
        self.mean_ = X.mean(axis=0)
        s = X.std(axis=0)
        self.scale_ = np.where(s == 0, 1., s)
        return self

    def transform(self, X):
        if X.shape[1] != len(self.scale_):
            raise ValueError('wrong number of features')
        X = np.array(X, dtype=float)
        if self.with_mean:
            X = X - self.mean_
        return X / self.scale_ if self.with_std else X


class MinMaxScaler(BaseEstimator, TransformerMixin):
    def __init__(self, feature_range=(0, 1), copy=True, clip=False):
        self.feature_range, self.copy, self.clip = feature_range, copy, clip

    def fit(self, X, y=None):
        self.data_min_, self.data_max_ = X.min(axis=0), X.max(axis=0)
        return self

    def transform(self, X):
        if X.shape[1] != len(self.data_min_):
            raise ValueError('wrong number of features')
        r = self.data_max_ - self.data_min_
        return (X - self.data_min_) / np.where(r == 0, 1., r)


class LabelEncoder(BaseEstimator):
    def fit(self, y):
        self.classes_ = np.unique(y)
        return self

    def transform(self, y):
        y = np.asarray(y)
        if not np.isin(y, self.classes_).all():
            raise ValueError('unseen labels')
        return np.searchsorted(self.classes_, y)

    def fit_transform(self, y): return self.fit(y).transform(y)
    def inverse_transform(self, y): return self.classes_[y]


class RidgeClassifierCV(BaseEstimator, ClassifierMixin):
    """Ridge regression on -1/1 targets, leave one out selection."""
    def __init__(self, alphas=(.1, 1., 10.), *, fit_intercept=True,
                 normalize='deprecated', scoring=None, cv=None,
                 class_weight=None, store_cv_values=False):
        self.alphas, self.fit_intercept, self.scoring = alphas, fit_intercept, scoring
        self.cv, self.class_weight, self.store_cv_values = cv, class_weight, store_cv_values

    def fit(self, X, y, sample_weight=None):
        X, y = np.asarray(X, dtype=float), np.asarray(y)
        self.classes_ = np.unique(y)
        Y = np.where(y[:, None] == self.classes_[None, :], 1., -1.)
        if len(self.classes_) == 2:
            Y = Y[:, 1:]
        A = np.hstack([X, np.ones((len(X), 1))]) if self.fit_intercept else X
        best, cvv = None, []
        for alpha in np.asarray(self.alphas, dtype=float):
            R = np.full(A.shape[1], float(alpha))
            if self.fit_intercept:
                R[-1] = 1e-9
            G = np.linalg.solve(A.T @ A + np.diag(R), A.T)
            H = A @ G
            loo = (H @ Y - np.diag(H)[:, None] * Y) / np.maximum(
                1 - np.diag(H), 1e-12)[:, None]
            err = -((loo - Y) ** 2).mean()
            cvv.append(loo if self.scoring is not None else (loo - Y) ** 2)
            if best is None or err > best[0]:
                best = (err, alpha, G @ Y)
        self.best_score_, self.alpha_, W = best
        self.cv_values_ = np.stack(cvv, axis=-1)
        self.coef_ = W[:-1].T if self.fit_intercept else W.T
        self.intercept_ = W[-1] if self.fit_intercept else np.zeros(Y.shape[1])
        return self

    def decision_function(self, X):
        s = np.asarray(X) @ self.coef_.T + self.intercept_
        return s.ravel() if s.shape[1] == 1 else s

    def predict(self, X):
        s = self.decision_function(X)
        i = (s > 0).astype(int) if s.ndim == 1 else s.argmax(axis=1)
        return self.classes_[i]


class Pipeline(BaseEstimator):
    def __init__(self, steps): self.steps = steps
    def __getitem__(self, i):
        return self.steps[i][1] if isinstance(i, int) else dict(self.steps)[i]

    @property
    def named_steps(self): return dict(self.steps)

    def fit(self, X, y=None, **kw):
        for _, s in self.steps[:-1]:
            X = s.fit(X, y).transform(X)
        self.steps[-1][1].fit(X, y)
        return self

    def _t(self, X):
        for _, s in self.steps[:-1]:
            X = s.transform(X)
        return X

    def transform(self, X): return self.steps[-1][1].transform(self._t(X))
    def predict(self, X): return self.steps[-1][1].predict(self._t(X))
    def predict_proba(self, X): return self.steps[-1][1].predict_proba(self._t(X))
    def decision_function(self, X):
        return self.steps[-1][1].decision_function(self._t(X))


def make_pipeline(*steps, **kw):
    return Pipeline([(type(s).__name__.lower(), s) for s in steps])


_mod('sklearn')
_mod('sklearn.base', BaseEstimator=BaseEstimator, clone=lambda e: type(e)(**e.get_params()),
     TransformerMixin=TransformerMixin, ClassifierMixin=ClassifierMixin)
_mod('sklearn.utils', resample=resample, check_random_state=check_random_state)
_mod('sklearn.utils.fixes', delayed=delayed)
_mod('sklearn.utils.extmath', softmax=softmax)
_mod('sklearn.utils.validation', check_is_fitted=check_is_fitted,
     check_random_state=check_random_state)
_mod('sklearn.metrics', accuracy_score=accuracy_score, f1_score=accuracy_score,
     make_scorer=lambda f, **kw: _Scorer(f))
_mod('sklearn.preprocessing', StandardScaler=StandardScaler,
     MinMaxScaler=MinMaxScaler, LabelEncoder=LabelEncoder)
_mod('sklearn.linear_model', RidgeClassifierCV=RidgeClassifierCV)
_mod('sklearn.pipeline', make_pipeline=make_pipeline, Pipeline=Pipeline)
_mod('sklearn.model_selection', cross_validate=None, GridSearchCV=None)


# ---------------------------------------------------------------- scipy
def periodogram(x, fs=1.0, window='boxcar', nfft=None, detrend='constant', **kw):
    x = np.asarray(x, dtype=float)
    n = x.shape[-1]
    if detrend:
        x = x - x.mean(axis=-1, keepdims=True)
    w = np.ones(n) if window == 'boxcar' else np.hanning(n + 1)[:-1] + .01
    p = np.abs(np.fft.rfft(x * w)) ** 2 / (w ** 2).sum()
    p[..., 1:(-1 if n % 2 == 0 else None)] *= 2
    return np.fft.rfftfreq(n), p


def fht(a, dln, mu, offset=0.0, bias=0.0):
    a = np.asarray(a, dtype=float)
    n = a.shape[-1]
    k = np.arange(n)
    M = np.cos(dln * np.outer(k + 1, k + offset)) * np.exp(bias * k / n) + mu
    return a @ M.T


_mod('scipy')
_mod('scipy.signal', periodogram=periodogram)
_mod('scipy.fft', fht=fht, fhtoffset=lambda dln, mu, initial=0.0, bias=0.0:
     initial + dln * .5 + mu * .25 + bias * .125)


def wilcoxon(a, b, **kw):
    key = frozenset([tuple(np.round(a, 9)), tuple(np.round(b, 9))])
    return 0., PVALUES.get(key, 1.)


_mod('scipy.stats', wilcoxon=wilcoxon, friedmanchisquare=lambda *a: (0., .01))


# ------------------------------------------------------- aeon, drawing
def load_classification(name, split=None, return_metadata=False, **kw):
    X, y = DATASETS[name, split.lower()]
    X = [np.array(x) for x in X] if isinstance(X, list) else np.array(X)
    return X, np.array(y)


_mod('aeon')
_mod('aeon.datasets', load_classification=load_classification)


class Pen:
    """Records every method called on it."""
    def __init__(self, name): self.name = name
    transAxes = 'axes'

    def __getattr__(self, method):
        if method.startswith('__'):
            raise AttributeError(method)

        def call(*args, **kw):
            DRAWN.append((self.name, method, args, kw))
            return Pen(method)
        return call


class Pyplot(types.ModuleType):
    def __getattr__(self, method):
        if method.startswith('__'):
            raise AttributeError(method)

        def call(*args, **kw):
            DRAWN.append(('plt', method, args, kw))
            return Pen('plt.' + method)
        return call

    def subplots(self, nrows=1, ncols=1, **kw):
        ax = np.empty((nrows, ncols), dtype=object)
        for i, j in itertools.product(range(nrows), range(ncols)):
            ax[i, j] = Pen('ax%d,%d' % (i, j))
        ax = ax.squeeze()
        return Pen('fig'), (ax if ax.ndim else ax.item())


_mod('matplotlib')
plt = Pyplot('matplotlib.pyplot')
sys.modules['matplotlib.pyplot'] = plt
sys.modules['matplotlib'].pyplot = plt
_mod('seaborn', set=lambda *a, **k: None, set_context=lambda *a, **k: None,
     boxplot=lambda *a, **k: DRAWN.append(('sns', 'boxplot', a, k)))


class Graph:
    def __init__(self, m):
        m = np.asarray(m)
        self.n = len(m)
        self.adj = (m != 0) | (m.T != 0)


def find_cliques(g):
    ok = lambda c: all(g.adj[a, b] for a, b in itertools.combinations(c, 2))
    found = []
    for k in range(g.n, 0, -1):
        for c in itertools.combinations(range(g.n), k):
            if ok(c) and not any(set(c) <= set(f) for f in found):
                found.append(c)
    return [list(c) for c in found]


_mod('networkx', Graph=Graph, find_cliques=find_cliques)
