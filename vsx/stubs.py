"""Stand-ins for the third party libraries around convst.

Each is the documented contract of the library with its numerical core left
arbitrary: random draws are inputs (rng.py), the ridge classifier returns
arbitrary coefficients, decision values and cross validation values, softmax an
arbitrary row of probabilities, p-values an arbitrary number in [0, 1]; what is
handed to them is recorded.  They run unchanged on the symbolic numpy and on
the real one."""
import types
import copy
import inspect
from . import rng


def M(name, **kw):
    m = types.ModuleType(name)
    m.__dict__.update(kw)
    m.__path__ = []
    return m


# ------------------------------------------------------------------- numba

def numba_mods(w):
    def njit(*args, **opts):
        def deco(f):
            par = bool(opts.get('parallel'))

            def wrapper(*a, **k):
                w.ctx.append(par)
                try:
                    return f(*a, **k)
                finally:
                    w.ctx.pop()
            wrapper.__name__ = getattr(f, '__name__', 'f')
            wrapper.__doc__ = getattr(f, '__doc__', None)
            wrapper.__wrapped__ = f
            wrapper.py_func = f
            wrapper.njit_options = dict(opts)
            return wrapper
        if len(args) == 1 and callable(args[0]) and not opts:
            return deco(args[0])
        return deco

    def prange(*a):
        if not w.ctx or not w.ctx[-1] or w.iters:
            return range(*a)
        return w.parallel_loop(range(*a))

    def overload(fn, **k):
        def deco(f):
            w.overloads.append((fn, f))
            return f
        return deco

    class _T(object):
        def __init__(self, ndim=None, type=None):
            self.ndim = ndim
            self.type = type
    ty = M('numba.types')
    for n in ('Integer', 'NoneType', 'Optional', 'Array', 'Boolean', 'Float', 'Omitted',
              'IntegerLiteral', 'UniTuple', 'Tuple', 'List', 'ListType'):
        setattr(ty, n, type(n, (_T,), {}))
    ty.IntegerLiteral = type('IntegerLiteral', (ty.Integer,), {})
    ty.none = ty.NoneType()
    ty.int64 = ty.Integer()
    ty.float64 = ty.Float()
    ty.boolean = ty.Boolean()

    class TypingError(Exception):
        pass
    ext = M('numba.extending', overload=overload, register_jitable=lambda f=None, **k: f if f else (lambda g: g))
    err = M('numba.core.errors', TypingError=TypingError)
    core = M('numba.core', errors=err, types=ty)
    typed = M('numba.typed', List=list)
    nb = M('numba', njit=njit, jit=njit, prange=prange, types=ty, extending=ext, core=core, typed=typed,
           set_num_threads=w.set_num_threads, get_num_threads=lambda: w.num_threads,
           int64=ty.int64, float64=ty.float64, boolean=ty.boolean, void=None,
           vectorize=njit, guvectorize=njit, literal_unroll=lambda x: x,
           config=types.SimpleNamespace(NUMBA_NUM_THREADS=w.cpus))
    return {'numba': nb, 'numba.types': ty, 'numba.extending': ext, 'numba.core': core,
            'numba.core.errors': err, 'numba.core.types': ty, 'numba.typed': typed}


# ------------------------------------------------------------------ joblib

def joblib_mods(w):
    class Parallel(object):
        def __init__(self, n_jobs=None, *a, **k):
            self.n_jobs = n_jobs
            self.kw = k
            w.rec('Parallel', n_jobs=n_jobs, kw=k)

        def __call__(self, it):
            tasks = list(it)
            res = [None] * len(tasks)
            order = list(range(len(tasks)))
            if w.schedule == 'reverse':
                order.reverse()
            for i in order:
                f, a, k = tasks[i][:3]
                res[i] = f(*a, **k)
            return res

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False

    def delayed(f, **kw):
        def g(*a, **k):
            return f, a, k
        return g
    jl = M('joblib', Parallel=Parallel, delayed=delayed, cpu_count=lambda: w.cpus,
           effective_n_jobs=lambda n=1: n,
           parallel_backend=lambda *a, **k: Parallel())
    return {'joblib': jl}, delayed, Parallel


# ----------------------------------------------------------------- sklearn

class NotFittedError(ValueError, AttributeError):
    pass


class BaseEstimator(object):
    @classmethod
    def _get_param_names(cls):
        init = cls.__init__
        if init is object.__init__:
            return []
        ps = [p for p in inspect.signature(init).parameters.values()
              if p.name != 'self' and p.kind != p.VAR_KEYWORD]
        return sorted(p.name for p in ps)

    def get_params(self, deep=True):
        out = {}
        for n in self._get_param_names():
            v = getattr(self, n)
            if deep and hasattr(v, 'get_params') and not isinstance(v, type):
                for k, x in v.get_params().items():
                    out[n + '__' + k] = x
            out[n] = v
        return out

    def set_params(self, **params):
        valid = self.get_params(deep=True)
        for k, v in params.items():
            k, d, sub = k.partition('__')
            if k not in valid:
                raise ValueError('Invalid parameter %r' % k)
            if d:
                valid[k].set_params(**{sub: v})
            else:
                setattr(self, k, v)
        return self

    def _more_tags(self):
        return {}

    def _validate_params(self):
        pass


class TransformerMixin(object):
    def fit_transform(self, X, y=None, **k):
        if y is None:
            return self.fit(X, **k).transform(X)
        return self.fit(X, y, **k).transform(X)


class ClassifierMixin(object):
    _estimator_type = 'classifier'

    def score(self, X, y, sample_weight=None):
        return rng.W.accuracy_score(y, self.predict(X))


class RegressorMixin(object):
    _estimator_type = 'regressor'


def clone(est, safe=True):
    if isinstance(est, (list, tuple, set, frozenset)):
        return type(est)([clone(e, safe=safe) for e in est])
    if not hasattr(est, 'get_params') or isinstance(est, type):
        if not safe:
            return copy.deepcopy(est)
        raise TypeError('Cannot clone object %r' % (est,))
    ps = est.get_params(deep=False)
    ps = {k: clone(v, safe=False) for k, v in ps.items()}
    new = type(est)(**ps)
    for k, v in new.get_params(deep=False).items():
        if v is not ps[k]:
            raise RuntimeError('Cannot clone object %r, as the constructor either does not '
                               'set or modifies parameter %s' % (est, k))
    return new


def check_is_fitted(est, attributes=None, msg=None, all_or_any=all):
    if attributes is not None:
        if not isinstance(attributes, (list, tuple)):
            attributes = [attributes]
        ok = all_or_any([hasattr(est, a) for a in attributes])
    else:
        ok = any(v.endswith('_') and not v.startswith('__') for v in vars(est))
    if not ok:
        raise NotFittedError('This %s instance is not fitted yet.' % type(est).__name__)


def is_label_str(a):
    return getattr(getattr(a, 'dtype', None), 'kind', 'i') in 'US' or \
        (getattr(getattr(a, 'dtype', None), 'kind', '') == 'O' and
         any(isinstance(x, str) for x in list(a.ravel())))


def sklearn_mods(w):
    np = w.np
    delayed, Parallel = w.joblib_delayed, w.Parallel

    def check_random_state(seed):
        if seed is None or seed is np.random:
            return w.np_global
        if isinstance(seed, rng.RandomState):
            return seed
        if isinstance(seed, (int, np.integer)) and not isinstance(seed, bool):
            return rng.RandomState(seed)
        raise ValueError('%r cannot be used to seed a numpy.random.RandomState instance' % (seed,))

    def resample(*arrays, replace=True, n_samples=None, random_state=None, stratify=None):
        r = check_random_state(random_state)
        if len(arrays) == 0:
            return None
        n = len(arrays[0])
        k = n if n_samples is None else int(n_samples)
        if k > n and not replace:
            raise ValueError('Cannot sample %d out of arrays with dim %d when replace is False' % (k, n))
        if stratify is not None and len(stratify) != n:
            raise ValueError('Found input variables with inconsistent numbers of samples')
        nm = r._st().name()
        if replace:
            idx = [w.h.draw_index('%s.r%d' % (nm, j), n) for j in range(k)]
        else:
            left = list(range(n))
            idx = [left.pop(w.h.draw_index('%s.r%d' % (nm, j), len(left))) for j in range(k)]
        ix = np.asarray(idx, dtype=int)
        w.rec('resample', idx=idx, replace=replace, n_samples=k, stratify=stratify)
        out = [a[ix] if hasattr(a, 'ndim') else [a[i] for i in idx] for a in arrays]
        return out[0] if len(out) == 1 else out

    def shuffle(*arrays, random_state=None, n_samples=None):
        return resample(*arrays, replace=False, n_samples=n_samples, random_state=random_state)

    class StandardScaler(TransformerMixin, BaseEstimator):
        def __init__(self, *, copy=True, with_mean=True, with_std=True):
            self.with_mean = with_mean
            self.with_std = with_std
            self.copy = copy

        def fit(self, X, y=None, sample_weight=None):
            X = np.asarray(X)
            w.rec('StandardScaler.fit', est=self, X=X)
            n, m = X.shape
            if n == 0 or m == 0:
                raise ValueError('Found array with 0 sample(s) or feature(s) while a minimum of 1 is required.')
            self.n_features_in_ = m
            self.mean_ = X.mean(axis=0) if self.with_mean or self.with_std else None
            if self.with_std:
                sc = []
                for j in range(m):
                    s = X[:, j].std()
                    z = s == 0
                    sc.append(1.0 if w.h.truth(z) else s)
                self.scale_ = np.asarray(sc, dtype=float)
            else:
                self.scale_ = None
            return self

        def transform(self, X, copy=None):
            check_is_fitted(self, 'n_features_in_')
            X = np.asarray(X)
            w.rec('StandardScaler.transform', est=self, X=X)
            if X.shape[1] != self.n_features_in_:
                raise ValueError('X has %d features, but StandardScaler is expecting %d features as input'
                                 % (X.shape[1], self.n_features_in_))
            if self.with_mean:
                X = X - self.mean_
            if self.with_std:
                X = X / self.scale_
            return X

    class MinMaxScaler(TransformerMixin, BaseEstimator):
        def __init__(self, feature_range=(0, 1), *, copy=True, clip=False):
            self.feature_range = feature_range
            self.copy = copy
            self.clip = clip

        def fit(self, X, y=None):
            X = np.asarray(X)
            w.rec('MinMaxScaler.fit', est=self, X=X)
            if X.shape[0] == 0 or X.shape[1] == 0:
                raise ValueError('Found array with 0 sample(s) or feature(s) while a minimum of 1 is required.')
            self.n_features_in_ = X.shape[1]
            self.data_min_ = X.min(axis=0)
            self.data_max_ = X.max(axis=0)
            d = self.data_max_ - self.data_min_
            self.data_range_ = np.asarray([1.0 if w.h.truth(v == 0) else v for v in list(d)], dtype=float)
            return self

        def transform(self, X):
            check_is_fitted(self, 'n_features_in_')
            X = np.asarray(X)
            if X.shape[1] != self.n_features_in_:
                raise ValueError('X has %d features, but MinMaxScaler is expecting %d features as input'
                                 % (X.shape[1], self.n_features_in_))
            a, b = self.feature_range
            return (X - self.data_min_) / self.data_range_ * (b - a) + a

    class RidgeClassifierCV(ClassifierMixin, BaseEstimator):
        def __init__(self, alphas=(0.1, 1.0, 10.0), *, fit_intercept=True, scoring=None, cv=None,
                     class_weight=None, store_cv_values=False):
            self.alphas = alphas
            self.fit_intercept = fit_intercept
            self.scoring = scoring
            self.cv = cv
            self.class_weight = class_weight
            self.store_cv_values = store_cv_values

        def fit(self, X, y, sample_weight=None):
            X = np.asarray(X)
            y = np.asarray(y)
            if len(X) != len(y):
                raise ValueError('Found input variables with inconsistent numbers of samples: %r'
                                 % [len(X), len(y)])
            k = w.count('ridge')
            self._vid = k
            w.rec('ridge.fit', est=self, X=X, y=y)
            self.classes_ = np.unique(y)
            K = len(self.classes_)
            if K < 2:
                raise ValueError('This solver needs samples of at least 2 classes in the data')
            o = 1 if K == 2 else K
            self.coef_ = w.fresh_array('ridge%d.coef' % k, (o, X.shape[1]))
            self.intercept_ = w.fresh_array('ridge%d.intercept' % k, (o,))
            al = [float(a) for a in list(np.asarray(self.alphas).ravel())]
            i = w.h.draw_index('ridge%d.alpha' % k, len(al))
            self._alpha_idx = i
            self.alpha_ = w.real_np.float64(al[i])
            if self.store_cv_values:
                self.cv_values_ = w.fresh_array('ridge%d.cv' % k, (X.shape[0], o, len(al)))
            self.n_features_in_ = X.shape[1]
            return self

        def decision_function(self, X):
            check_is_fitted(self, 'coef_')
            X = np.asarray(X)
            if X.shape[1] != self.n_features_in_:
                raise ValueError('X has %d features, but RidgeClassifierCV is expecting %d features as input'
                                 % (X.shape[1], self.n_features_in_))
            o = self.coef_.shape[0]
            rows = []
            for r in range(X.shape[0]):
                rows.append(w.memo_values(('dec', self._vid), X[r], o, 'ridge%d.dec' % self._vid))
            if o == 1:
                out = np.asarray([r[0] for r in rows], dtype=float)
            else:
                out = np.asarray(rows, dtype=float).reshape(len(rows), o)
            w.rec('ridge.decision', est=self, X=X, out=out)
            return out

        def predict(self, X):
            d = self.decision_function(X)
            if d.ndim == 1:
                ix = [1 if w.h.truth(v > 0) else 0 for v in list(d)]
            else:
                ix = [int(i) for i in list(d.argmax(axis=1))]
            return self.classes_[np.asarray(ix, dtype=int)]

    def softmax(X, copy=True):
        X = np.asarray(X)
        if X.ndim != 2:
            raise IndexError('softmax needs a 2D input')
        rows = []
        for r in range(X.shape[0]):
            rows.append(w.simplex(('softmax',), X[r], X.shape[1]))
        out = np.asarray(rows, dtype=float).reshape(X.shape)
        w.rec('softmax', X=X, out=out)
        return out

    def _labels(a):
        a = np.asarray(a)
        if a.ndim == 2 and a.shape[1] == 1:
            a = a.ravel()
        if a.ndim != 1:
            raise ValueError('multilabel or multioutput targets are not supported')
        return a

    def accuracy_score(y_true, y_pred, *, normalize=True, sample_weight=None):
        a, b = _labels(y_true), _labels(y_pred)
        if a.shape[0] != b.shape[0]:
            raise ValueError('Found input variables with inconsistent numbers of samples')
        w.rec('accuracy_score', y_true=a, y_pred=b)
        if is_label_str(a) != is_label_str(b):
            raise ValueError('Labels in y_true and y_pred should be of the same type.')
        n = a.shape[0]
        s = 0
        for x, y in zip(list(a), list(b)):
            s = s + w.h.to_int(x == y)
        return s / n if normalize else s
    w.accuracy_score = accuracy_score

    def f1_score(y_true, y_pred, **k):
        return accuracy_score(y_true, y_pred)

    class _Scorer(object):
        def __init__(self, f, kw):
            self._score_func = f
            self.kw = kw

        def __call__(self, est, X, y):
            return self._score_func(y, est.predict(X))

    def make_scorer(f, **k):
        return _Scorer(f, k)

    class Pipeline(BaseEstimator):
        def __init__(self, steps, *, memory=None, verbose=False):
            self.steps = steps
            self.memory = memory
            self.verbose = verbose

        @property
        def named_steps(self):
            return dict(self.steps)

        def __len__(self):
            return len(self.steps)

        def __getitem__(self, k):
            if isinstance(k, slice):
                return Pipeline(self.steps[k])
            if isinstance(k, str):
                return dict(self.steps)[k]
            return self.steps[k][1]

        @property
        def classes_(self):
            return self.steps[-1][1].classes_

        def _fit(self, X, y):
            for n, t in self.steps[:-1]:
                if t is None or t == 'passthrough':
                    continue
                if hasattr(t, 'fit_transform'):
                    X = t.fit_transform(X, y)
                else:
                    X = t.fit(X, y).transform(X)
            return X

        def fit(self, X, y=None, **k):
            Xt = self._fit(X, y)
            f = self.steps[-1][1]
            if f is not None and f != 'passthrough':
                f.fit(Xt, y)
            return self

        def fit_transform(self, X, y=None, **k):
            Xt = self._fit(X, y)
            f = self.steps[-1][1]
            if hasattr(f, 'fit_transform'):
                return f.fit_transform(Xt, y)
            return f.fit(Xt, y).transform(Xt)

        def _t(self, X):
            for n, t in self.steps[:-1]:
                if t is None or t == 'passthrough':
                    continue
                X = t.transform(X)
            return X

        def transform(self, X):
            return self.steps[-1][1].transform(self._t(X))

        def predict(self, X, **k):
            return self.steps[-1][1].predict(self._t(X))

        def predict_proba(self, X, **k):
            return self.steps[-1][1].predict_proba(self._t(X))

        def decision_function(self, X):
            return self.steps[-1][1].decision_function(self._t(X))

        def score(self, X, y=None):
            return self.steps[-1][1].score(self._t(X), y)

    def make_pipeline(*steps, memory=None, verbose=False):
        names = [type(s).__name__.lower() for s in steps]
        cnt = {}
        for n in names:
            cnt[n] = cnt.get(n, 0) + 1
        seen = {}
        out = []
        for n, s in zip(names, steps):
            if cnt[n] > 1:
                seen[n] = seen.get(n, 0) + 1
                n = '%s-%d' % (n, seen[n])
            out.append((n, s))
        return Pipeline(out)

    class LabelEncoder(TransformerMixin, BaseEstimator):
        def fit(self, y):
            self.classes_ = np.unique(np.asarray(y))
            return self

        def transform(self, y):
            out = []
            cl = list(self.classes_)
            for v in list(np.asarray(y)):
                for i, c in enumerate(cl):
                    if w.h.truth(c == v):
                        out.append(i)
                        break
                else:
                    raise ValueError('y contains previously unseen labels: %r' % (v,))
            return np.asarray(out, dtype=int)

        def fit_transform(self, y):
            return self.fit(y).transform(y)

        def inverse_transform(self, y):
            return self.classes_[np.asarray(y)]

    class GridSearchCV(BaseEstimator):
        def __init__(self, estimator, param_grid, *, scoring=None, n_jobs=None, refit=True, cv=None,
                     verbose=0, pre_dispatch='2*n_jobs', error_score=float('nan'), return_train_score=False):
            self.estimator = estimator
            self.param_grid = param_grid
            self.scoring = scoring
            self.n_jobs = n_jobs
            self.refit = refit
            self.cv = cv

        def fit(self, X, y=None, groups=None):
            folds = [(list(a), list(b)) for a, b in self.cv.split(X, y)]
            w.rec('GridSearchCV.fit', est=self, X=X, y=y, folds=folds)
            self.cv_results_ = {'params': [self.param_grid]}
            return self

    def unavailable(*a, **k):
        w.h.unsupported('sklearn function outside the stubs')

    def column_or_1d(y, **k):
        y = np.asarray(y)
        return y.ravel()

    def check_array(a, **k):
        return np.asarray(a)

    def check_X_y(X, y, **k):
        return np.asarray(X), np.asarray(y)

    val = M('sklearn.utils.validation', check_is_fitted=check_is_fitted,
            check_random_state=check_random_state, check_array=check_array, check_X_y=check_X_y,
            column_or_1d=column_or_1d, NotFittedError=NotFittedError)
    fixes = M('sklearn.utils.fixes', delayed=delayed)
    par = M('sklearn.utils.parallel', delayed=delayed, Parallel=Parallel)
    ext = M('sklearn.utils.extmath', softmax=softmax)
    mc = M('sklearn.utils.multiclass', unique_labels=lambda *a: np.unique(np.concatenate([np.asarray(x) for x in a])),
           check_classification_targets=lambda y: None)
    utils = M('sklearn.utils', resample=resample, shuffle=shuffle, check_random_state=check_random_state,
              validation=val, fixes=fixes, extmath=ext, parallel=par, multiclass=mc,
              check_array=check_array, check_X_y=check_X_y, column_or_1d=column_or_1d)
    base = M('sklearn.base', BaseEstimator=BaseEstimator, TransformerMixin=TransformerMixin,
             ClassifierMixin=ClassifierMixin, RegressorMixin=RegressorMixin, clone=clone)
    exc = M('sklearn.exceptions', NotFittedError=NotFittedError)
    lm = M('sklearn.linear_model', RidgeClassifierCV=RidgeClassifierCV)
    me = M('sklearn.metrics', accuracy_score=accuracy_score, f1_score=f1_score, make_scorer=make_scorer)
    pp = M('sklearn.preprocessing', StandardScaler=StandardScaler, MinMaxScaler=MinMaxScaler,
           LabelEncoder=LabelEncoder)
    pl = M('sklearn.pipeline', Pipeline=Pipeline, make_pipeline=make_pipeline)
    ms = M('sklearn.model_selection', GridSearchCV=GridSearchCV, cross_validate=unavailable,
           cross_val_score=unavailable, StratifiedKFold=unavailable)
    sk = M('sklearn', base=base, utils=utils, exceptions=exc, linear_model=lm, metrics=me,
           preprocessing=pp, pipeline=pl, model_selection=ms, clone=clone, __version__='1.2.2')
    out = {'sklearn': sk}
    for n, m in (('base', base), ('utils', utils), ('exceptions', exc), ('linear_model', lm), ('metrics', me),
                 ('preprocessing', pp), ('pipeline', pl), ('model_selection', ms), ('utils.validation', val),
                 ('utils.fixes', fixes), ('utils.extmath', ext), ('utils.parallel', par),
                 ('utils.multiclass', mc)):
        out['sklearn.' + n] = m
    return out


# ------------------------------------------------------- scipy, aeon, plots

def other_mods(w):
    np = w.np

    def periodogram(x, fs=1.0, window='boxcar', nfft=None, detrend='constant', return_onesided=True,
                    scaling='density', axis=-1):
        x = np.asarray(x)
        if x.ndim != 1:
            rows = [periodogram(x[i], fs, window, nfft, detrend, return_onesided, scaling)
                    for i in range(x.shape[0])]
            return rows[0][0], np.stack([r[1] for r in rows])
        n = x.shape[0]
        m = n // 2 + 1
        out = [w.uf('pgram_%s_%s_%s_%d_%d' % (window, detrend, scaling, n, k), list(x)) for k in range(m)]
        return np.arange(m) / n, np.asarray(out, dtype=float)

    def fht(a, dln, mu, offset=0.0, bias=0.0):
        a = np.asarray(a)
        if a.ndim > 1:
            return np.stack([fht(a[i], dln, mu, offset, bias) for i in range(a.shape[0])])
        n = a.shape[0]
        return np.asarray([w.uf('fht_%s_%s_%s_%s_%d_%d' % (dln, mu, offset, bias, n, k), list(a))
                           for k in range(n)], dtype=float)

    def fhtoffset(dln, mu, initial=0.0, bias=0.0):
        return round(0.125 * (1 + dln) + 0.37 * mu + 0.5 * initial + 0.21 * bias, 6)

    def wilcoxon(x, y=None, zero_method='wilcox', correction=False, alternative='two-sided', **k):
        x = list(np.asarray(x))
        y = list(np.asarray(y)) if y is not None else []
        if len(x) != len(y):
            raise ValueError('The samples x and y must have the same length.')
        p = w.pin_p
        if p is None:
            p = w.memo_values(('wilcoxon', zero_method, alternative), np.asarray(x + y), 1, 'wilcoxon', 0, 1)[0]
        w.rec('wilcoxon', x=x, y=y, p=p, zero_method=zero_method)
        return 0.0, p

    def friedmanchisquare(*a):
        if len(a) < 3:
            raise ValueError('At least 3 sets of samples must be given for Friedman test, got %d.' % len(a))
        xs = []
        for v in a:
            xs += list(np.asarray(v))
        p = w.pin_p
        if p is None:
            p = w.memo_values(('friedman',), np.asarray(xs), 1, 'friedman', 0, 1)[0]
        return 0.0, p

    def load_classification(name, split=None, extract_path=None, return_metadata=True, **k):
        X, y = w.datasets[(name, split.lower() if isinstance(split, str) else split)]
        X = X() if callable(X) else X
        y = y() if callable(y) else y
        w.rec('load', name=name, split=split)
        return (X, y, {}) if return_metadata else (X, y)

    class Graph(object):
        def __init__(self, data=None):
            a = np.asarray(data)
            self.n = a.shape[0]
            self.adj = {i: set() for i in range(self.n)}
            for i in range(self.n):
                for j in range(self.n):
                    if i != j and w.h.truth(a[i, j] != 0):
                        self.adj[i].add(j)
                        self.adj[j].add(i)

    def find_cliques(g):
        out = []

        def bk(r, p, x):
            if not p and not x:
                out.append(sorted(r))
                return
            for v in sorted(p):
                bk(r | {v}, p & g.adj[v], x & g.adj[v])
                p = p - {v}
                x = x | {v}
        if g.n:
            bk(set(), set(range(g.n)), set())
        return iter(out)
    sig = M('scipy.signal', periodogram=periodogram)
    fft = M('scipy.fft', fht=fht, fhtoffset=fhtoffset)
    st = M('scipy.stats', wilcoxon=wilcoxon, friedmanchisquare=friedmanchisquare)
    sp = M('scipy', signal=sig, fft=fft, stats=st)
    ds = M('aeon.datasets', load_classification=load_classification)
    ae = M('aeon', datasets=ds)
    nx = M('networkx', Graph=Graph, find_cliques=find_cliques, from_numpy_array=Graph)
    out = {'scipy': sp, 'scipy.signal': sig, 'scipy.fft': fft, 'scipy.stats': st,
           'aeon': ae, 'aeon.datasets': ds, 'networkx': nx}
    out.update(plot_mods(w))
    return out


class Rec(object):
    """records every call made on it"""

    def __init__(self, w, path):
        self.__dict__['_w'] = w
        self.__dict__['_path'] = path
        self.__dict__['_kids'] = {}

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        if n not in self._kids:
            self._kids[n] = Rec(self._w, self._path + '.' + n)
        return self._kids[n]

    def __setattr__(self, n, v):
        self._kids[n] = v

    def __call__(self, *a, **k):
        self._w.plots.append((self._path, a, k))
        return Rec(self._w, self._path + '()')

    def __iter__(self):
        raise TypeError('not iterable')


def plot_mods(w):
    rn = w.real_np

    class Plt(Rec):
        pass
    plt = Plt(w, 'plt')
    cnt = [0]

    def subplots(nrows=1, ncols=1, *, sharex=False, sharey=False, squeeze=True, **k):
        w.plots.append(('plt.subplots', (nrows, ncols), k))
        cnt[0] += 1
        ax = rn.empty((nrows, ncols), dtype=object)
        for i in range(nrows):
            for j in range(ncols):
                ax[i, j] = Rec(w, 'fig%d.ax[%d,%d]' % (cnt[0], i, j))
        if squeeze:
            if ax.size == 1:
                return Rec(w, 'fig%d' % cnt[0]), ax[0, 0]
            ax = ax.squeeze()
        return Rec(w, 'fig%d' % cnt[0]), ax
    plt._kids['subplots'] = subplots
    m = M('matplotlib.pyplot')
    m.__getattr__ = lambda n: getattr(plt, n) if not n.startswith('__') else _ae(n)
    mpl = M('matplotlib', pyplot=m)
    sns = Rec(w, 'sns')
    s = M('seaborn')
    s.__getattr__ = lambda n: getattr(sns, n) if not n.startswith('__') else _ae(n)
    return {'matplotlib': mpl, 'matplotlib.pyplot': m, 'seaborn': s}


def _ae(n):
    raise AttributeError(n)
