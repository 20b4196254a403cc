"""C19: cross validation, splitter and grid search over archive data sets."""
from harness import fitlib
from harness.util import semi_series

BOUNDS = 'train and test parts of 2-3 series each (2 classes), 1-2 channels, 2-4 points, arrays and lists of mixed ' \
         'lengths; 1-3 folds, 1-2 scorers, pipelines that do and do not overwrite the arrays they are given; symbolic ' \
         'contents and predictions; every shuffle outcome; the index splitter for samples in any order, ties included; ' \
         'also 9-12 series of 2-3 channels and 4-10 points, 4 and 6 folds, one value per channel symbolic and one shuffle outcome per fold'
OUTSIDE = 'more folds and larger data sets; the index splitter and the grid search support arrays (equal lengths) only; ' \
          'the fit of scikit-learn\'s GridSearchCV itself'
ASSUME = ['GridSearchCV iterates over cv.split(X, y) (scikit-learn)']
BUDGET = {'quick': 120, 'thorough': 900}


def configs(tier):
    out = []
    for lst in (False, True):
        L = [2, 3, 4, 2, 3] if lst else [3] * 5
        for nf in (1, 2):
            for sc in (None, ['acc'], ['one', 'two']):
                out.append({'m': 'cv', 'ytr': [0, 1], 'yte': [1, 0], 'lens': L[:4], 'nch': 1, 'lst': lst, 'nf': nf, 'sc': sc})
        out.append({'m': 'cv', 'ytr': [0, 1, 1], 'yte': [1, 0], 'lens': L, 'nch': 2, 'lst': lst, 'nf': 2, 'sc': ['one', 'two']})
        out.append({'m': 'cv', 'ytr': [0, 1], 'yte': [1, 0], 'lens': L[:4], 'nch': 1, 'lst': lst, 'nf': 3, 'sc': ['one']})
        out.append({'m': 'mutating', 'ytr': [0, 1], 'yte': [1, 0], 'lens': L[:4], 'nch': 1, 'lst': lst, 'nf': 2, 'sc': ['one']})
    # larger: most of the contents and the shuffles fixed, more folds than anywhere else
    for sc, (nf, a, b) in enumerate(((4, [0, 1, 1, 0, 1], [1, 0, 0, 1]), (6, [1, 0, 1, 1, 0, 0, 1], [0, 1, 0, 1, 1]))):
        n = len(a) + len(b)
        for lst in (False, True):
            L = [4 + (5 * i + i * i) % 7 for i in range(n)] if lst else [6] * n
            out.append({'m': 'mutating' if sc else 'cv', 'ytr': a, 'yte': b, 'lens': L, 'nch': 3, 'lst': lst, 'nf': nf,
                        'sc': ['one', 'two'] if lst else None, 'script': sc})
        for m in ('split', 'grid'):
            out.append({'m': m, 'ytr': a, 'yte': b, 'lens': [5] * n, 'nch': 3 - sc, 'lst': False, 'nf': nf, 'fixed': True,
                        'script': sc})
    for nf in (1, 2):
        out.append({'m': 'split', 'ytr': [0, 1], 'yte': [1, 0], 'lens': [2] * 4, 'nch': 2, 'lst': False, 'nf': nf})
        out.append({'m': 'split', 'ytr': [0, 1, 1], 'yte': [1, 0], 'lens': [1] * 5, 'nch': 1, 'lst': False, 'nf': nf, 'fixed': True})
        out.append({'m': 'grid', 'ytr': [0, 1], 'yte': [1, 0], 'lens': [2] * 4, 'nch': 2, 'lst': False, 'nf': nf})
    if tier == 'thorough':
        out.append({'m': 'split', 'ytr': [0, 1, 1], 'yte': [1, 0], 'lens': [2] * 5, 'nch': 2, 'lst': False, 'nf': 2})
        out.append({'m': 'split', 'ytr': [0, 1], 'yte': [1, 0], 'lens': [2] * 4, 'nch': 2, 'lst': False, 'nf': 3})
        out.append({'m': 'grid', 'ytr': [0, 1, 0], 'yte': [1, 0], 'lens': [2] * 5, 'nch': 2, 'lst': False, 'nf': 2})
        out.append({'m': 'cv', 'ytr': [0, 1, 1], 'yte': [1, 0, 0], 'lens': [2, 3, 4, 2, 3, 2], 'nch': 2, 'lst': True, 'nf': 3, 'sc': ['one']})
    return out


def data(h, c):
    np = h.np
    n, k = len(c['lens']), len(c['ytr'])
    if c.get('script') is not None:
        fitlib.script(h, c['script'])
        S = [np.asarray(semi_series(h, 'x%d' % i, c['lens'][i], c['nch'])) for i in range(n)]
    else:
        S = [h.reals('x%d' % i, (c['nch'], c['lens'][i])) for i in range(n)]
    if c['lst']:
        mk = lambda s: [a.copy() for a in s]
    else:
        mk = lambda s: np.stack([a.copy() for a in s])
    Y = list(c['ytr']) + list(c['yte'])
    h.w.datasets[('D', 'train')] = (lambda: mk(S[:k]), lambda: np.asarray(Y[:k]))
    h.w.datasets[('D', 'test')] = (lambda: mk(S[k:]), lambda: np.asarray(Y[k:]))
    return (lambda: (mk(S[:k]), np.asarray(Y[:k]), mk(S[k:]), np.asarray(Y[k:]))), S, Y, mk


class Pipe(object):
    """a classifier whose predictions are unknown"""

    def __init__(self, h, mutating):
        self.h = h
        self.mutating = mutating
        self.log = []

    def _x(self, X):
        return [h_copy(a) for a in X]

    def fit(self, X, y):
        self.log.append({'X': self._x(X), 'y': [v for v in y], 'pred': []})
        self.spoil(X, y)
        return self

    def predict(self, X):
        h = self.h
        n = len(self.log) - 1
        p = [h.int('pred%d.%d.%d' % (n, len(self.log[-1]['pred']), j), 0, 1) for j in range(len(X))]
        self.log[-1]['pred'].append({'X': self._x(X), 'out': p})
        self.spoil(X, None)
        return h.np.asarray(p, dtype=int)

    def spoil(self, X, y):
        if not self.mutating:
            return
        if isinstance(X, list):
            X.reverse()
        else:
            X[...] = 0.0
        if y is not None:
            y[...] = 0


def h_copy(a):
    return a.copy()


def same_series(h, a, b):
    if tuple(a.shape) != tuple(b.shape):
        return False
    return h.and_(*[h.eq(p, q) for p, q in zip(h.elems(a), h.elems(b))])


def ck_x(h, name, got, want):
    h.check(name + ': number of series', len(got) == len(want))
    for i, (a, b) in enumerate(zip(got, want)):
        h.check('%s: series %d' % (name, i), same_series(h, a, b))


def expected(h, fresh, f, i):
    Xa, ya, Xb, yb = fresh()
    if i == 0:
        return Xa, ya, Xb, yb
    return f(Xa, ya, Xb, yb, i)


def run(h, c):
    np = h.np
    E = h.load('convst.utils.experiments_utils')
    if not hasattr(E, '_resample') and c['nf'] > 1:
        h.unsupported('no _resample')
    fresh, S, Y, mk = data(h, c)
    if c['m'] in ('cv', 'mutating'):
        p = Pipe(h, c['m'] == 'mutating')
        calls = {}
        kw = {}
        if c['sc'] is not None:
            def scorer(name):
                def f(y_true, y_pred):
                    k = len(calls.setdefault(name, []))
                    v = h.real('score_%s%d' % (name, k), 0, 1)
                    calls[name].append((list(y_true), list(y_pred), v))
                    return v
                return f
            kw['scorers'] = {n: scorer(n) for n in c['sc']}
        df = E.cross_validate_UCR_UEA(c['nf'], 'D', **kw).score(p)
        h.check('one fit per fold', len(p.log) == c['nf'])
        h.check('one row per fold', len(df) == c['nf'])
        for i in range(c['nf']):
            Xa, ya, Xb, yb = expected(h, fresh, E._resample if i else None, i)
            w = 'fold %d: ' % i
            ck_x(h, w + 'training data', p.log[i]['X'], Xa)
            h.ck_list(w + 'training labels', p.log[i]['y'], ya)
            h.check(w + 'one prediction', len(p.log[i]['pred']) == 1)
            q = p.log[i]['pred'][0]
            ck_x(h, w + 'test data', q['X'], Xb)
            if c['sc'] is None:
                s = h.sum([h.to_int(h.eq(a, b)) for a, b in zip(q['out'], yb)])
                h.check(w + 'accuracy', h.eq(df.loc[i, 'accuracy'] * len(yb), s))
            else:
                for n in c['sc']:
                    h.check(w + n + ' is computed once per fold', len(calls[n]) == c['nf'])
                    yt, yp, v = calls[n][i]
                    h.ck_list(w + n + ': labels', yt, yb)
                    h.ck_list(w + n + ': predictions', yp, q['out'])
                    h.check(w + n + ': reported', h.eq(df.loc[i, n], v))
            h.check(w + 'time', 'time' in list(df.columns))
    else:
        order = list(range(len(S)))
        if c['m'] == 'split':
            # the samples in any order
            if c.get('fixed'):
                order.reverse()
            else:
                left, order = order, []
                while left:
                    order.append(left.pop(h.choose('order%d' % len(order), len(left))))
            X = np.stack([S[i].copy() for i in order])
            y = np.asarray([Y[i] for i in order])
            cv = E._sklearn_cv(c['nf'], 'D')
            h.check('number of folds', cv.get_n_splits(X, y) == c['nf'])
            folds = [(list(a), list(b)) for a, b in cv.split(X, y)]
        else:
            E.grid_search_UCR_UEA(c['nf'], 'D', 1).score(lambda: None, {'a': [1]})
            g = h.w.recs('GridSearchCV.fit')
            h.check('one search', len(g) == 1)
            X, y, folds = g[0]['X'], g[0]['y'], g[0]['folds']
            ck_x(h, 'data', [a for a in X], S)
            h.ck_list('labels', list(y), Y)
        h.check('folds', len(folds) == c['nf'])
        for i, (a, b) in enumerate(folds):
            Xa, ya, Xb, yb = expected(h, fresh, E._resample if i else None, i)
            w = 'fold %d: ' % i
            for j in a + b:
                h.check(w + 'index in range', h.and_(h.le(0, j, exact=True), h.lt(j, len(S), exact=True)))
            ck_x(h, w + 'training samples', [X[j] for j in a], Xa)
            ck_x(h, w + 'test samples', [X[j] for j in b], Xb)
    h.reach(c['m'])
