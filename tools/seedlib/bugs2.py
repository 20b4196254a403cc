bug('v01_group_by_span', 'C01',
    'two shapelets (l, d) and (d, l): the same product of length and dilation',
    'shapelets are grouped by length * dilation: shapelets of another length and dilation are applied to the windows of the first',
    [('transformers/_univariate_variable_length.py', '''        ix_shapelets = where((lengths == _length) & (dilations == _dilation))[0]
''', '''        ix_shapelets = where(lengths * dilations == _length * _dilation)[0]
''')], ORACLE + '''
from convst.transformers import R_DST
rng = np.random.RandomState(1)
X = [rng.rand(1, n) for n in (12, 15, 13)]
m = R_DST(transform_type='univariate_variable')
m.fit(X, np.array([0, 1, 0]))
V = np.zeros((3, 4)); V[0, :2] = rng.rand(2); V[1, :4] = rng.rand(4); V[2, :3] = rng.rand(3)
L, D = np.array([2, 4, 3]), np.array([2, 1, 2])
m.shapelets_ = (V, L, D, np.array([.3, .8, .5]), np.array([False, False, False]))
try:
    F = m.transform(X)
except Exception as e:
    need(False, 'transform raised %r' % e)
for i, x in enumerate(X):
    for k in range(3):
        c = dist(x[0], V[k, :L[k]], L[k], D[k], False, False)
        w = [c.min(), c.argmin(), (c <= m.shapelets_[3][k]).sum()]
        need(np.allclose(F[i, 3 * k:3 * k + 3], w), 'series %d shapelet %d: %s instead of %s' % (i, k, F[i, 3 * k:3 * k + 3], w))
''')

bug('v02_channels_of_first', 'C02',
    'two normalised shapelets of the same length and dilation on different channels',
    'only the channels of the first normalised shapelet of a group are normalised before the distances are computed',
    [('transformers/_multivariate_variable_length.py', '''                for i_stride in range(strides.shape[0]):
''', '''                for i_stride in channel_ids[a2[_idx_norm[0]]:a2[_idx_norm[0]+1]]:
''')], ORACLE + '''
from convst.transformers import R_DST
rng = np.random.RandomState(2)
X = [rng.rand(2, n) * 5 for n in (9, 11, 10)]
m = R_DST(transform_type='multivariate_variable')
m.fit(X, np.array([0, 1, 0]))
v = [zn(rng.rand(3)), zn(rng.rand(3))]
m.shapelets_ = (np.concatenate(v), np.array([3, 3]), np.array([1, 1]), np.array([1., 1.]), np.array([True, True]),
                np.array([1, 1]), np.array([1, 0]))
F = m.transform(X)
for i, x in enumerate(X):
    for k, ch in enumerate((1, 0)):
        c = dist(x[ch], v[k], 3, 1, True, False)
        need(abs(F[i, 3 * k] - c.min()) < 1e-9, 'series %d shapelet %d: minimum %s instead of %s' % (i, k, F[i, 3 * k], c.min()))
''')

bug('v05_single_precision', 'C05',
    'series values that single precision cannot hold (large level, small variations)',
    'the values of the shapelets are stored in single precision: they are not those of the series any more',
    [('transformers/_univariate_same_length.py', '''    values = zeros((n_shapelets, max(shapelet_sizes)))
''', '''    values = zeros((n_shapelets, max(shapelet_sizes)), dtype='float32')
''')], '''
from convst.transformers import R_DST
rng = np.random.RandomState(0)
X = 1e6 + rng.rand(6, 1, 20)
y = np.array([0, 1, 0, 1, 0, 1])
m = R_DST(n_shapelets=30, shapelet_lengths=[4], proba_norm=0., random_state=0).fit(X, y)
V, L, D = m.shapelets_[:3]
for v, l, d in zip(V, L, D):
    ok = any((np.asarray(v[:l], dtype=float) == x[0, s:s + (l - 1) * d + 1:d]).all() for x in X for s in range(20 - (l - 1) * d))
    need(ok, 'the values %s occur in no training series' % v[:l])
''')

bug('v06_partner_cut', 'C06',
    'variable-length data where the series that supplies the threshold is longer than the one the shapelet comes from',
    'the threshold only looks at the first points of the other series, as many as the source series has',
    [('transformers/_univariate_variable_length.py', 'X[id_test, 0, :X_len[id_test]]', 'X[id_test, 0, :min(X_len[id_test], X_len[id_sample])]')],
    ORACLE + '''
from convst.transformers import R_DST
rng = np.random.RandomState(0)
a, b = rng.rand(1, 8), np.concatenate([rng.rand(1, 8) + 5, rng.rand(1, 12) * 100], axis=1)
X, y = [a, b], np.array([0, 0])
m = R_DST(n_shapelets=20, shapelet_lengths=[3], proba_norm=0., percentiles=[90, 95], alpha=1., random_state=0).fit(X, y)
V, L, D, T, N = m.shapelets_
for v, l, d, t in zip(V, L, D, T):
    src = [i for i, x in enumerate(X) if (np.abs(cands(x[0], l, d, False) - v[:l]).sum(axis=1) == 0).any()]
    other = 1 - src[0]
    lo, hi = np.percentile(dist(X[other][0], v[:l], l, d, False, False), [90, 95])
    need(lo - 1e-9 <= t <= hi + 1e-9, 'threshold %s outside [%s, %s]' % (t, lo, hi))
''')

bug('v08_small_lengths', 'C08',
    'a variable-length batch with a series of more than 127 points',
    'the lengths of the series are kept in 8 bits and overflow',
    [('transformers/rdst.py', 'lengths = np.zeros(len(X),dtype=np.int64)', 'lengths = np.zeros(len(X),dtype=np.int8)')], '''
from convst.transformers import R_DST
rng = np.random.RandomState(0)
X = [rng.rand(1, n) for n in (20, 25, 22)]
m = R_DST(n_shapelets=5, shapelet_lengths=[5], random_state=0).fit(X, np.array([0, 1, 0]))
long = rng.rand(1, 140)
try:
    F = m.transform([X[0], long])
    G = m.transform([long])
except Exception as e:
    need(False, 'a series of 140 points: %r' % e)
need(np.allclose(F[0], m.transform(X[:1])[0]), 'features change with the batch')
m.normalize_output = False
E = R_DST(transform_type='univariate')
E.fit(rng.rand(3, 1, 20), np.array([0, 1, 0])); E.shapelets_ = m.shapelets_
need(np.allclose(G[0], E.transform(long.reshape(1, 1, -1))[0]), 'other features than the equal-length transform')
''')

bug('v10_generator_kept', 'C10',
    'an estimator with an integer random_state that is fitted twice',
    'the random generator made from random_state is kept: the second fit draws another seed',
    [('transformers/rdst.py', '''        rng = check_random_state(self.random_state)
''', '''        if not hasattr(self, 'rng_'):
            self.rng_ = check_random_state(self.random_state)
        rng = self.rng_
''')], '''
from convst.transformers import R_DST
rng = np.random.RandomState(0)
X, y = rng.rand(6, 1, 30), np.array([0, 1] * 3)
m = R_DST(n_shapelets=10, random_state=3)
a = [np.copy(s) for s in m.fit(X, y).shapelets_]
b = m.fit(X, y).shapelets_
need(all(p.shape == q.shape and (p == q).all() for p, q in zip(a, b)), 'a second fit gives other shapelets')
''')

bug('v14_min_len_of_raw', 'C14',
    'an ensemble of three or more members with min_len given',
    'min_len only reaches the members up to the second one',
    [('classifiers/rdst_ensemble.py', 'min_len=self.min_len,', 'min_len=self.min_len if i < 2 else None,')], '''
from convst.classifiers import R_DST_Ensemble
from convst.transformers._input_transformers import Raw
rng = np.random.RandomState(0)
X, y = [rng.rand(1, n) for n in (20, 24, 22, 26, 21, 20)], np.array([0, 1] * 3)
m = R_DST_Ensemble(n_shapelets_per_estimator=5, min_len=15, input_transformers=[Raw(), Raw(), Raw()], random_state=0).fit(X, y)
need([p['r_dst'].min_len for p in m.models] == [15] * 3, 'min_len of the members: %s' % [p['r_dst'].min_len for p in m.models])
''')

bug('v15_not_with_phase', 'C15',
    'normalize_output together with phase invariance',
    'normalize_output is dropped when phase invariance is on',
    [('transformers/rdst.py', 'self.normalize_output = check_is_boolean(normalize_output)', 'self.normalize_output = check_is_boolean(normalize_output) and not phase_invariance')], '''
from convst.transformers import R_DST
rng = np.random.RandomState(0)
X, y = rng.rand(6, 1, 30), np.array([0, 1] * 3)
for ph in (False, True):
    a, b = [R_DST(n_shapelets=10, phase_invariance=ph, normalize_output=o, random_state=0).fit(X, y).transform(X) for o in (False, True)]
    need(np.allclose(a[:, ::3], b[:, ::3]), 'the minimum changes')
    need(np.allclose(a[:, 1::3] / 30, b[:, 1::3]), 'the position is not divided by the length, phase invariance %s' % ph)
    need(np.allclose(a[:, 2::3] / 30, b[:, 2::3]), 'the occurrence is not divided by the length, phase invariance %s' % ph)
''')

bug('v16_close_strengths', 'C16',
    'regularisation strengths that differ by less than 1e-5 relative or 1e-8',
    'the leave-one-out values of all strengths close to the selected one are taken',
    [('classifiers/rdst_ensemble.py', 'alpha_idx = np.where(self.alphas == self.alpha_)[0]', 'alpha_idx = np.where(np.isclose(self.alphas, self.alpha_))[0]')], '''
from convst.classifiers.rdst_ensemble import _internalRidgeCV
m = _internalRidgeCV(alphas=np.array([1e-9, 2e-9]))
m.alphas, m.alpha_, m.store_cv_values, m.classes_ = np.array([1e-9, 2e-9]), 2e-9, True, np.array([0, 1, 2])
cv = np.zeros((4, 3, 2)); y = np.array([0, 1, 2, 1])
cv[np.arange(4), y, 1] = 1.
cv[np.arange(4), (y + 1) % 3, 0] = 1.
m.cv_values_ = cv
try:
    a = m.get_loocv_train_acc(y)
except Exception as e:
    need(False, 'raised %r' % e)
need(a == 1., 'accuracy %s at the selected strength, which is right everywhere' % a)
''')

bug('v18_first_stays', 'C18',
    'looking at more than one resample: no single resample is wrong',
    'the first sample of every class is never moved to the test part',
    [('utils/experiments_utils.py', '''        random_state.shuffle(indices)
''', '''        random_state.shuffle(indices[1:])
''')], '''
from convst.utils.experiments_utils import _resample
X = np.arange(8.).reshape(8, 1, 1) * np.ones((1, 1, 4))
y = np.array([0, 1, 0, 1])
seen = set()
for s in range(60):
    a, b, c, d = _resample(X[:4], y, X[4:], y, s)
    seen |= set(c[:, 0, 0])
need(seen == set(range(8)), 'the test part never contains %s' % sorted(set(range(8)) - seen))
''')

bug('v22_univariate_points', 'C22',
    'is_univariate together with a min_timestamps other than 2',
    'the minimum number of time points asked for is ignored for univariate input',
    [('utils/checks_utils.py', 'if X.shape[2] <= min_timestamps:', 'if X.shape[2] <= (2 if is_univariate else min_timestamps):')], '''
from convst.utils.checks_utils import check_array_3D
for n in range(1, 9):
    for k in range(1, 7):
        try:
            check_array_3D(np.ones((2, 1, n)), is_univariate=True, min_timestamps=k)
            ok = True
        except ValueError:
            ok = False
        need(ok == (n > k), '%d points with min_timestamps=%d accepted: %s' % (n, k, ok))
''')

bug('v23_scaled_in_place', 'C23',
    'plotting a normalised shapelet on a series, and then using the model again',
    'the values of the shapelet are rescaled in place: they are a view of the model, so drawing changes it',
    [('interpreters/rdst_interpreter.py', '''            _values = (_values * X[idx_match].std()) + X[idx_match].mean()
''', '''            _values *= X[idx_match].std()
            _values += X[idx_match].mean()
''')], '''
from convst.transformers import R_DST
from convst.interpreters import RDST_interpreter
rng = np.random.RandomState(0)
X, y = rng.rand(6, 1, 30) * 4, np.array([0, 1] * 3)
m = R_DST(n_shapelets=10, proba_norm=1., random_state=0).fit(X, y)
a = m.transform(X)
it = RDST_interpreter(m)
for k in range(len(m.shapelets_[1])):
    it.plot_on_X(k, X[0, 0])
need(np.array_equal(a, m.transform(X)), 'the features change after drawing')
''')

bug('v21_hankel_in_place', 'C21',
    'float input to FastHankelTransform (integers are copied first)',
    'the result is written over the input',
    [('transformers/_input_transformers.py', 'X_new = np.zeros(X.shape)', 'X_new = np.asarray(X, dtype=np.float64)')], '''
from convst.transformers._input_transformers import FastHankelTransform
rng = np.random.RandomState(0)
X = rng.rand(3, 2, 10)
K = X.copy()
a = FastHankelTransform().fit(X).transform(X)
need(np.array_equal(X, K), 'the input changes')
need(np.array_equal(a, FastHankelTransform().fit(X).transform(X)), 'a second transform differs')
''')

bug('v27_one_column_draws', 'C27',
    'a comparison with one competitor only, and differences within the margin',
    'in the single-panel layout a dataset on which the baseline is better by less than the margin is counted twice: as a draw and as a win',
    [('utils/plot_utils.py', '''                textstr = 'W - D - L\\n{} - {} - {}'.format(sum(x+margin < y), sum(
                    (x <= y+margin) & (y-margin <= x)), sum(x-margin > y))
                ax.text(''', '''                textstr = 'W - D - L\\n{} - {} - {}'.format(sum(x < y), sum(
                    (x <= y+margin) & (y-margin <= x)), sum(x-margin > y))
                ax.text(''')], '''
from convst.utils.plot_utils import pairwise_plot
import pandas as pd
df = pd.DataFrame({'A': [.5, .6, .7, .8], 'B': [.505, .7, .5, .8]}, index=list('abcd'))
pairwise_plot(df, 'B')
t = [a for _, n, a, k in fakes.DRAWN if n == 'text' and 'W - D - L' in str(a)]
need(len(t) == 1 and t[0][2].split('\\n')[1] == '1 - 2 - 1', 'counts %s' % [x[2] for x in t])
''')

bug('v28_components_kept', 'C28',
    'set_params on a fitted R_DST_Ridge followed by another fit',
    'the transformer and classifier built by the first fit are reused: the new parameter has no effect',
    [('classifiers/rdst_ridge.py', '''        self._init_components()
        self.transformer''', '''        if not hasattr(self, 'transformer'):
            self._init_components()
        self.transformer''')], '''
from convst.classifiers import R_DST_Ridge
rng = np.random.RandomState(0)
X, y = rng.rand(6, 1, 30), np.array([0, 1] * 3)
m = R_DST_Ridge(n_shapelets=10, shapelet_lengths=[5], random_state=0).fit(X, y)
m.set_params(shapelet_lengths=[7]).fit(X, y)
need(set(m.transformer.shapelets_[1]) == {7}, 'lengths %s after set_params(shapelet_lengths=[7])' % set(m.transformer.shapelets_[1]))
''')

bug('v29_batch_scores', 'C29',
    'an ensemble with two members that disagree, one of them barely: which one wins depends on the batch',
    'the decision scores are divided by the largest one of the batch, so the votes depend on the other series',
    [('classifiers/rdst_ensemble.py', '''        return softmax(d)
''', '''        return softmax(d / np.abs(d).max())
''')], '''
from convst.classifiers import R_DST_Ensemble
from convst.transformers._input_transformers import Raw, Derivate
bad = None
for s in range(12):
    rng = np.random.RandomState(s)
    X, y = rng.rand(10, 1, 16), np.array([0, 1] * 5)
    m = R_DST_Ensemble(n_shapelets_per_estimator=6, shapelet_lengths=[3], proba_norm=[.5, .5], input_transformers=[Raw(), Derivate()],
                       a_w=1, random_state=s).fit(X, y)
    Z = rng.rand(40, 1, 16)
    P = m.predict(Z)
    Q = np.array([m.predict(Z[i:i + 1])[0] for i in range(len(Z))])
    if (P != Q).any():
        bad = s
need(bad is None, 'the labels of a batch differ from those of its series alone, seed %s' % bad)
''')

bug('v30_neighbouring_channels', 'C30',
    'multivariate series with three or more channels, and looking at the whole set of shapelets that can be drawn',
    'only neighbouring channels are combined: channels 0 and 2 without 1 are never used together',
    [('transformers/_multivariate_same_length.py', '''            _channel_ids = choice(
                arange(0, n_features), _n_channels, replace=False
            )
''', '''            _first = choice(arange(0, n_features - _n_channels + 1))
            _channel_ids = arange(_first, _first + _n_channels)
''')], '''
from convst.transformers import R_DST
rng = np.random.RandomState(0)
X, y = rng.rand(6, 3, 12), np.array([0, 1] * 3)
seen = set()
for s in range(20):
    m = R_DST(n_shapelets=20, shapelet_lengths=[3], alpha=1., random_state=s).fit(X, y)
    n, ch = m.shapelets_[5], m.shapelets_[6]
    at = np.concatenate([[0], np.cumsum(n)])
    seen |= {tuple(sorted(ch[a:b])) for a, b in zip(at[:-1], at[1:])}
need((0, 2) in seen, 'channel sets drawn: %s' % sorted(seen))
''')

bug('v30b_first_partner', 'C30',
    'a class with three or more other series, and looking at which of them supply thresholds',
    'the series that supplies the threshold is always the first other one when there are several',
    [('transformers/_multivariate_variable_length.py', '''                    id_test = choice(loc_others)
''', '''                    id_test = loc_others[0]
''')], '''
from convst.transformers import R_DST
rng = np.random.RandomState(0)
X = [rng.rand(2, 8) * s for s in (1, 10, 100, 1000)]
m = R_DST(n_shapelets=60, shapelet_lengths=[3], proba_norm=0., percentiles=[0, 0], alpha=1., random_state=0, max_channels=1,
          transform_type='multivariate_variable').fit(X, np.zeros(4))
V, L, D, T, N, n, ch = m.shapelets_
at = np.concatenate([[0], np.cumsum(n * L)])
seen = set()
for k in range(len(L)):
    v = V[at[k]:at[k] + L[k]]
    for i, x in enumerate(X):
        c = [np.abs(x[ch[k], s:s + (L[k] - 1) * D[k] + 1:D[k]] - v).sum() for s in range(8 - (L[k] - 1) * D[k])]
        if abs(min(c) - T[k]) < 1e-12 and min(c) > 0:
            seen.add(i)
need(seen == {0, 1, 2, 3}, 'thresholds only from series %s' % sorted(seen))
''')
