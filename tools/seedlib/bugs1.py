ORACLE = '''
def cands(x, l, d, phase):
    n = len(x)
    k = n if phase else n - (l - 1) * d
    return np.array([[x[(i + j * d) % n] for j in range(l)] for i in range(k)])


def zn(v):
    return (v - v.mean()) / (v.std() + 1e-8)


def dist(x, v, l, d, norm, phase):
    return np.array([np.abs((zn(c) if norm else c) - v).sum() for c in cands(x, l, d, phase)])
'''

bug('u01_exact_match_stop', 'C01',
    'a series that contains an exact copy of the shapelet (distance 0) before its last position',
    'the scan of a series stops at the first exact match, so the occurrence feature misses all later matches',
    [('transformers/_commons.py', '''        _dist = manhattan(x[i], values)

        if _dist < _min or _min==-1.:
            _min = _dist
            _argmin = i

        if _dist <= threshold:
            _n_match += 1
''', '''        #Nothing can be closer than an exact match
        if _min == 0.:
            break
        _dist = manhattan(x[i], values)

        if _dist < _min or _min==-1.:
            _min = _dist
            _argmin = i

        if _dist <= threshold:
            _n_match += 1
''')], '''
from convst.transformers import R_DST
x = np.array([0., 1, 3, 2, 0, 1, 3, 2, 0, 1, 3, 2])
m = R_DST(transform_type='univariate')
m.fit(np.random.RandomState(0).rand(4, 1, 12), np.array([0, 1, 0, 1]))
m.shapelets_ = (np.array([[0., 1, 3]]), np.array([3]), np.array([1]), np.array([.5]), np.array([False]))
f = m.transform(x.reshape(1, 1, -1))[0]
need(list(f) == [0., 0., 3.], 'features %s of a series with three exact matches' % f)
''')

bug('u02_channel_mask', 'C02',
    'a multivariate shapelet whose channel ids are not in increasing order',
    'the channels of the series are selected by a mask, in increasing order, and compared with the values of other channels',
    [('transformers/_multivariate_variable_length.py', '''                i_shp = _idx_no_norm[i_idx]
                _channels = channel_ids[a2[i_shp]:a2[i_shp+1]]
''', '''                i_shp = _idx_no_norm[i_idx]
                _channels = unique(channel_ids[a2[i_shp]:a2[i_shp+1]])
''')], ORACLE + '''
from convst.transformers import R_DST
rng = np.random.RandomState(3)
X = [rng.rand(3, n) for n in (9, 11, 10, 12, 9, 10)]
y = np.array([0, 1, 0, 1, 0, 1])
m = R_DST(n_shapelets=40, shapelet_lengths=[3], proba_norm=0., random_state=1, transform_type='multivariate_variable').fit(X, y)
F = m.transform(X)
v, L, D, T, N, C, I = m.shapelets_
a = b = 0
for s in range(len(L)):
    ch, val = I[a:a + C[s]], v[b:b + C[s] * L[s]].reshape(C[s], L[s])
    a, b = a + C[s], b + C[s] * L[s]
    for i, x in enumerate(X):
        dv = sum(dist(x[c], val[k], L[s], D[s], N[s], False) for k, c in enumerate(ch))
        need(abs(F[i, 3 * s] - dv.min()) < 1e-9, 'minimum of shapelet %d with channels %s' % (s, ch))
''')

bug('u03_wrap_to_start', 'C03',
    'phase invariance, a dilation above 1 and a start position from which the subsequence jumps over the end of the series',
    'the extracted subsequence restarts at the first point instead of continuing modulo the series length',
    [('transformers/_commons.py', '''        _idx = (_idx+d)%n_ts
''', '''        _idx = _idx + d
        if _idx >= n_ts:
            _idx = 0
''')], ORACLE + '''
from convst.transformers import _commons as C
x = np.random.RandomState(0).rand(8)
for d in (1, 2, 3):
    for i in range(8):
        v = C.get_subsequence(x, i, 3, d, False, True)
        need(np.allclose(v, cands(x, 3, d, True)[i]), 'subsequence at %d with dilation %d' % (i, d))
''')

bug('u04_prime_bound', 'C04',
    'prime dilations together with several shapelet lengths',
    'the dilation of a long shapelet is drawn among all primes that fit the shortest one, so the dilated shapelet exceeds the series',
    [('transformers/_multivariate_same_length.py', '''            dilations[i] = shp_primes[choice_log(shp_primes.shape[0], 1)[0]]
''', '''            dilations[i] = primes[choice_log(primes.shape[0], 1)[0]]
''')], '''
from convst.transformers._multivariate_same_length import M_SL_init_random_shapelet_params as init
np.random.seed(0)
for t in range(50):
    r = init(20, np.array([3, 9]), 20, .5, 2, True)
    L, D = r[1], r[2]
    need(((L - 1) * D <= 19).all(), 'lengths %s with dilations %s exceed a series of 20 points' % (L, D))
''')

bug('u05_padding_in_shapelet', 'C05',
    'variable-length univariate data with phase invariance, and a shapelet that wraps around the end of a series shorter than the longest one',
    'shapelet values are taken from the padding behind the series',
    [('transformers/_univariate_variable_length.py', '''                    X[id_sample, 0, :X_len[id_sample]], index,
''', '''                    X[id_sample, 0], index,
''')], '''
from convst.transformers import R_DST
rng = np.random.RandomState(5)
X = [1 + rng.rand(1, n) for n in (10, 14, 18, 12, 10, 16)]
y = np.array([0, 1, 0, 1, 0, 1])
m = R_DST(n_shapelets=60, shapelet_lengths=[5], proba_norm=0., random_state=3, phase_invariance=True, alpha=0.).fit(X, y)
v, L, D, T, N = m.shapelets_
need(len(L) > 10, 'shapelets')
for s in range(len(L)):
    need((v[s, :L[s]] >= 1).all(), 'shapelet %d has values %s, no series is below 1' % (s, v[s, :L[s]]))
''')

bug('u06_two_of_a_class', 'C06',
    'multivariate data with a class of exactly two series',
    'the threshold is drawn from the distances to the source series itself although there is another series of its class',
    [('transformers/_multivariate_variable_length.py', '''                if loc_others.shape[0] > 1:
''', '''                if loc_others.shape[0] > 2:
''')], '''
from convst.transformers import R_DST
# two far apart series per class: distances to the other one are large
t = np.arange(10.)
X = [np.array([c * 100 + t, c * 100 + t ** 1.5]) for c in (0, 1, 20, 21)]
y = np.array([0, 0, 1, 1])
m = R_DST(n_shapelets=20, shapelet_lengths=[3], proba_norm=0., random_state=1, alpha=0., percentiles=[0, 5],
          transform_type='multivariate_variable').fit(X, y)
need(len(m.shapelets_[3]) > 5, 'shapelets')
for s, th in enumerate(m.shapelets_[3]):
    need(th > 100, 'threshold %s of shapelet %d is a distance to its own series' % (th, s))
''')

bug('u07_index_not_masked', 'C07',
    'two shapelets with the same dilation and normalisation drawn from the same series at the same start',
    'the start position of a sampled shapelet itself stays eligible, so the very same subsequence can be drawn again whatever alpha',
    [('transformers/_univariate_same_length.py', '''                for j in range(alpha_size):
''', '''                for j in range(1, alpha_size):
''')], '''
from convst.transformers import R_DST
rng = np.random.RandomState(0)
for seed in range(10):
    X = rng.rand(2, 1, 7)
    m = R_DST(n_shapelets=40, shapelet_lengths=[5], proba_norm=0., random_state=seed, alpha=1.).fit(X, np.array([0, 1]))
    v, L, D = m.shapelets_[:3]
    rows = [tuple(r) + (d,) for r, d in zip(v, D)]
    need(len(set(rows)) == len(rows), 'the same subsequence was sampled twice with alpha=1')
''')

bug('u08_trailing_zeros', 'C08',
    'a variable-length series whose last observed points are zero in every channel',
    'trailing zeros are taken for padding: the series is cut and its features change',
    [('transformers/rdst.py', '''            lengths[i] = X[i].shape[1]
''', '''            lengths[i] = X[i].shape[1]
            #series that were already padded with zeros
            while lengths[i] > 3 and np.all(X[i][:, lengths[i]-1] == 0):
                lengths[i] -= 1
'''), ('transformers/rdst.py', '''                X_new[i, :, :lengths[i]] = X[i]
''', '''                X_new[i, :, :lengths[i]] = X[i][:, :lengths[i]]
''')], '''
from convst.transformers import R_DST
rng = np.random.RandomState(0)
X = [rng.rand(1, n) for n in (9, 12, 10, 11)]
y = np.array([0, 1, 0, 1])
m = R_DST(n_shapelets=10, shapelet_lengths=[4], random_state=0).fit(X, y)
a = rng.rand(1, 12)
a[0, 9:] = 0.
b = a.copy()
b[0, 11] = 1e-12
need(np.allclose(m.transform([a])[:, 0::3], m.transform([b])[:, 0::3], atol=1e-6), 'minimum features of a series ending with zeros')
need(list(m._format_uneven_timestamps([a, X[0]])[1]) == [12, 9], 'lengths')
''')

bug('u09_no_phase_without_dilation', 'C09',
    'phase invariance and a shapelet with dilation 1',
    'candidates of undilated shapelets do not wrap around the end of the series, so rotating a series changes their features',
    [('transformers/_commons.py', '''def generate_strides_1D(X, window_size, dilation, use_phase):
    if use_phase:
''', '''def generate_strides_1D(X, window_size, dilation, use_phase):
    if use_phase and dilation > 1:
''')], '''
from convst.transformers import R_DST
rng = np.random.RandomState(0)
X = rng.rand(6, 1, 12)
m = R_DST(n_shapelets=30, shapelet_lengths=[5], random_state=0, phase_invariance=True, alpha=0.).fit(X, np.array([0, 1] * 3))
F = m.transform(X)
for r in range(1, 12):
    G = m.transform(np.roll(X, r, axis=2))
    need(np.allclose(F[:, 0::3], G[:, 0::3]), 'minimum features after a rotation by %d' % r)
    need(np.allclose(F[:, 2::3], G[:, 2::3]), 'occurrences after a rotation by %d' % r)
''')

bug('u10_bounds_kept', 'C10',
    'length bounds relative to the series length, and a second fit on series of another length',
    'the bounds converted to points by the first fit replace the relative bounds of the estimator',
    [('transformers/rdst.py', '''            max_l = max(4,max(b0+1,b1+1))
''', '''            #the bounds as numbers of timestamps
            self.shapelet_lengths_bounds = [b0, b1]
            max_l = max(4,max(b0,b1)+1)
''')], '''
from convst.transformers import R_DST
rng = np.random.RandomState(0)
y = np.array([0, 1] * 3)
short, long = rng.rand(6, 1, 12), rng.rand(6, 1, 40)
p = dict(n_shapelets=10, random_state=0)
a = R_DST(shapelet_lengths_bounds=[.25, .5], **p).fit(short, y).fit(long, y)
b = R_DST(shapelet_lengths_bounds=[.25, .5], **p).fit(long, y)
for u, v in zip(a.shapelets_, b.shapelets_):
    need(u.shape == v.shape and np.array_equal(u, v), 'a second fit differs from the first fit of a new estimator')
''')

bug('u11_prange_carried', 'C11',
    'the iterations of the loop that groups shapelets by (length, dilation) run in another order than the sequential one',
    'a running offset is carried between iterations of a parallel loop: shapelet groups overwrite each other',
    [('transformers/_univariate_same_length.py', '''    for i in range(params_shp.shape[0]):
''', '''    for i in prange(params_shp.shape[0]):
''')], '''
import numba
# parallel iterations may run in any order
numba.prange = lambda *a: reversed(range(*a))
numba.njit = lambda *a, **k: (lambda f: f)
from convst.transformers import R_DST
rng = np.random.RandomState(0)
X, y = rng.rand(6, 1, 15), np.array([0, 1] * 3)
m = R_DST(n_shapelets=12, shapelet_lengths=[3, 5, 7], random_state=0)
m.fit(X, y)
F = m.transform(X)
import convst.transformers._univariate_same_length as M
for name in list(vars(M)):
    if name == 'prange':
        M.prange = range
G = m.transform(X)
need(np.allclose(F, G), 'features depend on the order of the iterations of a parallel loop')
''')

bug('u12_step_rounded_up', 'C12',
    'length bounds with a number of lengths that is not a multiple of the number to keep',
    'fewer lengths are kept than the requested proportion',
    [('transformers/rdst.py', '''                    step = lengths.shape[0]//n_remove
''', '''                    step = int(np.ceil(lengths.shape[0]/n_remove))
''')], '''
from convst.transformers import R_DST
for a in range(3, 8):
    for b in range(a + 3, 24):
        for red in (.25, .5, .75, .9):
            L = list(R_DST(shapelet_lengths_bounds=[a, b], lengths_bounds_reduction=red)._set_lengths(40))
            n = b - a + 1
            need(L[0] == a and L[-1] <= b, 'bounds %s' % [a, b])
            need(len(L) >= int(n * red), '%d of %d lengths kept for a proportion of %s' % (len(L), n, red))
''')

bug('u13_list_of_equal_lengths', 'C13',
    'a list (or object array) of 2D series that all happen to have the same length in the training data',
    'the container is ignored and an equal-length model is fitted, which rejects variable-length series later',
    [('transformers/rdst.py', '''        if isinstance(X, list) or X.dtype == np.object_:
''', '''        if isinstance(X, list) and len(set([x.shape for x in X])) == 1:
            X = np.asarray(X, dtype=np.float64)
        if isinstance(X, list) or X.dtype == np.object_:
''')], '''
from convst.transformers import R_DST
rng = np.random.RandomState(0)
for n_ch, kind in ((1, 'univariate_variable'), (2, 'multivariate_variable')):
    X = [rng.rand(n_ch, 12) for i in range(6)]
    m = R_DST(n_shapelets=6, shapelet_lengths=[4], random_state=0).fit(X, np.array([0, 1] * 3))
    try:
        F = m.transform([rng.rand(n_ch, n) for n in (12, 15)])
    except Exception as e:
        need(False, 'series of other lengths rejected: %r' % e)
    need(F.shape[0] == 2, 'features')
''')

bug('u14_first_proba_norm', 'C14',
    'an ensemble whose members have different normalisation probabilities',
    'every member uses the normalisation probability of the first one',
    [('classifiers/rdst_ensemble.py', '''                        proba_norm=self.proba_norm[i],
''', '''                        proba_norm=self.proba_norm[0],
''')], '''
from convst.classifiers import R_DST_Ensemble
rng = np.random.RandomState(0)
X, y = rng.rand(8, 1, 20), np.array([0, 1] * 4)
m = R_DST_Ensemble(n_shapelets_per_estimator=10, shapelet_lengths=[4], proba_norm=[0., 1., 0.], random_state=0).fit(X, y)
for i, p in enumerate([0, 1, 0]):
    norm = m.models[i]['r_dst'].shapelets_[4]
    need((norm == bool(p)).all(), 'member %d with proba_norm %d has flags %s' % (i, p, norm))
''')

bug('u16_sorted_alphas', 'C16',
    'regularisation strengths that are not given in increasing order',
    'the leave-one-out accuracy that weights a member is read at another regularisation than the selected one',
    [('classifiers/rdst_ensemble.py', '''            alpha_idx = np.where(self.alphas == self.alpha_)[0]
''', '''            alpha_idx = np.searchsorted(self.alphas, [self.alpha_])
''')], '''
from convst.classifiers import R_DST_Ensemble
from convst.transformers._input_transformers import Raw
rng = np.random.RandomState(4)
for t in range(12):
    X, y = rng.rand(9, 1, 12), rng.permutation([0, 1, 2] * 3)
    al = [100., .01, 10., 1000., 1e-4]
    try:
        m = R_DST_Ensemble(n_shapelets_per_estimator=4, shapelet_lengths=[3], proba_norm=[.5], random_state=t,
                           input_transformers=[Raw()], alphas_ridge=al, a_w=1).fit(X, y)
        w = m.model_weights[0]
    except Exception as e:
        need(False, 'fit fails: %r' % e)
    r = m.models[0]['_internalridgecv']
    cv = r.cv_values_[:, :, al.index(r.alpha_)]
    acc = (cv.argmax(axis=1) == y).mean()
    need(abs(w - acc) < 1e-12, 'weight %s of a member with leave-one-out accuracy %s' % (w, acc))
''')

bug('u17_one_job_per_member', 'C17',
    'fewer jobs requested than the ensemble has members',
    'the number of jobs is raised to the number of members, above what was requested',
    [('classifiers/rdst_ensemble.py', '''        total_jobs = check_n_jobs(self.n_jobs)
''', '''        total_jobs = max(check_n_jobs(self.n_jobs), len(self.input_transformers))
''')], '''
import convst.utils.checks_utils as U
import convst.classifiers.rdst_ensemble as E
U.cpu_count = lambda: 64
jobs, threads, real = [], [], E.Parallel
def recorded(*a, **k):
    jobs.append(k.get('n_jobs', a[0] if a else None))
    return real(*a, **k)
E.Parallel = recorded
E.set_num_threads = threads.append
X = np.random.RandomState(0).rand(6, 1, 12)
y = np.array([0, 1, 0, 1, 0, 1])
for k in (1, 2, 3, 4, 5, 7, 8, 16, 63, -1, -2, -63):
    del jobs[:], threads[:]
    E.R_DST_Ensemble(n_jobs=k, n_shapelets_per_estimator=2, shapelet_lengths=[3], random_state=0).fit(X, y)
    total = k if k > 0 else 65 + k
    need(jobs and threads and min(jobs + threads) >= 1 and max(jobs) * max(threads) <= total,
         '%r members with %r threads for %d jobs' % (jobs, threads, total))
''')

bug('u18_extend_input', 'C18',
    'resampling lists of variable-length series',
    'the training list of the caller is extended by the test series, so a second resample sees them twice',
    [('utils/experiments_utils.py', '''        all_data = X_train + X_test
''', '''        all_data = X_train
        all_data += X_test
''')], '''
from convst.utils.experiments_utils import _resample
rng = np.random.RandomState(0)
a, b = [rng.rand(1, n) for n in (4, 5, 6, 7)], [rng.rand(1, n) for n in (5, 8, 9)]
ya, yb = np.array([0, 1, 0, 1]), np.array([1, 0, 1])
_resample(a, ya, b, yb, 1)
need(len(a) == 4 and len(b) == 3, 'the input lists have %d and %d series after resampling' % (len(a), len(b)))
''')

bug('u19_chained_resample', 'C19',
    'cross validation with at least three folds',
    'a fold resamples the previous fold instead of the original train/test split, so it is not the resample of its seed',
    [('utils/experiments_utils.py', '''                X_train, y_train, X_test, y_test = _resample(
                    X_train_0, y_train_0, X_test_0, y_test_0, i
                )
            t0 = timer()
''', '''                X_train, y_train, X_test, y_test = _resample(
                    X_train, y_train, X_test, y_test, i
                )
            t0 = timer()
''')], '''
from convst.utils import experiments_utils as E
rng = np.random.RandomState(0)
fakes.DATASETS['d', 'train'] = (rng.rand(6, 1, 5), np.array([0, 1] * 3))
fakes.DATASETS['d', 'test'] = (rng.rand(4, 1, 5), np.array([0, 1] * 2))


class Model:
    seen = []
    def fit(self, X, y):
        self.seen.append(np.array(X))
        return self
    def predict(self, X):
        return np.zeros(len(X))


E.cross_validate_UCR_UEA(4, 'd').score(Model())
(a, ya), (b, yb) = fakes.DATASETS['d', 'train'], fakes.DATASETS['d', 'test']
for i in range(1, 4):
    need(np.array_equal(Model.seen[i], E._resample(a, ya, b, yb, i)[0]), 'training part of fold %d' % i)
''')

bug('u20_std_of_all_channels', 'C20',
    'normalising multivariate series with Z_normalizer',
    'channels are divided by the deviation of all channels of the sample',
    [('transformers/_input_transformers.py', '''        x_new[i] = (x[i] - x[i].mean()) / (x[i].std() + 1e-8)
''', '''        x_new[i] = (x[i] - x[i].mean()) / (x.std() + 1e-8)
''')], '''
from convst.transformers._input_transformers import Z_normalizer
X = np.random.RandomState(0).rand(3, 2, 9) * np.array([1., 50.]).reshape(1, 2, 1)
Z = Z_normalizer().fit(X).transform(X)
need(np.allclose(Z.mean(axis=2), 0) and np.allclose(Z.std(axis=2), 1), 'deviations %s' % Z.std(axis=2))
''')

bug('u21_small_std_dropped', 'C21',
    'a feature that varies by less than 1e-3 on the training data',
    'features that are not constant are dropped before the classifier',
    [('transformers/_input_transformers.py', '''class c_StandardScaler(StandardScaler):
    def fit(self, X, y=None):
        self.usefull_atts = np.where(np.std(X, axis=0) != 0)[0]
''', '''class c_StandardScaler(StandardScaler):
    def fit(self, X, y=None):
        self.usefull_atts = np.where(np.std(X, axis=0) > 1e-3)[0]
''')], '''
from convst.transformers._input_transformers import c_StandardScaler
X = np.array([[1., 5, 1e-4], [2., 5, 3e-4], [4., 5, 2e-4]])
F = c_StandardScaler().fit(X).transform(X)
need(F.shape == (3, 2), 'only the constant column is dropped, got %d columns' % F.shape[1])
''')

bug('u23_window_without_wrap', 'C23',
    'interpreting a normalised shapelet of a phase invariant model whose best match wraps around the end of the series',
    'the shapelet is rescaled with the mean and deviation of the part of the window before the end of the series',
    [('interpreters/rdst_interpreter.py', '''            _values = (_values * X[idx_match].std()) + X[idx_match].mean()
''', '''            window = X[c.argmin():c.argmin()+self.length*self.dilation:self.dilation]
            _values = (_values * window.std()) + window.mean()
''')], ORACLE + '''
from convst.interpreters.rdst_interpreter import Shapelet
x = np.random.RandomState(1).rand(11)
for start in range(11):
    idx = (start + 2 * np.arange(4)) % 11
    s = Shapelet(zn(x[idx]), 4, 2, True, .1, True)
    del fakes.DRAWN[:]
    s.plot_on_X(x, ax=fakes.Pen('ax'))
    a = [d[2] for d in fakes.DRAWN if d[1] == 'scatter'][0]
    need(np.array_equal(a[0], idx), 'positions of the match at %d' % start)
    need(np.allclose(a[1], x[idx], atol=1e-5), 'values drawn for the match at %d' % start)
''')

bug('u24_shared_output', 'C24',
    'calling transform twice and using both results',
    'Z_normalizer writes its result into the array it was given',
    [('transformers/_input_transformers.py', '''    n_samples, n_features, n_timestamps = X.shape
    X_new = np.empty((n_samples, n_features, n_timestamps))
    for i in prange(n_samples):
''', '''    n_samples, n_features, n_timestamps = X.shape
    X_new = X
    for i in prange(n_samples):
''')], '''
from convst.transformers._input_transformers import Z_normalizer
X = np.random.RandomState(0).rand(3, 2, 9)
Y = X.copy()
Z_normalizer().fit(X).transform(X)
need(np.array_equal(X, Y), 'the input of Z_normalizer is modified')
''')

bug('u25_square_is_prime', 'C25',
    'the square of an odd prime (9, 25, 49, ...)',
    'squares of primes are reported as primes',
    [('transformers/_commons.py', '''    for i in range(3, int64(sqrt(n)) + 1, 2):
''', '''    for i in range(3, int64(sqrt(n)), 2):
''')], '''
from convst.transformers._commons import is_prime, prime_up_to
p = [1] + [n for n in range(2, 200) if all(n % k for k in range(2, n))]
need(list(prime_up_to(199)) == p, 'primes %s' % list(prime_up_to(199))[:12])
''')

bug('u26_min_len_of_train', 'C26',
    'a dataset whose shortest series is in the test part',
    'the reported minimum length only covers the training part',
    [('utils/dataset_utils.py', '''        min([len(X_test[i][0]) for i in range(len(X_test))]),
''', '''        min([len(X_train[i][0]) for i in range(len(X_test))]),
''')], '''
from convst.utils.dataset_utils import load_UCR_UEA_dataset_split
rng = np.random.RandomState(0)
fakes.DATASETS['d', 'train'] = ([rng.rand(1, n) for n in (9, 8, 10)], np.array(['a', 'b', 'a']))
fakes.DATASETS['d', 'test'] = ([rng.rand(1, n) for n in (7, 12)], np.array(['b', 'a']))
need(load_UCR_UEA_dataset_split('d')[4] == 7, 'minimum length')
''')

bug('u27_holm_without_stop', 'C27',
    'p-values of which one fails its Holm level and a larger one meets its own',
    'the step-down procedure does not stop at the first hypothesis that is not rejected',
    [('utils/plot_utils.py', '''        else:
            # stop
            break
''', '''''')], '''
import pandas as pd, io, contextlib
from convst.utils.plot_utils import _wilcoxon_holm
rng = np.random.RandomState(0)
acc = {c: rng.rand(6).round(3) for c in 'abc'}
df = pd.DataFrame([(c, 'd%d' % i, acc[c][i]) for c in 'abc' for i in range(6)],
                  columns=['classifier_name', 'dataset_name', 'accuracy'])
for (c, d), p in zip((('a', 'b'), ('a', 'c'), ('b', 'c')), (.01, .03, .045)):
    fakes.PVALUES[frozenset([tuple(acc[c]), tuple(acc[d])])] = p
with contextlib.redirect_stdout(io.StringIO()):
    p_values = _wilcoxon_holm(alpha=.05, df_perf=df)[0]
r = {(a, b): bool(s) for a, b, p, s in p_values}
need(r == {('a', 'b'): True, ('a', 'c'): False, ('b', 'c'): False}, 'decisions %s' % r)
''')

bug('u22_two_points', 'C22',
    'an array with exactly min_timestamps time points',
    'check_array_3D accepts series with min_timestamps points instead of asking for more',
    [('utils/checks_utils.py', '''    if X.shape[2] <= min_timestamps:
''', '''    if X.shape[2] < min_timestamps:
''')], '''
from convst.utils.checks_utils import check_array_3D
for n in range(1, 8):
    for m in range(1, 8):
        try:
            check_array_3D(np.zeros((2, 1, n)), min_timestamps=m)
            ok = True
        except ValueError:
            ok = False
        need(ok == (n > m), '%d points with min_timestamps=%d: %s' % (n, m, ok))
''')
