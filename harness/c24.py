"""C24: inputs and fitted models are left alone."""
from harness import fitlib
from harness.fitlib import estimator, cfg
from harness.util import fitted, batch, sym_shapelet, sym_series, semi_series, semi_shapelet
from harness.capture import get, record

U, V, M, W = 'univariate', 'univariate_variable', 'multivariate', 'multivariate_variable'
BOUNDS = 'transform: 1-3 series of 3-6 points, 1-2 channels, 2-3 shapelets, four data kinds, phase on and off, three ' \
         'transform calls, lists and object arrays; fit: one shapelet from 2-3 series of 3-4 points, every draw, with and ' \
         'without sample subset, relative lengths and bounds; input representations and scalers: 1-3 samples of 3-5 points; classifiers: two members, every container; contents arbitrary reals; also ' \
         '3-4 series of 16-22 points, 4 channels, 5 shapelets, and fits of 8-9 shapelets from 4-6 series of 11-26 points, most of it fixed'
OUTSIDE = 'larger data; the user\'s input transformer objects, which the ensemble fits by design'
BUDGET = {'quick': 120, 'thorough': 900}


def configs(tier):
    S = [(2, 1, 0), (3, 1, 1), (2, 2, 1)]
    MS = [(2, 1, 0, [1]), (3, 1, 1, [1, 0]), (2, 1, 1, [0])]
    out = []
    for ph in (False, True):
        for kind, lens in ((U, [4, 4]), (U, [5]), (V, [3, 5, 4]), (V, [6, 3]), (M, [4, 4]), (M, [3, 3, 3]), (W, [3, 5]), (W, [6, 4])):
            for nr in (False, True):
                out.append({'m': 'transform', 'kind': kind, 'lens': lens, 'shp': MS if kind in (M, W) else S, 'phase': ph,
                            'nrm': nr, 'obj': nr})
    for kind, lens, nch in ((U, [3, 3], 1), (V, [3, 4], 1), (M, [3, 3], 2), (W, [3, 4], 2), (V, [4, 4], 1)):
        for ph in (False, True):
            for p in (0.0, 1.0):
                out.append({'m': 'fit', 'c': cfg(kind, lens, [0, 1], 1, [2], nch, proba_norm=p, phase_invariance=ph)})
        out.append({'m': 'fit', 'c': cfg(kind, lens + lens[:1], [0, 1, 1], 1, [3], nch, n_samples=0.67, proba_norm=0.0)})
        out.append({'m': 'fit', 'c': cfg(kind, lens, [0, 1], 1, [0.75], nch, proba_norm=0.0)})
        out.append({'m': 'fit', 'c': cfg(kind, lens, [0, 1], 1, [3], nch, shapelet_lengths_bounds=[0.5, 1.0],
                                         lengths_bounds_reduction=0.0, proba_norm=0.0)})
        # parameters given as arrays, some lengths too long for the data
        for ln in ([3, 50], [0.75, 1.0], [2, 3, 9]):
            for extra in ({}, {'shapelet_lengths_bounds': [0.5, 1.0], 'lengths_bounds_reduction': 0.0}):
                if extra and ln[0] != 3:
                    continue
                out.append({'m': 'fit', 'arr': True, 'c': cfg(kind, lens, [0, 1], 1, ln, nch, proba_norm=0.0, **extra)})
        for m in ('ridge', 'ensemble'):
            out.append({'m': m, 'kind': kind, 'lens': lens, 'nch': nch})
    # larger: most of the contents and the draws fixed
    for k in fitlib.big():
        out.append({'m': 'fit', 'c': k, 'arr': k['script'] == 1})
    S = [(5, 2, 0), (4, 3, 1), (9, 1, 0), (3, 7, 1), (6, 2, 0)]
    MS = [(5, 2, 0, [3, 1]), (4, 3, 1, [0]), (9, 1, 0, [2, 3, 0]), (3, 5, 0, [1, 2]), (6, 2, 0, [3])]
    for kind, lens, ph in ((U, [20, 20, 20], False), (U, [18] * 4, True), (V, [22, 16, 19], False), (V, [17, 21, 18, 16], True),
                           (M, [16, 16, 16], False), (W, [18, 16, 21], False), (M, [17] * 3, True), (W, [16, 19], True)):
        for nr in (False, True):
            out.append({'m': 'transform', 'kind': kind, 'lens': lens, 'shp': MS if kind in (M, W) else S, 'phase': ph,
                        'nrm': nr, 'obj': nr, 'semi': True})
    for e in INPUT:
        for sh in ((2, 1, 4), (1, 2, 5), (2, 2, 3)):
            out.append({'m': 'input', 'e': e, 'shape': sh})
    return out


INPUT = {'Z_normalizer': {}, 'Raw': {}, 'Derivate': {'order': 1}, 'Derivate2': {'order': 2}, 'Periodigram': {},
         'FastHankelTransform': {}, 'c_StandardScaler': {}, 'c_MinMaxScaler': {}}


def m_input(h, c):
    """the input representations and the scalers"""
    T = h.load('convst.transformers._input_transformers')
    X, Z = h.reals('x', c['shape']), h.reals('z', c['shape'])
    if 'Scaler' in c['e']:
        X, Z = [h.np.asarray([[a[i, 0, j] for j in range(c['shape'][2])] for i in range(c['shape'][0])] +
                             [[float(j * (j + 2)) for j in range(c['shape'][2])]]) for a in (X, Z)]
        for j in range(c['shape'][2]):
            h.assume(h.lt(X[0, j], j * (j + 2) - 1))
            h.assume(h.lt(-100, X[0, j]))
    e = getattr(T, c['e'].rstrip('2'))(**INPUT[c['e']])
    x, z = h.snapshot(X), h.snapshot(Z)
    e.fit(X)
    keep(h, 'training data after fit', x, X)
    A = e.transform(Z)
    keep(h, 'input after transform', z, Z)
    a = h.elems(A)
    B = e.transform(Z)
    h.ck_arr('second transform', B, a, tuple(A.shape))
    keep(h, 'input after the second transform', z, Z)
    if c['e'] != 'Raw':
        # (Raw hands its input on)
        A[...] = -77.0
        h.ck_arr('results are independent', B, a, tuple(A.shape))
        keep(h, 'input does not depend on the result', z, Z)
    e.transform(X)
    keep(h, 'training data after transform', x, X)
    h.reach('input')


def keep(h, what, before, now):
    h.check(what, h.same(before, h.snapshot(now)))


def data(h, kind, series, obj):
    X = batch(h, kind, series)
    if obj and kind.endswith('variable'):
        a = h.np.empty(len(X), dtype=object)
        for i, x in enumerate(X):
            a[i] = x
        return a
    return X


def run(h, c):
    return globals()['m_' + c['m']](h, c)


def m_transform(h, c):
    kind, ph = c['kind'], c['phase']
    multi = kind.startswith('multi')
    nch = 1 if not multi else 4 if c.get('semi') else 2
    mk_s, mk_x = (semi_shapelet, semi_series) if c.get('semi') else (sym_shapelet, sym_series)
    series = [mk_x(h, 'x%d' % i, n, nch) for i, n in enumerate(c['lens'])]
    shps = [mk_s(h, 's%d' % i, s[0], s[1], bool(s[2]), s[3] if multi else None) for i, s in enumerate(c['shp'])]
    est = fitted(h, kind, shps, ph, n_ch=nch, normalize_output=c['nrm'])
    X = data(h, kind, series, c['obj'])
    xs, ms = h.snapshot(X), h.snapshot(list(est.shapelets_))
    A = est.transform(X)
    keep(h, 'input after transform', xs, X)
    keep(h, 'shapelets after transform', ms, list(est.shapelets_))
    a = h.elems(A)
    B = est.transform(X)
    h.ck_arr('second transform', B, a, tuple(A.shape))
    A[...] = -77.0
    h.ck_arr('results are independent', B, a, tuple(A.shape))
    keep(h, 'input does not depend on the result', xs, X)
    keep(h, 'shapelets do not depend on the result', ms, list(est.shapelets_))
    h.ck_arr('third transform', est.transform(X), a, tuple(A.shape))
    # another batch in between leaves no trace
    est.transform(batch(h, kind, [[[1.0, 5.0, 2.0, 0.5, 7.0, 3.0] * (4 if c.get('semi') else 1)] * nch]))
    h.ck_arr('transform after another batch', est.transform(X), a, tuple(A.shape))
    keep(h, 'shapelets at the end', ms, list(est.shapelets_))
    h.reach('transform')


def m_fit(h, c):
    np = h.np
    k = c['c']
    series = fitlib.data(h, k)
    if k.get('script') is not None:
        fitlib.script(h, k['script'])
    X = batch(h, k['kind'], series)
    y = np.asarray(k['y'])
    ln, pc = list(k['lengths']), [5, 10]
    p = dict(k['p'])
    pc = list(p.get('percentiles', pc))
    p['percentiles'] = pc
    if 'shapelet_lengths_bounds' in p:
        p['shapelet_lengths_bounds'] = list(p['shapelet_lengths_bounds'])
    if c.get('arr'):
        ln, pc = np.asarray(ln), np.asarray(pc)
        p.update(percentiles=pc, random_state=0)
        if 'shapelet_lengths_bounds' in p:
            p['shapelet_lengths_bounds'] = np.asarray(p['shapelet_lengths_bounds'])
        R = h.load('convst.transformers').R_DST
        est = R(n_shapelets=k['k'], shapelet_lengths=ln, **p)
    else:
        est = estimator(h, dict(k, p=p, lengths=ln))
    ps = [h.snapshot(v) for v in (ln, pc, p.get('shapelet_lengths_bounds'))]
    xs, ys = h.snapshot(X), h.snapshot(y)
    est.fit(X, y)
    keep(h, 'data after fit', xs, X)
    keep(h, 'labels after fit', ys, y)
    for w, a, b in zip(('lengths', 'percentiles', 'length bounds'), ps, (ln, pc, p.get('shapelet_lengths_bounds'))):
        h.check(w + ' after fit', h.same(a, h.snapshot(b)))
    ms = h.snapshot(list(est.shapelets_))
    # the model holds its own copies
    for x in X:
        x[...] = 55.0
    y[...] = 0
    keep(h, 'the model does not refer to the data', ms, list(est.shapelets_))
    h.reach('fit')


def feats(h):
    def f(call):
        X = get(h, call, 'X')
        return h.np.asarray([[float(i), 2.0 * i + 1, 5.0 * i] for i in range(len(X))])
    return f


def m_ridge(h, c):
    classifier(h, c, lambda ln, pc: h.load('convst.classifiers').R_DST_Ridge(
        n_shapelets=1, shapelet_lengths=ln, percentiles=pc, proba_norm=0.5, random_state=0, alphas_ridge=[1.0]))


def m_ensemble(h, c):
    T = h.load('convst.transformers._input_transformers')
    classifier(h, c, lambda ln, pc: h.load('convst.classifiers').R_DST_Ensemble(
        n_shapelets_per_estimator=1, shapelet_lengths=ln, percentiles=pc, proba_norm=[0.5, 0.5], random_state=0,
        input_transformers=[T.Raw(), T.Raw() if c['kind'].endswith('variable') else T.Derivate(order=0)], alphas_ridge=[1.0]))


def classifier(h, c, mk):
    np = h.np
    record(h, feats(h))
    h.w.pin_ridge = True
    h.pinned = True
    series = [sym_series(h, 'x%d' % i, n, c['nch']) for i, n in enumerate(c['lens'])]
    X, y = batch(h, c['kind'], series), np.asarray([0, 1])
    ln, pc = [3], [5, 10]
    e = mk(ln, pc)
    xs, ys = h.snapshot(X), h.snapshot(y)
    e.fit(X, y)
    keep(h, 'data after fit', xs, X)
    keep(h, 'labels after fit', ys, y)
    h.check('parameter lists', ln == [3] and pc == [5, 10])
    p = e.predict(X)
    keep(h, 'data after predict', xs, X)
    keep(h, 'labels after predict', ys, y)
    q = e.predict(X)
    h.check('same predictions again', [v for v in p] == [v for v in q])
    e.fit(X, y)
    keep(h, 'data after another fit', xs, X)
    h.check('parameter lists after another fit', ln == [3] and pc == [5, 10])
    h.reach(c['m'])
