"""C28: the estimators follow the scikit-learn parameter protocol."""
from harness.capture import record
from harness.util import KINDS, batch

U, V, M, W = KINDS
BOUNDS = 'R_DST, R_DST_Ridge, R_DST_Ensemble: every real alpha, proba_norm in [0, 1], percentiles in [0, 100], integer ' \
         'n_shapelets and lengths (2-5), both values of every switch, relative lengths, bounds, every data kind; the input ' \
         'representations with arbitrary orders and parameters; every change of one parameter through set_params'
OUTSIDE = 'n_jobs, which the constructors resolve to a number of jobs; invalid values given to set_params; the random ' \
          'options of Derivate and Periodigram (documented to choose their parameter in fit)'
ASSUME = ['scikit-learn\'s get_params/set_params/clone as of version 1.2, including clone\'s identity check']
CLS = ('R_DST', 'R_DST_Ridge', 'R_DST_Ensemble')
RIDGE = ('class_weight', 'fit_intercept', 'alphas_ridge')
NEXT = {U: W, V: U, M: V, W: M}


def configs(tier):
    out = []
    for c in CLS:
        for kind in KINDS:
            out.append({'m': 'clone', 'c': c, 'kind': kind, 'auto': True})
            out.append({'m': 'clone', 'c': c, 'kind': kind, 'auto': False})
        out.append({'m': 'params', 'c': c})
        out.append({'m': 'unfitted', 'c': c})
        for i in range(len(CHANGES)):
            out.append({'m': 'set', 'c': c, 'kind': (V, W, U, M)[i % 4], 'i': i})
    for t in range(7):
        out.append({'m': 'transformer', 't': t})
    return out


def real_name(c, n):
    """names of the same parameter in the three estimators"""
    if c == 'R_DST_Ensemble':
        return {'n_shapelets': 'n_shapelets_per_estimator', 'alpha': 'shp_alpha'}.get(n, n)
    return n


def base(h, c):
    """a full set of parameters"""
    p0, p1 = h.real('p0', 0, 100), h.real('p1', 0, 100)
    h.assume(h.le(p0, p1, exact=True))
    p = dict(n_shapelets=h.int('k', 1, 50), alpha=h.real('alpha', 0, 1), percentiles=[p0, p1],
             phase_invariance=True, prime_dilations=True, normalize_output=True,
             shapelet_lengths=[h.int('l0', 2, 5), h.int('l1', 2, 5)], random_state=42, n_samples=None,
             transform_type='auto', shapelet_lengths_bounds=None, lengths_bounds_reduction=0.25, min_len=None)
    if c == 'R_DST_Ensemble':
        T = h.load('convst.transformers._input_transformers')
        p['proba_norm'] = h.np.asarray([h.real('pn0', 0, 1), h.real('pn1', 0, 1)], dtype=float)
        p['input_transformers'] = [T.Raw(), T.Raw()]
        p['a_w'] = 2
    else:
        p['proba_norm'] = h.real('pn0', 0, 1)
    if c != 'R_DST':
        p.update(class_weight=None, fit_intercept=False, alphas_ridge=[0.5])
    if c != 'R_DST_Ridge':
        p['max_channels'] = 1
    return {real_name(c, k): v for k, v in p.items()}


def cls(h, c):
    return getattr(h.load('convst.transformers' if c == 'R_DST' else 'convst.classifiers'), c)


def seq(v):
    return isinstance(v, (list, tuple)) or getattr(v, 'ndim', 0) > 0


def same_value(h, a, b):
    if hasattr(a, 'get_params') or hasattr(b, 'get_params'):
        return type(a) is type(b) and same_params(h, a.get_params(), b.get_params())
    if seq(a) or seq(b):
        if not (seq(a) and seq(b)):
            return False
        x, y = h.elems(a), h.elems(b)
        return len(x) == len(y) and h.and_(*[same_value(h, i, j) for i, j in zip(x, y)]) if x else len(y) == 0
    if a is None or b is None or isinstance(a, (str, bool)) or isinstance(b, (str, bool)):
        return a == b if type(a) is type(b) else False
    return h.eq(a, b)


def same_params(h, p, q):
    return set(p) == set(q) and (h.and_(*[same_value(h, p[k], q[k]) for k in p]) if p else True)


def copied(h, e):
    """scikit-learn's clone"""
    st, v = h.call(h.load('sklearn.base').clone, e)
    h.check('clone: %s' % (v if st == 'exc' else 'ok'), st == 'ok')
    if st == 'exc':
        raise v
    return v


def series(h, kind, lens=None):
    nch = 2 if kind in (M, W) else 1
    lens = lens or ([6, 7, 5] if kind in (V, W) else [6, 6, 6])
    return [[[float((7 * i + 5 * k + t * t) % 13 + t) for t in range(n)] for k in range(nch)] for i, n in enumerate(lens)]


def feats(h):
    def f(call):
        n = len(call['args']['X'])
        return h.np.asarray([[float(i), float(i * i % 5), float(3 * i % 4)] for i in range(n)])
    return f


def ck_calls(h, w, a, b):
    """the shapelet generation and application ran with the same arguments"""
    h.check(w + ': same calls', [(c['kind'], c['what']) for c in a] == [(c['kind'], c['what']) for c in b])
    for i, (x, y) in enumerate(zip(a, b)):
        for n in y['args']:
            if n != 'shapelets':
                h.check('%s: call %d argument %s' % (w, i, n), n in x['args'] and same_value(h, x['args'][n], y['args'][n]))


def run_it(h, calls, e, kind, predict=False):
    """fit and predict/transform, the calls made"""
    np = h.np
    S = series(h, kind)
    n, k = len(calls), len(h.w.recs('ridge.fit'))
    r = e.fit(batch(h, kind, S), np.asarray([0, 1, 0]))
    h.check('fit returns the estimator', r is e)
    if hasattr(e, 'transform'):
        e.transform(batch(h, kind, S[:2]))
    elif predict:
        e.predict(batch(h, kind, S[:1]))
    out = calls[n:]
    del calls[n:]
    for f in h.w.recs('ridge.fit')[k:]:
        r = f['est']
        out.append({'kind': 'ridge', 'what': 'ridge', 'args': {
            'alphas': list(r.alphas), 'fit_intercept': r.fit_intercept, 'class_weight': r.class_weight}})
    return out


#: changes of parameters
CHANGES = (('n_shapelets', lambda h: h.int('k2', 1, 50)), ('alpha', lambda h: h.real('alpha2', 0, 1)),
           ('shapelet_lengths', lambda h: [h.int('m0', 2, 5)]), ('shapelet_lengths', lambda h: [0.5, 0.75]),
           ('shapelet_lengths', lambda h: h.np.asarray([0.5])),
           ('percentiles', lambda h: [h.real('q0', 0, 10), h.real('q1', 10, 100)]),
           ('phase_invariance', lambda h: False), ('prime_dilations', lambda h: False),
           ('normalize_output', lambda h: False), ('random_state', lambda h: 7), ('n_samples', lambda h: 0.67),
           ('shapelet_lengths_bounds', lambda h: [3, 5]), ('shapelet_lengths_bounds', lambda h: [0.5, 1.0]),
           ('min_len', lambda h: h.int('ml2', 5, 5)), ('proba_norm', None), ('max_channels', lambda h: 2),
           ('class_weight', lambda h: 'balanced'), ('fit_intercept', lambda h: True), ('alphas_ridge', lambda h: [2.0]))


def run(h, c):
    m = c['m']
    if m == 'transformer':
        return transformer(h, c)
    C = cls(h, c['c'])
    if m == 'unfitted':
        N = h.load('sklearn.exceptions').NotFittedError
        e = C()
        X = batch(h, U, series(h, U))
        if hasattr(e, 'transform'):
            h.ck_raises('transform before fit', N, e.transform, X)
        if hasattr(e, 'predict'):
            h.ck_raises('predict before fit', N, e.predict, X)
        h.reach(m)
        return
    calls = record(h, feats(h))
    h.w.pin_ridge = True
    p = base(h, c['c'])
    if m == 'params':
        e = C(**p)
        g = e.get_params(deep=False)
        for k, v in p.items():
            h.check('parameter %s is reported' % k, k in g and same_value(h, g[k], v))
        d = C().get_params(deep=False)
        e = copied(h, C())
        h.check('clone of the default estimator', same_params(h, e.get_params(deep=False), d))
        h.reach(m)
        return
    kind = c['kind']
    p['n_jobs'] = -1
    h.w.cpus = 7
    if m == 'clone':
        if not c['auto']:
            p['transform_type'] = kind
        fresh = C(**p)
        # (the number of jobs is resolved by the constructor of some)
        want = run_it(h, calls, C(**p), kind, True)
        a = copied(h, fresh)
        h.check('clone has the same parameters', same_params(h, a.get_params(), fresh.get_params()))
        b = copied(h, a)
        ck_calls(h, 'clone', run_it(h, calls, a, kind, True), want)
        h.check('fit leaves the parameters', same_params(h, a.get_params(), fresh.get_params()))
        d = copied(h, a)
        h.check('clone of a fitted estimator has the same parameters', same_params(h, d.get_params(), fresh.get_params()))
        n = h.load('sklearn.exceptions').NotFittedError
        h.ck_raises('a clone is not fitted', n, d.transform if hasattr(d, 'transform') else d.predict,
                    batch(h, kind, series(h, kind)))
        if c['auto']:
            k2 = NEXT[kind]
            ck_calls(h, 'clone of a fitted estimator', run_it(h, calls, d, k2), run_it(h, calls, b, k2))
        else:
            ck_calls(h, 'clone of a fitted estimator', run_it(h, calls, d, kind, True), want)
        h.reach(m)
        return
    # set_params
    n, f = CHANGES[c['i']]
    if (n == 'max_channels' and c['c'] == 'R_DST_Ridge') or (c['c'] == 'R_DST' and n in RIDGE):
        h.reach('no such parameter')
        h.check('no such parameter', True)
        return
    if n == 'proba_norm':
        v = h.np.asarray([h.real('r0', 0, 1), h.real('r1', 0, 1)], dtype=float) if c['c'] == 'R_DST_Ensemble' \
            else h.real('r0', 0, 1)
    else:
        v = f(h)
    n = real_name(c['c'], n)
    q = dict(p)
    q[n] = v
    want = run_it(h, calls, C(**q), kind)
    e = C(**p)
    if c['i'] % 2:
        run_it(h, calls, e, kind)       # fitted before
    r = e.set_params(**{n: v})
    h.check('set_params returns the estimator', r is e)
    h.check('the value is set', same_value(h, e.get_params(deep=False)[n], v))
    ck_calls(h, 'after set_params', run_it(h, calls, e, kind), want)
    h.reach('set')


def transformer(h, c):
    T = h.load('convst.transformers._input_transformers')
    t = c['t']
    n, p = (('Raw', {}), ('Z_normalizer', {}), ('Derivate', {'order': 1, 'random': False}),
            ('Periodigram', {'window_type': 'hann', 'random': False}),
            ('FastHankelTransform', {'dln': 0.5, 'mu': 0.25, 'offset': 0.125, 'bias': 0.25, 'use_optimal_offset': False}),
            ('FastHankelTransform', {'dln': 0.25, 'mu': 2, 'offset': 0.0, 'bias': 0.5, 'use_optimal_offset': True}),
            ('R', {}))[t]
    if n == 'Derivate':
        p['order'] = 1 + h.choose('order', 4)
    elif n == 'Periodigram':
        p['window_type'] = ('hann', 'boxcar', 'parzen')[h.choose('window', 3)]
    if n == 'R':
        # scalers
        X = h.np.asarray([[0.0, 1.0, 3.0], [2.0, 1.0, 1.0]])
        for s in ('c_StandardScaler', 'c_MinMaxScaler'):
            a = getattr(T, s)()
            b = copied(h, a.fit(X))
            h.ck_arr(s, b.fit(X).transform(X), h.elems(a.transform(X)), tuple(a.transform(X).shape))
        h.reach('scaler')
        return
    C = getattr(T, n)
    a = C(**p)
    g = a.get_params()
    for k, v in p.items():
        h.check('parameter %s' % k, k in g and same_value(h, g[k], v))
    X = h.reals('x', (2, 1, 7), -100, 100)
    r = a.fit(X)
    h.check('fit returns the transformer', r is a)
    h.check('fit leaves the parameters', same_params(h, a.get_params(), g))
    b = copied(h, a)
    h.check('clone has the same parameters', same_params(h, b.get_params(), g))
    A, B = a.transform(X), b.fit(X).transform(X)
    h.ck_arr('clone transforms alike', B, h.elems(A), tuple(A.shape))
    d = C().set_params(**p)
    D = d.fit(X).transform(X)
    h.ck_arr('set_params', D, h.elems(A), tuple(A.shape))
    h.reach(n)
