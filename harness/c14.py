"""C14: parameters reach generation, transform and classifiers."""
from harness.capture import get, record
from harness.fitlib import script
from harness.util import KINDS, batch

U, V, M, W = KINDS
BOUNDS = 'every real alpha and proba_norm in [0, 1], every pair of percentiles in [0, 100], every integer n_shapelets, ' \
         'length (2-6), max_channels and min_len, both values of every switch, several seeds; data sets of 2-4 series of ' \
         '6-8 points with fixed distinct contents; every draw of the sample subset; also 12-22 series ' \
         'of 3-4 classes and 6 members, one outcome of the draws each'
OUTSIDE = 'scikit-learn\'s own fitting; subset sizes given by other libraries\' stratification'


def configs(tier):
    out = []
    for kind in KINDS:
        for ns in (None, 0.5, 1.0, 1.5):
            out.append({'m': 'rdst', 'kind': kind, 'ns': ns, 'lens': [6, 6, 6, 6] if ns in (0.5, 1.0) else [6, 6]})
        if kind in (V, W):
            out.append({'m': 'rdst', 'kind': kind, 'ns': 0.75, 'lens': [8, 7, 6, 9]})
            out.append({'m': 'rdst', 'kind': kind, 'ns': 0.4, 'lens': [8, 7, 6, 9, 6]})
            out.append({'m': 'rdst', 'kind': kind, 'ns': 1.5, 'lens': [8, 6]})
    for kind in KINDS:
        out.append({'m': 'bounds', 'kind': kind, 'lens': [7, 7]})
        for ns in (None, 0.67):
            out.append({'m': 'ridge', 'kind': kind, 'ns': ns, 'lens': [6, 8, 7] if kind in (V, W) else [6, 6, 6]})
            out.append({'m': 'ensemble', 'kind': kind, 'ns': ns, 'lens': [7, 9, 8] if kind in (V, W) else [7, 7, 7]})
        out.append({'m': 'ensemble', 'kind': kind, 'ns': None, 'nm': 4, 'lens': [7, 9, 8] if kind in (V, W) else [7, 7, 7]})
        # more series, classes and members; one outcome of the draw of the subset
        ls = [8 + (i * i) % 6 for i in range(22)] if kind in (V, W) else [9] * 22
        for ns in (None, 0.6, 1.5):
            out.append({'m': 'rdst', 'kind': kind, 'ns': ns, 'lens': ls, 'K': 4, 'script': 'a'})
            out.append({'m': 'ridge', 'kind': kind, 'ns': ns, 'lens': ls[:13], 'K': 3, 'script': 'b'})
            out.append({'m': 'ensemble', 'kind': kind, 'ns': ns, 'nm': 6, 'lens': ls[:12], 'K': 3, 'script': 'c'})
    return out


def make(h, kind, lens, tag=0):
    nch = 2 if kind in (M, W) else 1
    return [[[float(100 * i + 1000 * tag + 10 * k + t * t % 7 + t) for t in range(n)] for k in range(nch)]
            for i, n in enumerate(lens)]


def features(h):
    """features that identify the series they were computed from"""
    def f(call):
        np = h.np
        X = get(h, call, 'X')
        rows = []
        for i in range(X.shape[0]):
            e = [float(v) for v in h.elems(X[i])]
            s = sum((j + 1) * v for j, v in enumerate(e))
            rows.append([s, s % 89 + i, s * s % 97 + i, 7.0, s % 31 + 2 * i, s % 53 + 3 * i])
        call['raw'] = np.asarray(rows)
        return np.asarray(rows)
    return f


#: values of (phase, prime, fit_intercept, normalize_output): every pair of switches in all combinations
OPTS = ((0, 0, 0, 0), (0, 1, 1, 1), (1, 0, 1, 1), (1, 1, 0, 1), (1, 1, 1, 0))


def expected(h, call, S, no):
    """the features after normalize_output"""
    out = []
    for i, row in enumerate(call['raw']):
        r = [float(v) for v in h.elems(row)]
        n = len(S[i][0])
        out.append([v / n if no and j % 3 else v for j, v in enumerate(r)])
    return out


def params(h, c):
    """the user's parameters: (R_DST names, expected fitter arguments)"""
    p0 = h.real('p0', 0, 100)
    p1 = h.real('p1', 0, 100)
    h.assume(h.le(p0, p1, exact=True))
    o = OPTS[h.choose('opt', 2 if c.get('ns') else len(OPTS))]
    seed = [0, 42][o[0]]
    p = dict(n_shapelets=h.int('k', 1, 50), alpha=h.real('alpha', 0, 1), percentiles=[p0, p1],
             phase_invariance=bool(o[0]), prime_dilations=bool(o[1]), normalize_output=bool(o[3]),
             shapelet_lengths=[3, 5] if 'script' in c else [h.int('l0', 2, 6), h.int('l1', 2, 6)], random_state=seed, n_samples=c.get('ns'))
    if c['kind'] in (V, W) and o[2]:
        p['min_len'] = 7 if 'script' in c else h.int('min_len', 6, 6 + min(c['lens']) - 6)
    return p, o


def ck_generation(h, w, c, call, p, pn, n_len, max_channels=None):
    a = call['args']
    h.check(w + 'kind', call['kind'] == c['kind'])
    h.check(w + 'n_shapelets', h.eq(get(h, call, 'n_shapelets'), p['n_shapelets']))
    h.check(w + 'alpha', h.ident(get(h, call, 'alpha'), p['alpha']))
    h.check(w + 'proba_norm', h.ident(get(h, call, 'p_norm'), pn))
    h.check(w + 'percentiles', h.and_(h.ident(get(h, call, 'p_min'), p['percentiles'][0]),
                                      h.ident(get(h, call, 'p_max'), p['percentiles'][1])))
    h.check(w + 'phase invariance', bool(get(h, call, 'use_phase')) == p['phase_invariance'])
    h.check(w + 'prime dilations', bool(get(h, call, 'prime_scheme')) == p['prime_dilations'])
    if n_len is not None:
        h.ck_list(w + 'lengths', h.elems(get(h, call, 'shapelet_sizes')), p['shapelet_lengths'])
    if c['kind'] in (V, W):
        ml = p.get('min_len')
        h.check(w + 'min_len', h.eq(get(h, call, 'min_len'), min(c['lens']) - c.get('cut', 0) if ml is None else ml))
    if c['kind'] in (M, W):
        h.check(w + 'max_channels', h.eq(get(h, call, 'max_channels'), 2 if max_channels is None else max_channels))


def ck_rows(h, w, c, call, S, y, ns):
    """X, y (and lengths) of the generation are matching rows of the data"""
    X, yy = get(h, call, 'X'), [int(v) for v in h.elems(get(h, call, 'y'))]
    N = len(S)
    want = N if ns is None or ns == 1.0 else int(N * ns)
    h.check(w + '%d rows' % want, len(X) == want and len(yy) == want)
    L = [int(v) for v in h.elems(get(h, call, 'X_len'))] if c['kind'] in (V, W) else None
    ids = []
    for r in range(len(X)):
        hit = None
        for i, s in enumerate(S):
            n = len(s[0])
            if all([float(v) for v in h.elems(X[r, k])][:n] == row for k, row in enumerate(s)):
                hit = i
        h.check(w + 'row %d is a training series' % r, hit is not None)
        if hit is None:
            return
        ids.append(hit)
        h.check(w + 'label of row %d' % r, yy[r] == y[hit])
        if L is not None:
            h.check(w + 'length of row %d' % r, L[r] == len(S[hit][0]))
    if ns is None or ns == 1.0:
        h.check(w + 'all rows in order', ids == list(range(N)))
    elif ns < 1:
        h.check(w + 'distinct rows', len(set(ids)) == len(ids))


def ck_seed(h, w, calls, call, seed, X, y):
    """the seed is the one of a plain R_DST with the same random_state"""
    R = h.load('convst.transformers').R_DST
    R(n_shapelets=1, shapelet_lengths=[3], random_state=seed).fit(X, y)
    h.check(w + 'seed', int(get(h, calls.pop(), 'r_seed')) == int(get(h, call, 'r_seed')))


def ck_transform(h, w, c, call, fit, p, S):
    h.check(w + 'is a transform', call['what'] == 'transform')
    h.check(w + 'of the same kind', call['kind'] == c['kind'])
    h.check(w + 'uses the fitted shapelets', get(h, call, 'shapelets') is fit['out'])
    h.check(w + 'uses the same phase setting', bool(get(h, call, 'use_phase')) == p['phase_invariance'])
    X = get(h, call, 'X')
    h.check(w + 'on all series', len(X) == len(S))
    for i, s in enumerate(S[:len(X)]):
        for k, row in enumerate(s):
            h.ck_list(w + 'series %d channel %d' % (i, k), h.elems(X[i, k])[:len(row)], row)
    if c['kind'] in (V, W):
        h.ck_list(w + 'lengths', h.elems(get(h, call, 'X_len')), [len(s[0]) for s in S])


def shift(S, i):
    """the representation the i-th member sees"""
    return [[[v + 3.0 * i for v in row] for row in s] for s in S]


def run(h, c):
    np = h.np
    kind = c['kind']
    N = len(c['lens'])
    S = make(h, kind, c['lens'])
    yl = [i % c.get('K', 2) for i in range(N)]
    if 'script' in c:
        script(h, c['script'])
    X, y = batch(h, kind, S), np.asarray(yl)
    Z = make(h, kind, c['lens'], 1)
    calls = record(h, features(h))
    h.w.pin_ridge = True
    h.w.semi_lib = 30 if 'script' in c else 0
    if c['m'] in ('rdst', 'bounds'):
        R = h.load('convst.transformers').R_DST
        p, o = params(h, c)
        pn = h.real('pn', 0, 1)
        mc = None
        kw = dict(p)
        if kind in (M, W) and o[2]:
            mc = kw['max_channels'] = h.int('mc', 1, 2)
        if c['m'] == 'bounds':
            kw.update(shapelet_lengths_bounds=[3, 5], lengths_bounds_reduction=0.0)
            p['shapelet_lengths'] = [3, 4, 5]
        est = R(proba_norm=pn, **kw)
        est.fit(X, y)
        f = calls[0]
        ck_generation(h, '', c, f, p, pn, True, mc)
        ck_rows(h, '', c, f, S, yl, c.get('ns'))
        out = est.transform(batch(h, kind, Z))
        for i, row in enumerate(expected(h, calls[1], Z, o[3])):
            h.ck_list('normalize_output row %d' % i, h.elems(out[i]), row)
        ck_transform(h, 'transform ', c, calls[1], f, p, Z)
        h.check('two calls', len(calls) == 2)
        h.reach('rdst')
        return
    p, o = params(h, c)
    alphas = [[0.5], [1.0]][o[1]]
    fi = bool(o[2])
    cw = [None, 'balanced'][o[0]]
    T = h.load('convst.transformers._input_transformers')
    if c['m'] == 'ridge':
        pn = h.real('pn', 0, 1)
        C = h.load('convst.classifiers').R_DST_Ridge
        est = C(proba_norm=pn, alphas_ridge=alphas, fit_intercept=fi, class_weight=cw, **p)
        est.fit(X, y)
        members = [(calls[0], calls[1], pn, S)]
        ck_seed(h, 'ridge ', calls, calls[0], p['random_state'], X, y)
    else:
        nm = c.get('nm', 2)
        pn = [h.real('pn%d' % i, 0, 1) for i in range(nm)]
        C = h.load('convst.classifiers').R_DST_Ensemble
        q = dict(p)
        q['n_shapelets_per_estimator'] = q.pop('n_shapelets')
        q['shp_alpha'] = q.pop('alpha')
        raw = T.Raw()

        class Plus(object):
            """a further input representation"""
            def __init__(self, k=1):
                self.k = k

            def fit(self, X, y=None):
                return self

            def transform(self, X):
                return [x + 3.0 * self.k for x in X] if isinstance(X, list) else X + 3.0 * self.k
        mc = None
        if kind in (M, W) and o[2]:
            mc = q['max_channels'] = h.int('mc', 1, 2)
        est = C(proba_norm=np.asarray(pn, dtype=float), alphas_ridge=alphas, fit_intercept=fi, class_weight=cw,
                input_transformers=[raw] + [Plus(i) for i in range(1, nm)], **q)
        est.fit(X, y)
        fits = [k for k in calls if k['what'] == 'fit']
        trs = [k for k in calls if k['what'] == 'transform']
        h.check('%d members' % nm, len(fits) == nm and len(trs) == nm)
        members = [(fits[i], trs[i], pn[i], shift(S, i)) for i in range(nm)]
        seeds = [int(get(h, f, 'r_seed')) for f in fits]
        h.check('own seeds', len(set(seeds)) == nm)
    rf = h.w.recs('ridge.fit')
    h.check('one ridge per member', len(rf) == len(members))
    for i, (f, t, pni, Si) in enumerate(members):
        w = 'member %d: ' % i
        ck_generation(h, w, c, f, p, pni, True, mc if c['m'] == 'ensemble' else None)
        ck_rows(h, w, c, f, Si, yl, c.get('ns'))
        ck_transform(h, w + 'training transform ', c, t, f, p, Si)
        r = rf[i]
        h.ck_list(w + 'training labels', h.elems(r['y']), yl)
        e = r['est']
        h.ck_list(w + 'alphas', list(e.alphas), alphas)
        h.check(w + 'fit_intercept', bool(e.fit_intercept) == fi)
        h.check(w + 'class_weight', e.class_weight == cw)
        scaled(h, w + 'training features ', c, r['X'], expected(h, t, Si, o[3]), expected(h, t, Si, o[3]))
    n = len(calls)
    out = est.predict(batch(h, kind, Z))
    h.check('one label per series', len(out) == N)
    dec = h.w.recs('ridge.decision')
    new = calls[n:]
    h.check('one transform per member', len(new) == len(members) and len(dec) == len(members))
    for i, (f, t, _, Si) in enumerate(members):
        Zi = shift(Z, i)
        ck_transform(h, 'predict %d: ' % i, c, new[i], f, p, Zi)
        scaled(h, 'predict %d: features ' % i, c, dec[i]['X'], expected(h, new[i], Zi, o[3]), expected(h, t, Si, o[3]))
    h.reach(c['m'])


def scaled(h, w, c, got, feats, train):
    """got: standardised features; the training statistics are those of train"""
    np = h.np
    if c['m'] == 'ridge':
        cols = [0, 1, 2, 4, 5]    # the constant column is dropped
    else:
        cols = [0, 1, 2, 3, 4, 5]
    h.check(w + 'columns', tuple(got.shape) == (len(feats), len(cols)))
    for j, k in enumerate(cols):
        tr = [r[k] for r in train]
        m = sum(tr) / len(tr)
        s = (sum((v - m) ** 2 for v in tr) / len(tr)) ** 0.5
        s = s if s > 1e-9 else 1.0
        h.ck_list(w + 'column %d' % k, h.elems(got[:, j]), [(r[k] - m) / s for r in feats])
