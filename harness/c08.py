"""C08: neither padding nor the rest of the batch influences a series."""
from harness.util import ck_same_features, out_features, fitted, batch, sym_shapelet, sym_series, semi_series, semi_shapelet

BOUNDS = 'batches of 2-3 series with 3-6 points (thorough 8) in any order of lengths, 1-2 channels, sets of 2-3 ' \
         'shapelets, list and object-array containers; series, shapelet values and thresholds arbitrary reals. Also batches ' \
         'of up to 8 series, 6 shapelets, 130 points of fixed contents but for one arbitrary value per series, channel and ' \
         'shapelet'
SCALED = True
NARROW = True
OUTSIDE = 'longer series, larger batches and sets; NaN and infinities'


def configs(tier):
    U = [(2, 1, 0, [0]), (3, 1, 1, [0]), (2, 2, 0, [0])]
    M = [(2, 1, 0, [1]), (3, 1, 1, [1, 0]), (2, 2, 0, [0])]
    L = [[4, 3], [3, 5, 4], [5, 3, 3]]
    if tier == 'thorough':
        L += [[3, 8, 4], [6, 5, 3, 4]]
    out = []
    for ph in (False, True):
        for lens in L:
            out.append({'what': 'batch', 'kind': 'univariate_variable', 'lens': lens, 'shp': U, 'phase': ph})
            out.append({'what': 'batch', 'kind': 'multivariate_variable', 'lens': lens, 'shp': M, 'phase': ph})
        for n in (4, 5) if tier == 'quick' else (4, 5, 7):
            out.append({'what': 'equal', 'a': 'univariate', 'b': 'univariate_variable', 'n': n, 'shp': U, 'phase': ph})
            out.append({'what': 'equal', 'a': 'multivariate', 'b': 'multivariate_variable', 'n': n, 'shp': M, 'phase': ph})
            out.append({'what': 'equal', 'a': 'univariate', 'b': 'multivariate', 'n': n, 'shp': U, 'phase': ph})
            out.append({'what': 'equal', 'a': 'univariate_variable', 'b': 'multivariate_variable', 'n': n, 'shp': U,
                        'phase': ph})
    # fixed contents but for one arbitrary value per series, channel and shapelet
    big = [(2, 11, 0, [1]), (3, 1, 0, [0]), (2, 3, 0, [1, 0]), (3, 2, 1, [0]), (3, 2, 1, [1]), (3, 2, 0, [0, 1])]
    for kind in ('univariate_variable', 'multivariate_variable'):
        for ph in (False, True):
            out.append({'what': 'batch', 'kind': kind, 'lens': [4, 5, 3, 7, 4, 5, 6, 3], 'shp': U if kind[0] == 'u' else M,
                        'phase': ph, 'semi': 1})
            out.append({'what': 'batch', 'kind': kind, 'lens': [13, 12, 15], 'shp': big, 'phase': ph, 'semi': 1})
        out.append({'what': 'batch', 'kind': kind, 'lens': [130, 5], 'shp': U[:1], 'phase': False, 'semi': 1})
    for ph in (False, True):
        for a, b in (('univariate', 'univariate_variable'), ('multivariate', 'multivariate_variable'),
                     ('univariate', 'multivariate'), ('univariate_variable', 'multivariate_variable')):
            out.append({'what': 'equal', 'a': a, 'b': b, 'n': 13, 'm': 5, 'shp': [(l, d, nm, [0]) for l, d, nm, _ in big]
                        if a[0] != b[0] else big, 'phase': ph, 'semi': 1})
    out.append({'what': 'format'})
    return out


def run(h, cfg):
    globals()['run_' + cfg['what']](h, cfg)
    h.reach(cfg['what'])


def contents(cfg):
    return (semi_series, semi_shapelet) if cfg.get('semi') else (sym_series, sym_shapelet)


def run_batch(h, cfg):
    kind, ph = cfg['kind'], cfg['phase']
    multi = kind.startswith('multi')
    nch = 2 if multi else 1
    ser, shl = contents(cfg)
    series = [ser(h, 'x%d' % i, n, nch) for i, n in enumerate(cfg['lens'])]
    shps = [shl(h, 's%d' % i, l, d, bool(nm), ch if multi else None)
            for i, (l, d, nm, ch) in enumerate(cfg['shp'])]
    est = fitted(h, kind, shps, ph, n_ch=nch)
    F = est.transform(batch(h, kind, series))
    h.check('rows', F.shape[0] == len(series))
    for i, x in enumerate(series):
        G = est.transform(batch(h, kind, [x]))
        ck_same_features(h, 'series %d alone' % i, h.elems(F[i]), h.elems(G[0]), shps, x, ph)
    # another container and another order of the same series
    np = h.np
    o = np.empty(len(series), dtype=object)
    for i, x in enumerate(reversed(series)):
        o[i] = np.asarray(x, dtype=float)
    G = est.transform(o)
    for i in range(len(series)):
        ck_same_features(h, 'series %d in a reversed object array' % i, h.elems(F[i]),
                         h.elems(G[len(series) - 1 - i]), shps, series[i], ph)
    out_features(h, F, shps)


def run_equal(h, cfg):
    a, b, n, ph = cfg['a'], cfg['b'], cfg['n'], cfg['phase']
    ma, mb = a.startswith('multi'), b.startswith('multi')
    nch = 2 if ma else 1
    ser, shl = contents(cfg)
    series = [ser(h, 'x%d' % i, n, nch) for i in range(cfg.get('m', 2))]
    base = [shl(h, 's%d' % i, l, d, bool(nm), ch if ma else None)
            for i, (l, d, nm, ch) in enumerate(cfg['shp'])]
    e1 = fitted(h, a, base, ph, n_ch=nch)
    if mb and not ma:
        other = [dict(s, v=[s['v']], ch=[0]) for s in base]
        e2 = fitted(h, b, other, ph, n_ch=2)
    else:
        e2 = fitted(h, b, base, ph, n_ch=nch)
    F = e1.transform(batch(h, a, series))
    G = e2.transform(batch(h, b, series))
    h.check('same shape', tuple(F.shape) == tuple(G.shape) == (len(series), 3 * len(base)))
    for i, x in enumerate(series):
        ck_same_features(h, 'same features: series %d' % i, h.elems(F[i]), h.elems(G[i]), base, x, ph)
    out_features(h, F, base)


def run_format(h, cfg):
    """lists whose samples have differing numbers of channels are rejected"""
    np = h.np
    R = h.load('convst.transformers').R_DST
    kind = ['univariate_variable', 'multivariate_variable'][h.choose('kind', 2)]
    est = fitted(h, kind, [dict(v=[[0.0, 1.0]] if kind.startswith('m') else [0.0, 1.0], l=2, d=1, thr=0.0,
                                norm=False, ch=[0])])
    c = [1 + h.choose('c%d' % i, 3) for i in range(3)]
    n = [3 + h.choose('n%d' % i, 2) for i in range(3)]
    X = [np.asarray(sym_series(h, 'x%d' % i, n[i], c[i]), dtype=float) for i in range(3)]
    st, v = h.call(est.transform, X)
    if len(set(c)) > 1:
        h.check('differing channel counts %s rejected' % c, st == 'exc' and isinstance(v, ValueError))
        st, v = h.call(R(n_shapelets=1, shapelet_lengths=[3]).fit, X, np.asarray([0, 1, 1]))
        h.check('differing channel counts %s rejected by fit' % c, st == 'exc' and isinstance(v, ValueError))
    else:
        h.check('equal channel counts accepted', st == 'ok')
    f = getattr(est, '_format_uneven_timestamps', None)
    if f is not None and len(set(c)) == 1:
        r = f(X)
        if isinstance(r, tuple) and len(r) == 2 and getattr(r[0], 'ndim', 0) == 3:
            A, ln = r
            h.ck_arr('true lengths', ln, n, (3,))
            for i in range(3):
                h.ck_list('values of series %d' % i, h.elems(A[i, :, :n[i]]), h.elems(X[i]))
