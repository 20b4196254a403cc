"""C11: no races in the parallel loops."""
from harness.c04 import pin_positions
from harness.fitlib import big, cfg, estimator, script
from harness.util import batch, fitted, out_features, semi_series, semi_shapelet, sym_series, sym_shapelet

U, V, M, W = 'univariate', 'univariate_variable', 'multivariate', 'multivariate_variable'
BOUNDS = 'fit: 2-3 shapelets of several lengths and dilations on 1-2 series of 5-7 points and 1-2 channels, every draw of ' \
         'lengths and dilations (positions: all of them in the small configurations, first/last in the others); transform: ' \
         '2-3 series, 3-4 shapelets (shared and differing lengths, dilations, normalisation), arbitrary contents; ' \
         'Z_normalizer on 3-9 series, 2 channels. Also fits of 8-9 shapelets and transforms of 5 series with 9 shapelets, mostly ' \
         'fixed contents and one outcome of the draws per configuration. All cell accesses of the iterations are compared, and the loops are run ' \
         'forwards, backwards and with every iteration starting from the state at loop entry'
OUTSIDE = 'numba\'s own code generation (fusion of array expressions) and numba\'s per-thread random state'


def configs(tier):
    z = dict(proba_norm=0.0)
    out = []
    for kind, lens, nch in ((U, [5], 1), (V, [5, 5], 1), (M, [5], 2), (W, [5, 5], 2)):
        out.append(dict(cfg(kind, lens, [0] * len(lens), 2, [3, 2], nch, **z), mode='fit', pin=True))
        out.append(dict(cfg(kind, lens, [0] * len(lens), 2, [3], nch, prime_dilations=True, **z), mode='fit', pin=True))
        out.append(dict(cfg(kind, [5], [0], 2, [3], nch if kind in (M, W) else 1, transform_type=kind,
                            max_channels=1 if kind in (M, W) else None, phase_invariance=True, **z), mode='fit', pin=True))
        out.append(dict(cfg(kind, lens, [0] * len(lens), 2, [3], nch, alpha=1.0,
                            max_channels=1 if kind in (M, W) else None, proba_norm=0.5), mode='fit', pin=True))
        out.append(dict(cfg(kind, [5], [0], 2, [3], nch, transform_type=kind,
                            max_channels=1 if kind in (M, W) else None, **z), mode='fit', pin=False))
        out.append(dict(cfg(kind, [7], [0], 3, [3], nch, transform_type=kind, alpha=0.9,
                            max_channels=1 if kind in (M, W) else None, **z), mode='fit', pin=True))
    for kind in (U, V, M, W):
        multi = kind in (M, W)
        for ph in (False, True):
            for shp in ([(2, 1), (2, 2), (2, 1)], [(2, 2), (3, 1), (2, 2)], [(2, 1), (3, 1)]):
                for norm in ((0, 0, 0), (1, 0, 1)):
                    out.append({'mode': 'transform', 'kind': kind, 'ph': ph, 'norm': norm[:len(shp)],
                                'lens': [3, 3] if kind in (U, M) else [4, 3],
                                'shp': [(l, d, [i % 2, 1 - i % 2][:1 + i % 2] if multi else None)
                                        for i, (l, d) in enumerate(shp)]})
    # more shapelets, series and channels: all draws and most of the contents fixed
    for b in big(range(2 if tier == 'quick' else 6)):
        out.append(dict(b, mode='fit', pin=False))
    shp = [(2, 11), (3, 1), (2, 1), (3, 2), (3, 2), (3, 2), (4, 3), (3, 1), (2, 1)]
    for kind in (U, V, M, W):
        for ph in (False, True):
            out.append({'mode': 'transform', 'kind': kind, 'ph': ph, 'norm': (0, 0, 0, 1, 1, 0, 1, 0, 0), 'semi': 1, '_w': 5,
                        'lens': [13] * 5 if kind in (U, M) else [13, 14, 12, 17, 12],
                        'shp': [(l, d, [[0], [1, 0], [1]][i % 3] if kind in (M, W) else None)
                                for i, (l, d) in enumerate(shp)]})
    out.append({'mode': 'znorm', 'shape': (9, 2, 4)})
    out.append({'mode': 'znorm', 'shape': (3, 2, 3)})
    out.append({'mode': 'znorm', 'shape': (2, 1, 3)})
    if tier == 'thorough':
        for kind, lens, nch in ((U, [6, 6], 1), (V, [6, 7], 1), (M, [6, 6], 2), (W, [6, 7], 2)):
            out.append(dict(cfg(kind, lens, [0, 1], 3, [3, 2], nch, max_channels=1 if kind in (M, W) else None, **z),
                            mode='fit', pin=True))
            out.append(dict(cfg(kind, lens, [0, 0], 2, [3], nch, proba_norm=0.5,
                                max_channels=1 if kind in (M, W) else None), mode='fit', pin=False))
            out.append(dict(cfg(kind, [11], [0], 3, [3, 4], nch, transform_type=kind, alpha=0.9,
                                max_channels=1 if kind in (M, W) else None, **z), mode='fit', pin=True))
    return out


def ck_conflicts(h, n0):
    cf = h.conflicts()
    h.check('no cell is shared between iterations: %s' % (cf[:2],) if cf else 'no cell is shared between iterations',
            not cf)


def schedules(h, fn):
    """fn under the three schedules; the accesses of the last one are logged"""
    out = []
    for sch, tr in (('forward', False), ('reverse', False), ('forward', True)):
        h.w.schedule, h.w.track = sch, tr
        out.append(fn())
    h.w.schedule, h.w.track = 'forward', False
    return out


def run(h, c):
    np = h.np
    if c['mode'] == 'fit':
        series = [[[float((3 * i + 5 * k + t * t + 2 * t) % 17) + 0.25 * t for t in range(m)] for k in range(c['nch'])]
                  for i, m in enumerate(c['lens'])]
        y = np.asarray(c['y'])
        if c['pin']:
            pin_positions(h)
        if c.get('script') is not None:
            script(h, c['script'])

        def fit():
            e = estimator(h, c)
            e.fit(batch(h, c['kind'], series), y)
            return e.shapelets_
        res = schedules(h, fit)
        for nm, r in (('backwards', res[1]), ('isolated', res[2])):
            h.check(nm + ': structure', len(r) == len(res[0]))
            for i, (p, q) in enumerate(zip(res[0], r)):
                h.check('%s: array %d has the same shape' % (nm, i), tuple(p.shape) == tuple(q.shape))
                h.ck_list('%s: array %d' % (nm, i), h.elems(q), h.elems(p))
        h.out('lengths', res[0][1])
    elif c['mode'] == 'transform':
        ser, shl = (semi_series, semi_shapelet) if c.get('semi') else (sym_series, sym_shapelet)
        S = [ser(h, 'x%d' % i, n, 2) for i, n in enumerate(c['lens'])]
        shps = [shl(h, 's%d' % i, l, d, bool(nm), ch)
                for i, ((l, d, ch), nm) in enumerate(zip(c['shp'], c['norm']))]
        est = fitted(h, c['kind'], shps, c['ph'])
        n_ch = 2 if c['kind'].startswith('multi') else 1
        res = schedules(h, lambda: est.transform(batch(h, c['kind'], [s[:n_ch] for s in S])))
        for nm, r in (('backwards', res[1]), ('isolated', res[2])):
            h.ck_arr(nm, r, h.elems(res[0]), tuple(res[0].shape))
        out_features(h, res[0], shps)
    else:
        T = h.load('convst.transformers._input_transformers')
        sh = tuple(c['shape'])
        X = h.reals('x', sh)
        res = schedules(h, lambda: T.Z_normalizer().fit_transform(X.copy()))
        for nm, r in (('backwards', res[1]), ('isolated', res[2])):
            h.ck_arr(nm, r, h.elems(res[0]), sh)
        h.out('z', res[0])
    ck_conflicts(h, 0)
    h.check('a parallel loop was run', True)
    if h.w.loops:
        h.reach('loops')
