"""C06: occurrence thresholds."""
from harness.fitlib import big, cfg, fit, sources
from harness.util import dist

BOUNDS = 'training sets of 1-4 series of 3-5 points in 1-3 classes, 1-2 channels, 1-2 shapelets of length 2-3, four data ' \
         'kinds, percentile pairs (5,10), (0,100), (20,80), (50,50); every draw; contents arbitrary reals'
SCALED = True
NARROW = True
OUTSIDE = 'larger training sets; the interpolation inside np.percentile (its documented linear rule is assumed)'


def configs(tier):
    U, V, M, W = 'univariate', 'univariate_variable', 'multivariate', 'multivariate_variable'
    P = [20, 80]
    out = []
    for ph in (False, True):
        q = dict(phase_invariance=ph)
        out += [
            cfg(U, [3, 3, 3], [0, 1, 0], 1, [2], proba_norm=0.0, **q),
            cfg(U, [3, 3, 3], [0, 1, 0], 1, [2], proba_norm=1.0, percentiles=P, **q),
            cfg(V, [3, 4, 5], [1, 1, 0], 1, [2, 3], proba_norm=0.0, percentiles=P, **q),
            cfg(V, [4, 3], [0, 0], 1, [3], proba_norm=1.0, percentiles=[0, 100], **q),
            cfg(M, [3, 3, 3], [0, 1, 0], 1, [2], 2, proba_norm=0.0, percentiles=P, **q),
            cfg(M, [4, 4], [5, 5], 1, [3], 2, proba_norm=1.0, percentiles=P, **q),
            cfg(W, [3, 4, 4], [7, 3, 3], 1, [3], 2, proba_norm=0.0, percentiles=P, **q),
            cfg(W, [4, 3], [1, 1], 1, [3], 2, proba_norm=1.0, max_channels=2, percentiles=[50, 50], **q),
            cfg(U, [3, 3], [2, 2], 2, [3], proba_norm=0.0, percentiles=P, alpha=0.1, **q),
        ]
    out += [
        cfg(U, [3, 3, 3, 3], [0, 0, 0, 1], 1, [3], proba_norm=0.0, percentiles=P),
        cfg(W, [5, 3], [0, 1], 1, [2, 3], 1, transform_type=W, proba_norm=0.0, percentiles=P),
        cfg(M, [4, 4], [0, 0], 1, [2], 1, transform_type=M, proba_norm=0.0, percentiles=P),
    ]
    for k, q in (([3, 3, 3], [60, 90]), ([4, 4], [55, 95])):
        out += [
            cfg(M, k, [0] * len(k), 1, [2], 2, proba_norm=0.0, percentiles=q),
            cfg(W, [k[0] + 1] + k[1:], [0] * len(k), 1, [2], 2, proba_norm=0.0, percentiles=q),
            cfg(U, k, [0] * len(k), 1, [2], proba_norm=0.0, percentiles=q),
            cfg(V, [k[0] + 1] + k[1:], [0] * len(k), 1, [2], proba_norm=0.0, percentiles=q),
        ]
    for kind, nch in ((U, 1), (V, 1), (M, 2), (W, 2)):
        out.append(cfg(kind, [3] * 4 if kind in (U, M) else [3, 4, 3, 3], [2] * 4, 1, [2], nch, proba_norm=0.0,
                       percentiles=P))
    for b in big((0, 1, 2, 3) if tier == 'quick' else range(10)):
        b['p'].pop('n_samples', None)
        out.append(b)
    if tier == 'thorough':
        for ph in (False, True):
            q = dict(phase_invariance=ph)
            out += [
                cfg(U, [4, 4, 4, 4], [0, 1, 0, 1], 1, [2, 3], percentiles=P, **q),
                cfg(V, [3, 5, 4, 3], [0, 1, 0, 1], 1, [2, 3], percentiles=P, **q),
                cfg(M, [4, 4, 4], [0, 0, 0], 1, [3], 2, percentiles=P, **q),
                cfg(W, [4, 5, 3], [0, 0, 0], 1, [3], 2, percentiles=P, **q),
                cfg(U, [7, 7], [0, 0], 1, [3], percentiles=P, **q),
                cfg(V, [6, 7], [0, 0], 1, [3], percentiles=P, **q),
            ]
    return out


def run(h, c):
    ph = bool(c['p'].get('phase_invariance'))
    np = h.np
    y = c['y']
    pc = c['p'].get('percentiles', [5, 10])
    series, est, shps = fit(h, c)
    between = {}
    for k, s in enumerate(shps):
        def inside(j):
            D = dist(h, s, series[j], ph)
            a, b = [h.elems(np.percentile(np.asarray(D, dtype=float), [q]))[0] for q in pc]
            t = s['thr']
            return h.or_(h.and_(h.le(a, t), h.le(t, b)), h.and_(h.le(b, t), h.le(t, a)))
        ok = []
        for i, t, con in sources(h, c, series, s, ph):
            others = [j for j in range(len(y)) if y[j] == y[i] and j != i] or [i]
            for j in others:
                if (k, j) not in between:
                    between[k, j] = inside(j)
            ok.append(h.and_(con, h.or_(*[between[k, j] for j in others])))
        h.check('shapelet %d: threshold between the percentiles for a series of its class' % k,
                h.or_(*ok) if ok else False)
    if shps:
        h.reach('kept')
    h.out('thr', est.shapelets_[3]) if c['p'].get('proba_norm') == 0.0 else None
