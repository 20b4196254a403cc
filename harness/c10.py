"""C10: reproducibility and absence of memory between fits."""
from harness.fitlib import big, cfg, estimator, script
from harness.util import batch, semi_series, sym_series

U, V, M, W = 'univariate', 'univariate_variable', 'multivariate', 'multivariate_variable'
BOUNDS = 'training sets of 1-3 series of 3-6 points and 1-2 channels, one shapelet per fit, with and without sample ' \
         'subsetting, relative lengths, prime dilations, each pair of data kinds for consecutive fits; ensembles of two ' \
         'members fitted in both orders; every draw of the seeded generators; contents arbitrary reals (fixed in the classifiers\' data)'
OUTSIDE = 'numba\'s generator is per thread: the claim is for one thread (numba seeds the calling thread only); ' \
          'R_DST_Ridge and ensemble weights come from scikit-learn, assumed deterministic'


def configs(tier):
    z = dict(proba_norm=0.0)
    out = []
    for kind, lens, nch in ((U, [3, 3], 1), (V, [3, 4], 1), (M, [3, 3], 2), (W, [3, 4], 2)):
        out.append(dict(cfg(kind, lens, [0, 1], 1, [2, 3], nch, **z), mode='twice'))
        out.append(dict(cfg(kind, lens + [3], [0, 1, 1], 1, [3], nch, n_samples=0.67, **z), mode='twice'))
        out.append(dict(cfg(kind, [3, 3] if kind in (U, M) else [3, 4], [0, 1], 1, [3], nch, n_samples=1.5, **z), mode='twice'))
        out.append(dict(cfg(kind, [4, 4] if kind in (U, M) else [4, 5], [0, 1], 1, [2], nch, prime_dilations=True, **z),
                        mode='twice'))
        out.append(dict(cfg(kind, lens, [0, 0], 1, [3], nch, proba_norm=0.5), mode='twice'))
    sets = {U: ([4, 4], 1), V: ([3, 5], 1), M: ([3], 2), W: ([4, 3], 2)}
    for a in (U, V, M, W):
        for b in (U, V, M, W):
            if (len(sets[a][0]) + len(sets[b][0])) > 5:
                continue
            out.append(dict(cfg(b, sets[b][0], [0, 1][:len(sets[b][0])], 1, [0.75] if a != b else [3], sets[b][1],
                                n_samples=0.67 if a == b and len(sets[b][0]) == 3 else None, **z),
                            mode='refit', first=cfg(a, sets[a][0], [1, 0][:len(sets[a][0])], 1, None, sets[a][1])))
    # the previous data set is longer, shorter, has more channels
    for first, second in (((U, [6], 1), (U, [4], 1)), ((U, [4], 1), (U, [6], 1)), ((V, [5, 3], 1), (V, [4, 6], 1)),
                          ((V, [4, 6], 1), (V, [3, 5], 1)), ((M, [4], 2), (M, [3], 3)), ((M, [3], 3), (M, [4], 2)),
                          ((W, [5], 3), (W, [3], 2)), ((W, [3], 2), (W, [5], 3))):
        out.append(dict(cfg(second[0], second[1], [0] * len(second[1]), 1, [0.75], second[2], **z), mode='refit',
                        first=cfg(first[0], first[1], [0] * len(first[1]), 1, None, first[2])))
        out.append(dict(cfg(second[0], second[1], [0] * len(second[1]), 1, [3], second[2],
                            shapelet_lengths_bounds=[0.5, 1.0], lengths_bounds_reduction=0.0, **z), mode='refit',
                        first=cfg(first[0], first[1], [0] * len(first[1]), 1, None, first[2])))
    for c in ('ridge', 'ensemble'):
        for kind, lens, nch in ((U, [4, 4], 1), (V, [4, 3], 1), (M, [3, 3], 2)):
            out.append(dict(cfg(kind, lens, [0, 1], 1, [3], nch), mode=c))
    # larger sets: most of the contents and all draws fixed
    sc = range(2) if tier == 'quick' else range(6)
    bigs = big(sc)
    for i, b in enumerate(bigs):
        out.append(dict(b, mode='twice'))
        f = bigs[(i + 1 + 3 * (i % 2)) % len(bigs)]
        out.append(dict(b, mode='refit', first=f))
    return out


def series_of(h, c, tag):
    if c.get('semi'):
        return [semi_series(h, '%s%d' % (tag, i), n, c['nch'], c['semi']) for i, n in enumerate(c['lens'])]
    return [sym_series(h, '%s%d' % (tag, i), n, c['nch']) for i, n in enumerate(c['lens'])]


def disturb(h, k):
    """something else used the global generators meanwhile"""
    r = h.np.random
    r.seed(4000 + k)
    r.rand()
    h.w.ctx.append(False)
    try:
        r.seed(5000 + k)
    finally:
        h.w.ctx.pop()


def same_model(h, what, a, b):
    sa, sb = a.shapelets_, b.shapelets_
    h.check(what + ': structure', len(sa) == len(sb))
    for i, (p, q) in enumerate(zip(sa, sb)):
        h.check('%s: array %d has the same shape' % (what, i), tuple(p.shape) == tuple(q.shape))
        h.ck_list('%s: array %d' % (what, i), h.elems(p), h.elems(q))


def members(h, e):
    R = h.load('convst.transformers').R_DST
    out = []
    for m in e.models:
        ts = [t for _, t in m.steps if isinstance(t, R)]
        if len(ts) != 1:
            h.unsupported('structure of the members')
        out.append(ts[0])
    return out


def ens(h, c, seed):
    E = h.load('convst.classifiers').R_DST_Ensemble
    T = h.load('convst.transformers._input_transformers')
    return E(n_shapelets_per_estimator=1, shapelet_lengths=[3], proba_norm=[0.0, 0.0],
             input_transformers=[T.Raw(), T.Raw()], random_state=seed, alphas_ridge=[1.0])


def fits(h, e, X, y):
    st, v = h.call(e.fit, X, y)
    if st == 'exc' and '0 sample(s) or feature(s)' in str(v):
        h.reach('degenerate')   # every feature is constant: nothing to train on
        return False
    if st == 'exc':
        raise v
    return True


def run(h, c):
    np = h.np
    y = np.asarray(c['y'])
    S = series_of(h, c, 'x')
    if c.get('script') is not None:
        script(h, c['script'])
    if c['mode'] in ('ridge', 'ensemble'):
        h.w.pin_ridge = True
        S = [[[float((5 * i + 3 * k + 2 * t * t + t) % 11) for t in range(n)] for k in range(c['nch'])]
             for i, n in enumerate(c['lens'])]

    def X():
        return batch(h, c['kind'], S)
    if c['mode'] == 'twice':
        disturb(h, 0)
        a = estimator(h, c)
        a.fit(X(), y)
        disturb(h, 1)
        b = estimator(h, c)
        b.fit(X(), y.copy())
        same_model(h, 'same seed', a, b)
        disturb(h, 2)
        a.fit(X(), y)
        same_model(h, 'same estimator again', a, b)
    elif c['mode'] == 'refit':
        f = c['first']
        F = batch(h, f['kind'], series_of(h, f, 'p'))
        a = estimator(h, c)
        h.pinned = True
        a.fit(F, np.asarray(f['y']))
        a.transform(F)
        h.pinned = False
        disturb(h, 1)
        a.fit(X(), y)
        b = estimator(h, c)
        disturb(h, 2)
        b.fit(X(), y)
        same_model(h, 'refit', a, b)
        h.pinned = True
        ta, tb = a.transform(X()), b.transform(X())
        h.pinned = False
        h.ck_arr('refit transform', ta, h.elems(tb), tuple(tb.shape))
    elif c['mode'] == 'ridge':
        C = h.load('convst.classifiers').R_DST_Ridge
        kw = dict(n_shapelets=1, shapelet_lengths=c['lengths'], proba_norm=0.0, random_state=3, alphas_ridge=[1.0])
        a, b = C(**kw), C(**kw)
        if not fits(h, a, X(), y):
            return
        disturb(h, 1)
        b.fit(X(), y)
        same_model(h, 'ridge', a.transformer, b.transformer)
        disturb(h, 2)
        a.fit(X(), y)
        same_model(h, 'ridge again', a.transformer, b.transformer)
    else:
        a = ens(h, c, 7)
        if not fits(h, a, X(), y):
            return
        h.w.schedule = 'reverse'
        disturb(h, 1)
        b = ens(h, c, 7)
        b.fit(X(), y)
        h.w.schedule = 'forward'
        ma, mb = members(h, a), members(h, b)
        h.check('members', len(ma) == 2 and len(mb) == 2)
        for i in range(2):
            same_model(h, 'member %d' % i, ma[i], mb[i])
        h.check('own seeds', ma[0].random_state is not None and ma[0].random_state != ma[1].random_state)
    h.reach(c['mode'])
