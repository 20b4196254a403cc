"""C07: alpha similarity."""
import math
from harness.fitlib import cfg, fit, sources
from harness.util import generic_value

BOUNDS = 'univariate sets of 1-2 series of 4-9 points (equal and variable length), one length of 2-5 points, 2-3 ' \
         'shapelets, alpha in {0.01, 0.25, 0.4, 0.5, 0.7, 1}, every draw of dilations, samples and positions; contents ' \
         'symbolic in disjoint intervals (so that the source of a shapelet can be recognised), fixed in the ' \
         'configurations with normalised shapelets; also 2-3 series of 11-19 points, lengths to 5, up to 14 shapelets, one ' \
         'fixed outcome of the draws per configuration and at most one arbitrary value per series'
OUTSIDE = 'more shapelets per set; several lengths at once; phase invariance (no bound is promised)'


def configs(tier):
    U, V = 'univariate', 'univariate_variable'
    z = dict(proba_norm=0.0)
    out = [
        cfg(U, [6], [0], 2, [3], alpha=0.5, **z),
        cfg(U, [7], [0], 2, [4], alpha=0.25, **z),
        cfg(U, [5], [0], 3, [3], alpha=1.0, **z),
        cfg(U, [4, 4], [0, 0], 2, [3], alpha=0.5, **z),
        cfg(U, [4, 4], [0, 0], 3, [4], alpha=0.7, **z),
        cfg(U, [4], [0], 3, [2], alpha=0.7, **z),
        cfg(U, [8], [0], 2, [5], alpha=0.4, **z),
        cfg(U, [5], [0], 2, [4], alpha=0.01, **z),
        cfg(V, [5, 4], [0, 0], 2, [3], alpha=0.5, **z),
        cfg(V, [3, 6], [0, 0], 2, [3], alpha=1.0, **z),
        cfg(V, [7, 4], [0, 0], 2, [4], alpha=0.25, **z),
        cfg(V, [4, 4], [0, 0], 3, [4], alpha=0.7, **z),
        cfg(U, [5], [0], 2, [3], alpha=0.5, proba_norm=0.5),
        cfg(U, [4], [0], 3, [3], alpha=0.5, proba_norm=0.5),
        cfg(V, [5, 3], [0, 0], 2, [3], alpha=0.5, proba_norm=0.5),
        cfg(V, [6, 5], [0, 0], 2, [4], alpha=0.25, proba_norm=1.0),
    ]
    # longer series and more shapelets, all draws and most of the contents fixed
    for sc in range(6 if tier == 'quick' else 24):
        out += [
            dict(cfg(U, [17, 17], [0, 0], 10, [4], alpha=[0.5, 0.3, 1.0][sc % 3], proba_norm=0.5), script=sc, semi=1),
            dict(cfg(U, [14] * 3, [0, 0, 1], 14, [3], alpha=[0.7, 1.0, 0.4][sc % 3], prime_dilations=True, **z), script=sc, semi=1),
            dict(cfg(V, [13, 19, 15], [0, 0, 0], 12, [5], alpha=[0.2, 0.6, 0.9][sc % 3], **z), script=sc, semi=1),
            dict(cfg(V, [12, 11], [0, 1], 14, [4], alpha=[0.9, 0.5, 0.26][sc % 3], proba_norm=0.5), script=sc, semi=1),
        ]
    if tier == 'thorough':
        out += [
            cfg(U, [9], [0], 2, [3], alpha=0.5, **z),
            cfg(U, [6], [0], 3, [3], alpha=0.5, **z),
            cfg(U, [7], [0], 3, [4], alpha=0.25, **z),
            cfg(U, [5, 5], [0, 0], 3, [4], alpha=0.5, **z),
            cfg(V, [6, 5], [0, 0], 3, [4], alpha=0.5, **z),
            cfg(V, [8, 5], [0, 0], 2, [3], alpha=0.7, **z),
            cfg(U, [6], [0], 3, [3], alpha=0.5, proba_norm=0.5),
            cfg(V, [6, 4], [0, 0], 3, [4], alpha=0.4, proba_norm=0.5),
        ]
    return out


#: values in general position (windows and their shapes are all distinct)
G = [[3.0, 11.0, 5.5, 26.0, 8.0, 47.0, 20.0, 90.0, 14.0], [60.0, 33.0, 71.0, 5.0, 99.0, 41.0, 130.0, 17.0, 77.0]]


def run(h, c):
    L, alpha = c['lengths'][0], c['p']['alpha']
    pn = c['p']['proba_norm']
    if c.get('semi'):
        series = [[[h.real('x%d[%d]' % (i, j), 700, 701) if pn == 0.0 and j == 5 else generic_value('C07', i, j)
                    for j in range(n)]] for i, n in enumerate(c['lens'])]
    elif pn == 0.0:
        series = [[[h.real('x%d[%d]' % (i, j), G[i][j] - 0.1, G[i][j] + 0.1) for j in range(n)]]
                  for i, n in enumerate(c['lens'])]
    else:
        series = [[[G[i][j] for j in range(n)]] for i, n in enumerate(c['lens'])]
    series, est, shps = fit(h, c, series)
    cap = max(1, int(math.floor((1 - alpha) * L)))
    src = [sources(h, c, series, s, False) for s in shps]

    def overlap(t, u, d):
        return len({t + j * d for j in range(L)} & {u + j * d for j in range(L)})
    for a in range(len(shps)):
        for b in range(a):
            s, r = shps[a], shps[b]
            if s['d'] != r['d'] or s['norm'] != r['norm']:
                continue
            ok = []
            for i, t, con in src[a]:
                for j, u, con2 in src[b]:
                    if i != j or overlap(t, u, s['d']) <= cap:
                        ok.append(h.and_(con, con2))
            h.check('shapelets %d and %d share at most %d points' % (b, a, cap), h.or_(*ok) if ok else False)
    if len(shps) < c['k']:
        # some shapelet was dropped: some (dilation, normalisation) must be exhausted
        h.reach('dropped')
        n = min(c['lens'])
        exhausted = []
        for d in range(1, (n - 1) // (L - 1) + 1):
            for nm in ([False] if pn == 0.0 else [True] if pn == 1.0 else [False, True]):
                used = [src[k] for k, s in enumerate(shps) if s['d'] == d and s['norm'] == nm]
                blocked = []
                for i, m in enumerate(c['lens']):
                    for t in range(m - (L - 1) * d):
                        blocked.append(h.or_(*[con for q in used for j, u, con in q
                                               if j == i and overlap(t, u, d) > cap] + [False]))
                exhausted.append(h.and_(*blocked))
        h.check('a shapelet is only dropped when nothing is left', h.or_(*exhausted))
    else:
        h.reach('all kept')
    h.out('n', len(shps))
