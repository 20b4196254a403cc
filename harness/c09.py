"""C09: phase invariance."""
from harness.util import fitted, batch, dist, ck_features, sym_shapelet, sym_series, semi_series, semi_shapelet

BOUNDS = 'series of 3-6 points (thorough 8), every rotation, single shapelets of length 2-4 with dilations 1-5, 1-4 ' \
         'channels, the four data kinds; series, shapelet values and thresholds arbitrary reals. Also 11-20 points, lengths ' \
         'to 10, dilations to 12, of fixed contents but for one arbitrary value per channel and shapelet, any threshold'
SCALED = True
OUTSIDE = 'longer series; float rounding, NaN and infinities'


def configs(tier):
    U = [(4, (2, 1, 0)), (4, (3, 1, 1)), (5, (3, 2, 0)), (5, (2, 3, 1)), (6, (2, 5, 0)), (6, (4, 1, 0)), (3, (3, 1, 0))]
    if tier == 'thorough':
        U += [(7, (3, 3, 0)), (7, (4, 2, 1)), (8, (2, 1, 0))]
    out = []
    for n, s in U:
        for kind in ('univariate', 'univariate_variable', 'multivariate', 'multivariate_variable'):
            out.append({'what': 'rotate', 'kind': kind, 'n': n, 'shp': s})
            if n <= 5 and (s[0] - 1) * s[1] < n:
                out.append({'what': 'off', 'kind': kind, 'n': n, 'shp': s})
    for n, s in ((13, (3, 4, 0)), (13, (2, 12, 0)), (12, (5, 2, 1)), (16, (4, 5, 0)), (11, (10, 1, 0)), (20, (3, 1, 0))):
        for kind in ('univariate', 'univariate_variable', 'multivariate', 'multivariate_variable'):
            for what in ('rotate', 'off'):
                out.append({'what': what, 'kind': kind, 'n': n, 'shp': s, 'semi': 1, '_w': n * (what == 'rotate')})
    return out


def run(h, cfg):
    kind, n = cfg['kind'], cfg['n']
    l, d, nm = cfg['shp']
    multi = kind.startswith('multi')
    nch = (4 if cfg.get('semi') and n % 2 else 2) if multi else 1
    ser, shl = (semi_series, semi_shapelet) if cfg.get('semi') else (sym_series, sym_shapelet)
    x = ser(h, 'x', n, nch)
    s = shl(h, 's', l, d, bool(nm), ([3, 0, 2] if nch == 4 else [1, 0]) if multi else None)
    on = cfg['what'] == 'rotate'
    est = fitted(h, kind, [s], on, n_ch=nch)
    F = [f for f in h.elems(est.transform(batch(h, kind, [x]))[0])]
    D = dist(h, s, x, on)
    ck_features(h, 'plain', F, D, s['thr'], exact=not s['norm'])
    if not on:
        h.reach('off')
        return
    series = [[c[r:] + c[:r] for c in x] for r in range(1, n)]
    G = est.transform(batch(h, kind, series))
    for r in range(1, n):
        g = h.elems(G[r - 1])
        h.check('rotation %d: minimum' % r, h.eq(g[0], F[0]))
        if h.mode == 'sym' or not s['norm']:
            h.check('rotation %d: occurrences' % r, h.eq(g[2], F[2]))
        # a unique minimum: position i moves to (i - r) mod n
        for i in range(n):
            if h.mode == 'sym':
                uniq = h.and_(*[h.lt(D[i], D[j]) for j in range(n) if j != i])
            else:
                uniq = all(D[i] < D[j] - 1e-6 * (1 + abs(D[j])) for j in range(n) if j != i)
            h.check('rotation %d: position %d' % (r, i), h.implies(uniq, h.eq(g[1], (i - r) % n)))
    h.out('G', G)
    h.reach('rotate')
