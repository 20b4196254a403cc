"""C01: univariate transform."""
from harness.util import out_features, item, fitted, batch, dist, ck_features, sym_shapelet, sym_series, semi_series, semi_shapelet

BOUNDS = 'at most 3 shapelets per set (lengths 2-4, dilations 1-3, mixed normalisation), batches of 1-3 series of ' \
         '3-6 points (thorough: 4 shapelets, up to 8 points), phase on and off, equal and variable length; ' \
         'series, shapelet values and thresholds arbitrary reals. Also up to 8 shapelets (lengths to 21, dilations to 130), ' \
         '7 series, 150 points, of fixed contents but for one arbitrary value per series and shapelet and arbitrary thresholds'
SCALED = True
NARROW = True
OUTSIDE = 'longer series and larger sets; float rounding (fastmath), NaN and infinities'


def configs(tier):
    S = [
        # series lengths, shapelets (l, d, norm)
        ([4, 4], [(2, 1, 0), (2, 1, 1), (3, 1, 0)]),
        ([5, 5], [(3, 1, 0), (2, 2, 0), (3, 2, 0)]),
        ([5], [(3, 2, 1), (2, 2, 0), (3, 2, 0)]),
        ([4, 4, 4], [(4, 1, 0), (2, 3, 0)]),
        ([6], [(2, 1, 0), (3, 2, 0)]),
        ([4], [(2, 1, 1), (2, 1, 1), (2, 2, 1)]),
        ([3, 3], [(3, 1, 1), (2, 1, 0), (2, 2, 1), (3, 1, 0)]),
    ]
    if tier == 'thorough':
        S += [
            ([7], [(3, 3, 0), (3, 1, 0), (4, 2, 0)]),
            ([8], [(2, 1, 0), (4, 2, 0)]),
            ([6, 6], [(4, 1, 1), (3, 2, 1), (3, 2, 0), (2, 5, 0)]),
            ([7], [(3, 1, 1), (3, 1, 1)]),
            ([5, 5, 5], [(2, 4, 0), (2, 4, 1), (2, 1, 0), (4, 1, 1)]),
        ]
    V = [
        ([4, 3], [(2, 1, 0), (3, 1, 1), (2, 2, 0)]),
        ([3, 5], [(2, 2, 1), (2, 2, 0), (3, 1, 0)]),
        ([5, 4, 6], [(2, 3, 0), (2, 1, 0)]),
    ]
    if tier == 'thorough':
        V += [
            ([3, 7, 5], [(3, 1, 0), (3, 1, 1), (2, 2, 0)]),
            ([8, 6], [(3, 2, 0), (4, 1, 1)]),
        ]
    out = []
    for lens, shp in S:
        for ph in (False, True):
            out.append({'kind': 'univariate', 'lens': lens, 'shp': shp, 'phase': ph})
    for lens, shp in V:
        for ph in (False, True):
            out.append({'kind': 'univariate_variable', 'lens': lens, 'shp': shp, 'phase': ph})
    for kind, lens, shp in (
            ('univariate', [13], [(2, 11, 0), (3, 1, 0), (11, 1, 1), (2, 12, 0), (3, 2, 0), (2, 3, 0), (3, 4, 0), (4, 3, 0)]),
            ('univariate', [9, 9], [(3, 2, 1), (3, 2, 1), (3, 2, 0), (3, 2, 1), (3, 1, 1), (3, 2, 1), (3, 2, 0)]),
            ('univariate', [4, 4, 4, 4, 4, 4, 4], [(2, 1, 0), (3, 1, 1), (2, 2, 0)]),
            ('univariate_variable', [13, 12], [(2, 11, 0), (3, 1, 0), (3, 3, 1), (3, 2, 0), (2, 1, 0), (3, 4, 0), (4, 3, 1)]),
            ('univariate_variable', [9, 7], [(3, 2, 1), (3, 2, 1), (3, 2, 0), (3, 2, 1), (3, 1, 1), (3, 2, 1), (3, 2, 0)]),
            ('univariate_variable', [4, 5, 3, 6, 4, 5, 3], [(2, 1, 0), (3, 1, 1), (2, 2, 0)]),
            ('univariate_variable', [5, 150], [(3, 2, 0)]),
            ('univariate', [140], [(2, 130, 0), (3, 1, 0)]),
            ('univariate', [24, 24], [(5, 5, 1), (9, 2, 0), (11, 1, 0), (3, 7, 0), (7, 3, 0), (4, 6, 1), (2, 17, 0), (21, 1, 0)]),
            ('univariate_variable', [24, 21], [(5, 5, 1), (9, 2, 0), (11, 1, 0), (3, 7, 0), (7, 3, 0), (4, 6, 1), (2, 17, 0), (21, 1, 0)])):
        for ph in (False, True):
            if not ph or max(lens) < 50:
                out.append({'kind': kind, 'lens': lens, 'shp': shp, 'phase': ph, 'semi': 1})
    return out


def run(h, cfg):
    kind, ph = cfg['kind'], cfg['phase']
    ser, shl = (semi_series, semi_shapelet) if cfg.get('semi') else (sym_series, sym_shapelet)
    series = [ser(h, 'x%d' % i, n) for i, n in enumerate(cfg['lens'])]
    shps = [shl(h, 's%d' % i, l, d, bool(nm)) for i, (l, d, nm) in enumerate(cfg['shp'])]
    est = fitted(h, kind, shps, ph)
    F = est.transform(batch(h, kind, series))
    h.check('output shape', tuple(F.shape) == (len(series), 3 * len(shps)))
    for i, x in enumerate(series):
        for k, s in enumerate(shps):
            D = dist(h, s, x, ph)
            ck_features(h, 'series %d shapelet %d' % (i, k), [F[i, 3 * k + j] for j in range(3)], D, s['thr'],
                        exact=not s['norm'])
    out_features(h, F, shps)
    h.reach('end')
