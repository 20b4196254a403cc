"""C02: multivariate transform."""
from harness.util import out_features, fitted, batch, dist, ck_features, sym_shapelet, sym_series, semi_series, semi_shapelet

BOUNDS = 'at most 3 shapelets per set (lengths 2-3, dilations 1-3, 1-3 channels in any order, mixed normalisation), ' \
         'batches of 1-2 series of 3-6 points and 2-3 channels (thorough: 4 shapelets, 7 points), phase on and off, ' \
         'equal and variable length; series, shapelet values and thresholds arbitrary reals. Also up to 9 shapelets (dilations ' \
         'to 11), 12 channels, 6 series, 140 points, of fixed contents but for one arbitrary value per series, channel and ' \
         'shapelet and arbitrary thresholds'
SCALED = True
NARROW = True
OUTSIDE = 'longer series and larger sets; float rounding (fastmath), NaN and infinities'


def configs(tier):
    # number of channels, series lengths, shapelets (l, d, norm, channels)
    S = [
        (2, [4, 4], [(2, 1, 0, [1]), (2, 1, 1, [0, 1]), (3, 1, 0, [1, 0])]),
        (3, [4], [(3, 1, 0, [2, 0]), (2, 2, 0, [1]), (2, 1, 0, [0, 2, 1])]),
        (2, [5], [(3, 2, 0, [0, 1]), (2, 2, 1, [1]), (3, 2, 1, [1, 0])]),
        (3, [3, 3], [(2, 1, 1, [2]), (2, 1, 0, [1, 2]), (2, 1, 1, [0, 1, 2])]),
        (2, [4], [(2, 3, 0, [1]), (2, 3, 0, [0])]),
    ]
    V = [
        (2, [4, 3], [(2, 1, 0, [1]), (2, 1, 1, [1, 0]), (3, 1, 0, [0])]),
        (3, [3, 5], [(2, 2, 0, [2, 1]), (3, 1, 1, [0]), (2, 2, 0, [0])]),
        (2, [5, 6], [(3, 2, 0, [1, 0]), (2, 1, 0, [1])]),
    ]
    if tier == 'thorough':
        S += [
            (3, [6], [(3, 2, 0, [2]), (3, 2, 0, [1, 0]), (4, 1, 0, [0])]),
            (2, [7], [(2, 1, 0, [1, 0]), (3, 3, 1, [1])]),
            (4, [4, 4], [(2, 1, 1, [3, 0]), (2, 1, 0, [2, 1, 3, 0]), (3, 1, 0, [1]), (2, 2, 1, [2])]),
        ]
        V += [
            (2, [3, 7, 5], [(3, 1, 0, [1]), (3, 1, 1, [0, 1]), (2, 2, 0, [0])]),
            (3, [6, 4], [(4, 1, 0, [2, 1]), (2, 3, 0, [0, 2])]),
        ]
    out = []
    for kind, cs in (('multivariate', S), ('multivariate_variable', V)):
        for nc, lens, shp in cs:
            for ph in (False, True):
                out.append({'kind': kind, 'nch': nc, 'lens': lens, 'shp': shp, 'phase': ph})
    # fixed contents but for a few values: longer series, more channels and shapelets
    big = [(2, 11, 0, [2, 0]), (3, 1, 0, [1]), (2, 3, 0, [3, 1]), (3, 2, 1, [0]), (3, 2, 1, [2]), (3, 2, 1, [1, 3]),
           (3, 2, 0, [0, 1, 2, 3]), (3, 4, 0, [2]), (4, 3, 1, [3, 2, 1])]
    many = [(2, 1, 0, [1, 0]), (3, 1, 1, [2]), (2, 2, 0, [2, 1])]
    for kind, nch, lens, shp in (('multivariate', 4, [13], big), ('multivariate_variable', 4, [13, 12], big),
                                 ('multivariate', 3, [4] * 6, many), ('multivariate_variable', 3, [4, 5, 3, 6, 4, 5], many),
                                 ('multivariate_variable', 2, [4, 140], [(3, 1, 0, [1, 0])]),
                                 ('multivariate', 12, [5, 5], [(2, 2, 0, [11, 3, 10]), (3, 1, 1, [0, 9]), (3, 2, 0, [10])])):
        for ph in (False, True):
            if not ph or max(lens) < 50:
                out.append({'kind': kind, 'nch': nch, 'lens': lens, 'shp': shp, 'phase': ph, 'semi': 1})
    return out


def run(h, cfg):
    kind, ph = cfg['kind'], cfg['phase']
    ser, shl = (semi_series, semi_shapelet) if cfg.get('semi') else (sym_series, sym_shapelet)
    series = [ser(h, 'x%d' % i, n, cfg['nch']) for i, n in enumerate(cfg['lens'])]
    shps = [shl(h, 's%d' % i, l, d, bool(nm), ch) for i, (l, d, nm, ch) in enumerate(cfg['shp'])]
    est = fitted(h, kind, shps, ph, n_ch=cfg['nch'])
    F = est.transform(batch(h, kind, series))
    h.check('output shape', tuple(F.shape) == (len(series), 3 * len(shps)))
    for i, x in enumerate(series):
        for k, s in enumerate(shps):
            D = dist(h, s, x, ph)
            ck_features(h, 'series %d shapelet %d' % (i, k), [F[i, 3 * k + j] for j in range(3)], D, s['thr'],
                        exact=not s['norm'])
    out_features(h, F, shps)
    h.reach('end')
