"""C15: normalize_output."""
from harness.util import fitted, batch, sym_shapelet, sym_series, semi_series, semi_shapelet

BOUNDS = 'batches of 2-3 series of 3-6 points, equal and mixed lengths, 2-3 shapelets, four data kinds, phase on and ' \
         'off; series, shapelet values and thresholds arbitrary reals. Also 5-6 series of 9-31 points and 6 shapelets of ' \
         'fixed contents but for one arbitrary value per channel and shapelet, any threshold'
SCALED = True
OUTSIDE = 'longer series and larger sets; NaN and infinities'


def configs(tier):
    U = [(2, 1, 0, [0]), (3, 1, 1, [0]), (2, 2, 0, [0])]
    M = [(2, 1, 0, [1]), (3, 1, 1, [1, 0])]
    out = []
    for ph in (False, True):
        for kind, lens in (('univariate', [4, 4]), ('univariate', [5]), ('univariate_variable', [3, 5, 4]),
                           ('univariate_variable', [6, 3]), ('multivariate', [4, 4]),
                           ('multivariate_variable', [3, 5]), ('multivariate_variable', [6, 4, 3])):
            out.append({'kind': kind, 'lens': lens, 'shp': M if kind.startswith('m') else U, 'phase': ph})
    if tier == 'thorough':
        for kind, lens in (('univariate', [7, 7]), ('univariate_variable', [8, 3, 5]), ('multivariate', [6, 6]),
                           ('multivariate_variable', [7, 5, 3])):
            out.append({'kind': kind, 'lens': lens, 'shp': M if kind.startswith('m') else U, 'phase': False})
    for ph in (False, True):
        for kind, lens in (('univariate', [13] * 5), ('univariate_variable', [12, 15, 9, 13, 12, 31]),
                           ('multivariate', [13] * 5), ('multivariate_variable', [9, 15, 12, 12, 13])):
            out.append({'kind': kind, 'lens': lens[:5] if ph else lens, 'shp': (M if kind.startswith('m') else U) +
                        [(3, 4, 0, [0]), (3, 3, 1, [0]), (2, 7, 0, [0])], 'phase': ph, 'semi': 1})
    return out


def run(h, cfg):
    kind, ph = cfg['kind'], cfg['phase']
    multi = kind.startswith('multi')
    nch = 2 if multi else 1
    ser, shl = (semi_series, semi_shapelet) if cfg.get('semi') else (sym_series, sym_shapelet)
    series = [ser(h, 'x%d' % i, n, nch) for i, n in enumerate(cfg['lens'])]
    shps = [shl(h, 's%d' % i, l, d, bool(nm), ch if multi else None)
            for i, (l, d, nm, ch) in enumerate(cfg['shp'])]
    off = fitted(h, kind, shps, ph, n_ch=nch, normalize_output=False)
    on = fitted(h, kind, shps, ph, n_ch=nch, normalize_output=True)
    dflt = fitted(h, kind, shps, ph, n_ch=nch)
    X = batch(h, kind, series)
    F, G, P = off.transform(X), on.transform(X), dflt.transform(X)
    h.ck_arr('off is the default', P, h.elems(F), tuple(F.shape))
    h.check('same shape', tuple(F.shape) == tuple(G.shape))
    for i, n in enumerate(cfg['lens']):
        for k in range(len(shps)):
            h.check('series %d shapelet %d: min' % (i, k), h.eq(G[i, 3 * k], F[i, 3 * k]))
            h.check('series %d shapelet %d: argmin' % (i, k), h.eq(G[i, 3 * k + 1] * n, F[i, 3 * k + 1]))
            h.check('series %d shapelet %d: occurrences' % (i, k), h.eq(G[i, 3 * k + 2] * n, F[i, 3 * k + 2]))
            # plain features are counts and positions, not fractions
            for j in (1, 2):
                h.check('series %d shapelet %d: plain feature %d' % (i, k, j),
                        h.or_(*[h.eq(F[i, 3 * k + j], q) for q in range(n + 1)]))
    # the argmin of a normalised shapelet has ties by construction, which rounding decides: not compared
    h.out('G', [G[i, 3 * k + j] for i in range(len(cfg['lens'])) for k, s in enumerate(cfg['shp']) for j in range(3)
                if j != 1 or not s[2]])
    h.reach('end')
