"""C30: every admissible candidate can be drawn."""
import itertools
from harness.fitlib import cfg, fit, sources

BOUNDS = 'training sets of 1-7 series of 4-8 points with fixed contents in 1-2 classes, 1-3 channels, one shapelet per ' \
         'fit of 1-2 possible lengths (2-4), the four data kinds, phase on and off, plain and prime dilations, with and ' \
         'without sample subset; every draw'
OUTSIDE = 'how often a candidate is drawn; the largest dilation when it is drawn with probability 0 (the end point of the ' \
          'interval the exponent is drawn from); several shapelets'


def configs(tier):
    U, V, M, W = 'univariate', 'univariate_variable', 'multivariate', 'multivariate_variable'
    out = []
    for ph in (False, True):
        for kind in (U, V, M, W):
            uni = kind in (U, V)
            lens = [6, 6, 6] if kind in (U, M) else [5, 7, 6]
            nch = 1 if uni else 2
            out.append(cfg(kind, lens, [0, 1, 0], 1, [2, 3], nch, proba_norm=0.5 if uni else 0.0, phase_invariance=ph))
            out.append(cfg(kind, [8] if kind in (U, M) else [8, 9], [0] if kind in (U, M) else [0, 1], 1, [3], nch,
                           proba_norm=0.0, prime_dilations=True, phase_invariance=ph))
            # limits that are primes and lie next to a power of two
            k = len(out) // 3 % 4
            out.append(cfg(kind, [[6], [11], [8], [12]][k] if kind in (U, M) else [[6, 7], [11, 12], [8, 10], [12, 13]][k],
                           [0] if kind in (U, M) else [0, 1], 1, [[2], [3], [2], [2]][k], nch, proba_norm=0.0,
                           prime_dilations=True, phase_invariance=ph))
            # threshold from any other series of the class
            ls = [4] * 4 if kind in (U, M) else [4, 5, 4, 5]
            out.append(dict(cfg(kind, ls, [1, 0, 1, 1], 1, [3], nch, proba_norm=0.0, percentiles=[0, 0],
                                phase_invariance=ph), partner=True))
    for kind in (U, V, M, W):
        # a class of six
        ls = [4] * 7 if kind in (U, M) else [4, 4, 5, 4, 4, 4, 5]
        for k in (7, 5):
            out.append(dict(cfg(kind, ls[:k], [1, 1, 0, 1, 1, 1, 1][:k], 1, [4], 1 if kind in (U, V) else 2, proba_norm=0.0,
                                percentiles=[0, 0]), partner=True))
    for kind in (M, W):
        ls = [4, 4] if kind == M else [4, 5]
        out.append(cfg(kind, ls, [0, 1], 1, [3], 3, proba_norm=1.0))
        out.append(cfg(kind, ls, [0, 1], 1, [3], 3, proba_norm=0.0, max_channels=2))
        out.append(cfg(kind, ls[:1], [0], 1, [2, 4], 2, proba_norm=0.5))
    for kind in (U, V):
        ls = [4, 4, 4, 4] if kind == U else [4, 5, 4, 5]
        out.append(cfg(kind, ls, [0, 1, 1, 0], 1, [3], proba_norm=0.0, n_samples=0.5))
        out.append(cfg(kind, ls[:2], [0, 1], 1, [2, 3, 4], proba_norm=0.5, alpha=1.0))
    if tier == 'thorough':
        for kind in (U, V, M, W):
            uni = kind in (U, V)
            ls = [12, 12] if kind in (U, M) else [12, 13]
            for pr in (False, True):
                out.append(cfg(kind, ls, [0, 1], 1, [2, 4, 5], 1 if uni else 2, proba_norm=0.0, prime_dilations=pr))
                out.append(cfg(kind, ls, [0, 0], 1, [3], 1 if uni else 3, proba_norm=0.5, prime_dilations=pr,
                               phase_invariance=True))
    return out


def contents(c):
    """windows that differ in every respect"""
    return [[[float((37 * (i + 1) * (t + 2) ** 2 + 101 * k * (t + 1) + 53 * i * t ** 3 + 11 * t) % 509) + t / 64.
              for t in range(n)] for k in range(c['nch'])] for i, n in enumerate(c['lens'])]


def required(c, series):
    """the situations that must be possible"""
    p = c['p']
    n = min(c['lens'])
    ph = p['phase_invariance'] if 'phase_invariance' in p else False
    req = set()
    for l in c['lengths']:
        dmax = (n - 1) // (l - 1)
        ds = [d for d in range(1, dmax + 1) if (all(d % q for q in range(2, d)) if p.get('prime_dilations')
                                                else d < dmax or d == 1)]
        for d in ds:
            for i, m in enumerate(c['lens']):
                for t in range(m if ph else m - (l - 1) * d):
                    req.add('length %d dilation %d series %d start %d' % (l, d, i, t))
    pn = p.get('proba_norm', 0.5)
    req |= {'normalised %s' % v for v in (True, False) if pn not in (0.0, 1.0) or bool(pn) == v}
    if c['kind'].startswith('multi'):
        for k in range(1, (p.get('max_channels') or c['nch']) + 1):
            for s in itertools.combinations(range(c['nch']), k):
                req.add('channels %s' % (s,))
    if c.get('partner'):
        for i, y in enumerate(c['y']):
            oth = [j for j, z in enumerate(c['y']) if z == y and j != i] or [i]
            req |= {'series %d threshold from %d' % (i, j) for j in oth}
    return req


def run(h, c):
    series = contents(c)
    ph = c['p'].get('phase_invariance', False)
    h.require(required(c, series))
    _, est, shps = fit(h, c, series)
    h.check('one shapelet', len(shps) == 1)
    s = shps[0]
    src = [(i, t) for i, t, con in sources(h, c, series, s, ph) if h.truth(con)]
    h.check('the shapelet is from a training series', len(src) >= 1)
    for i, t in src:
        h.goal('length %d dilation %d series %d start %d' % (s['l'], s['d'], i, t))
    h.goal('normalised %s' % bool(s['norm']))
    h.goal('channels %s' % (tuple(sorted(s['ch'])),))
    if c.get('partner') and len(src) == 1:
        i = src[0][0]
        for j, x in enumerate(series):
            rows = s['v'] if isinstance(s['v'][0], list) else [s['v']]
            cs = [h.cands(x[k], s['l'], s['d'], ph) for k in s['ch']]
            ds = [sum(abs(a - b) for row, cc in zip(rows, cs) for a, b in zip(row, cc[t])) for t in range(len(cs[0]))]
            if h.truth(h.eq(s['thr'], min(ds))):
                h.goal('series %d threshold from %d' % (i, j))
    h.out('lengths', est.shapelets_[1])
