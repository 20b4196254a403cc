"""C03: dilated subsequences and distance vectors."""
from harness.util import group

BOUNDS = 'series length n <= 10 (thorough 16), window length l >= 2 (and 1 for strides), every admissible dilation, ' \
         'channels 1-2; n = 13, 22, 31 with lengths up to 21 and dilations up to the largest; all contents arbitrary reals'
SCALED = True
NARROW = True
OUTSIDE = 'longer series; inadmissible (length, dilation) pairs; NaN and infinities; float rounding'


def configs(tier):
    N = 10 if tier == 'quick' else 16
    out = []
    for n in range(3, N + 1):
        for l in range(2, n + 1):
            for phase in (False, True):
                ds = [d for d in range(1, n) if (l - 1) * d <= n - 1]
                if phase:
                    ds = ds + ([ds[-1] + 1] if n >= 4 else [])
                for d in ds:
                    out.append({'n': n, 'l': l, 'd': d, 'phase': phase})
    out = group(out, 24)
    # longer series, some lengths and dilations
    big = []
    for n, ls in ((13, (2, 3, 5, 7, 13)), (22, (2, 4, 9, 11, 21)), (31, (3, 6, 11, 16))) + \
            (((50, (2, 5, 11, 24, 49)),) if tier == 'thorough' else ()):
        for l in ls:
            for phase in (False, True):
                top = (n - 1) // (l - 1)
                for d in sorted({1, 2, 3, top // 2, top - 1, top, top + 1 if phase else top}):
                    if 1 <= d and (phase or (l - 1) * d <= n - 1) and (n < 30 or d in (1, top)):
                        big.append({'n': n, 'l': l, 'd': d, 'phase': phase, 'big': 1})
    return out + group(big, 24)


def run(h, cfg):
    it = cfg['items'][h.choose('item', len(cfg['items']))]
    n, l, d, phase = it['n'], it['l'], it['d'], it['phase']
    C = h.load('convst.transformers._commons')
    x = h.reals('x', n)
    v = h.reals('v', l)
    xs, vs = h.elems(x), h.elems(v)
    cand = h.cands(xs, l, d, phase)
    # strides 1D
    s = C.generate_strides_1D(x, l, d, phase)
    h.ck_arr('strides1D', s, [e for c in cand for e in c], (len(cand), l))
    h.ck_list('input kept', h.elems(x), xs)
    # strides 2D
    X = h.reals('X', (2, n))
    Xe = [h.elems(X[0]), h.elems(X[1])]
    s2 = C.generate_strides_2D(X, l, d, phase)
    h.ck_arr('strides2D', s2, [e for ch in Xe for c in h.cands(ch, l, d, phase) for e in c],
             (2, len(cand), l))
    # one subsequence
    if it.get('big'):
        i = [0, len(cand) // 2, len(cand) - 1][h.choose('start', 3)]
    else:
        i = h.choose('start', len(cand))
    for norm in (False, True):
        g = C.get_subsequence(x, i, l, d, norm, phase)
        h.ck_arr('subsequence norm=%s' % norm, g, h.znorm(cand[i]) if norm else cand[i], (l,))
        D = C.compute_shapelet_dist_vector(x, v, l, d, norm, phase)
        h.ck_arr('dist norm=%s' % norm, D, h.dist_vector(xs, vs, l, d, norm, phase), (len(cand),))
        h.out('D%s' % norm, D)
    h.reach('end')
