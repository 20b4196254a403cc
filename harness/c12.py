"""C12: resolution of the requested shapelet lengths."""
from harness.capture import get, record
from harness.fitlib import script
from harness.util import batch

BOUNDS = 'series of 3-12 points (equal or variable length), bounds: every pair of integers in 1..14 resp. every pair of ' \
         'reals in (0, 1.5], every reduction in [0, 1); explicit lists of 2 symbolic integers in -1..14 or reals in ' \
         '(0, 1.5]; with and without min_len; series of 17-60 points with fixed bounds and every reduction, and with lists of ' \
         '4-6 lengths of which 1-2 are symbolic; up to 70 series; ' \
         'with and without sample subset; proportions in three float types'
OUTSIDE = 'longer series; lower bounds above the upper bound; rounding of length * proportion in floats'
U, V, M, W = 'univariate', 'univariate_variable', 'multivariate', 'multivariate_variable'


def configs(tier):
    out = []
    for n in (3, 4, 5, 7, 8, 10, 12):
        out.append({'m': 'ibounds', 'kind': U, 'lens': [n]})
        out.append({'m': 'fbounds', 'kind': U, 'lens': [n]})
        out.append({'m': 'explicit', 'kind': U, 'lens': [n]})
        out.append({'m': 'relative', 'kind': U, 'lens': [n]})
    for m in ('ibounds', 'fbounds', 'explicit', 'relative'):
        out.append({'m': m, 'kind': V, 'lens': [9, 6, 7]})
        out.append({'m': m, 'kind': W, 'lens': [8, 11], 'min_len': 5})
        out.append({'m': m, 'kind': M, 'lens': [6, 6]})
        out.append({'m': m, 'kind': V, 'lens': [2, 4]})
        out.append({'m': m, 'kind': W, 'lens': [5, 2]})
    for k in (U, M):
        out.append({'m': 'explicit', 'kind': k, 'lens': [2]})
    # longer series: the bounds fixed, every reduction
    for j, (n, a, b) in enumerate(((17, 3, 17), (20, 5, 12), (24, 7, 30), (31, 3, 28), (40, 11, 40), (26, 9, 9), (33, 2, 19),
                                   (50, 38, 77), (30, 34, 45))):
        k = [U, V, M, W][j % 4]
        ls = [n] if k in (U, M) else [n + 3, n, n + 9]
        out.append({'m': 'ibounds', 'kind': k, 'lens': ls, 'ab': [a, b]})
        out.append({'m': 'fbounds', 'kind': k, 'lens': ls, 'ab': [a / 64., b / 64.]})
    for j, (n, req) in enumerate(((30, [5, None, 40, 11, 5]), (25, [25, 26, None, 2]), (60, [61, 3, None, 9, None, 30]))):
        k = [V, W, U][j]
        ls = [n] if k == U else [n + 1, n]
        out.append({'m': 'explicit', 'kind': k, 'lens': ls, 'req': req, 'top': n + 6})
        out.append({'m': 'relative', 'kind': k, 'lens': ls, 'req': [None if q is None else max(q, 7) / 64. for q in req]})
    # many series, the shortest one anywhere
    for k, at in ((V, 69), (W, 55), (V, 0), (V, 33)):
        ls = [11 + (i * i) % 5 for i in range(70)]
        ls[at] = 7
        out.append({'m': 'ibounds', 'kind': k, 'lens': ls, 'ab': [3, 20], '_w': 0})
        out.append({'m': 'explicit', 'kind': k, 'lens': ls, 'req': [None, 7, 8], 'top': 12})
    # with a sample subset (one outcome of its draw)
    for m in ('ibounds', 'fbounds', 'explicit', 'relative'):
        for k, ns in ((V, 0.5), (W, 1.5), (U, 0.67)):
            ab = {'ab': [3, 20] if m == 'ibounds' else [0.25, 1.25]} if 'bounds' in m else {}
            out.append(dict({'m': m, 'kind': k, 'lens': [9, 9, 6, 8, 7, 10] if k != U else [7] * 6, 'ns': ns}, **ab))
    # proportions of any float type
    for dt in ('float32', 'float16', 'float64'):
        for j, k in enumerate((U, V, M, W)):
            ls = [20] if k in (U, M) else [23, 20]
            out.append({'m': 'relative', 'kind': k, 'lens': ls, 'req': [0.25, 0.5, 1.0], 'dt': dt})
            out.append({'m': 'fbounds', 'kind': k, 'lens': ls, 'ab': [0.25, 1.0], 'dt': dt, 'arr': j % 2})
    if tier == 'thorough':
        for n in (6, 9, 11, 16, 20, 24):
            for m in ('ibounds', 'fbounds', 'explicit', 'relative'):
                out.append({'m': m, 'kind': U, 'lens': [n], 'top': n + 4})
    for c in out:
        c['_w'] = sum(c['lens']) if 'bounds' in c['m'] else 0
    return out


def floor_of(h, x):
    """int(x) for x >= 0 as the harness' own choice"""
    if h.mode == 'conc':
        import math
        return int(math.floor(float(x)))
    return h.T.sfloor(x) if h.is_sym(x) else int(x // 1)


def run(h, c):
    np = h.np
    R = h.load('convst.transformers').R_DST
    calls = record(h)
    n = c.get('min_len') or min(c['lens'])
    nch = 2 if c['kind'] in (M, W) else 1
    X = batch(h, c['kind'], [[[1.0 * t * t + k for t in range(m)] for k in range(nch)] for m in c['lens']])
    y = np.asarray([0] * len(c['lens']))
    kw = dict(n_shapelets=1, random_state=0, min_len=c.get('min_len'))
    if 'ns' in c:
        script(h, 'subset')
        kw['n_samples'] = c['ns']
    top = c.get('top', 14)
    small = n < 3
    lo = hi = None
    if c['m'] == 'ibounds':
        a, b = c['ab'] if 'ab' in c else (h.int('a', 1, top), h.int('b', 1, top))
        h.assume(h.le(a, b))
        red = h.real('red', 0, 1)
        h.assume(h.lt(red, 1, exact=True))
        kw.update(shapelet_lengths_bounds=[a, b], lengths_bounds_reduction=red)
        lo, hi = a, b
    elif c['m'] == 'fbounds':
        a, b = c['ab'] if 'ab' in c else (h.real('a', 0, 1.5), h.real('b', 0, 1.5))
        h.assume(h.and_(h.lt(0, a, exact=True), h.le(a, b, exact=True)))
        red = h.real('red', 0, 1)
        h.assume(h.lt(red, 1, exact=True))
        kw.update(shapelet_lengths_bounds=[a, b], lengths_bounds_reduction=red)
        lo, hi = floor_of(h, a * n), floor_of(h, b * n)
    elif c['m'] == 'explicit':
        req = h.ints('l', 2, -1, top) if 'req' not in c else \
            np.asarray([h.int('l%d' % i, -1, top) if q is None else q for i, q in enumerate(c['req'])])
        kw.update(shapelet_lengths=req)
        want = h.elems(req)
    else:
        req = h.reals('l', 2, 0, 1.5) if 'req' not in c else \
            np.asarray([h.real('l%d' % i, 0, 1.5) if q is None else q for i, q in enumerate(c['req'])])
        kw.update(shapelet_lengths=req)
        want = [floor_of(h, x * n) for x in h.elems(req)]
    if 'dt' in c:
        t = getattr(np, c['dt'])
        if c['m'] == 'relative':
            kw['shapelet_lengths'] = np.asarray(c['req'], dtype=t)
        else:
            kw['shapelet_lengths_bounds'] = np.asarray(c['ab'], dtype=t) if c['arr'] else [t(v) for v in c['ab']]
    est = R(**kw)
    st, v = h.call(est.fit, X, y)
    if small:
        h.check('series with fewer than 3 points are rejected', st == 'exc' and isinstance(v, ValueError))
        return
    if lo is None:
        bad = h.or_(*[h.lt(x, 2, exact=True) for x in want])
        if st == 'exc':
            h.check('rejected with ValueError, got %s' % type(v).__name__, isinstance(v, ValueError))
            h.check('only lengths < 2 are rejected: %s' % v, bad)
            h.reach('rejected')
            return
        h.check('lengths < 2 are rejected', h.not_(bad))
    elif st == 'exc':
        raise v
    h.check('one generation', len(calls) == 1)
    got = h.elems(get(h, calls[0], 'shapelet_sizes'))
    h.check('integers', all(h.is_sym(g) or isinstance(g, (int, np.integer)) for g in got))
    for i, g in enumerate(got):
        h.check('length %d fits the shortest series' % i, h.and_(h.le(2, g, exact=True), h.le(g, n, exact=True)))
    if lo is None:
        h.check('number of lengths', len(got) == len(want))
        for i, (g, x) in enumerate(zip(got, want)):
            h.check('length %d is the requested one' % i, h.implies(h.le(x, n, exact=True), h.eq(g, x)))
        h.reach('explicit')
        return
    # bounds: l0 = max(3, lo); u = max(l0, hi)
    l0 = h.ite(h.lt(lo, 3, exact=True), 3, lo)
    u = h.ite(h.lt(hi, l0, exact=True), l0, hi)
    k = len(got)
    # lengths above n may have been replaced: look at those that are kept
    h.check('starts at the lower bound', h.implies(h.le(l0, n, exact=True), h.eq(got[0], l0)))
    fit = h.le(u, n, exact=True)
    step = got[1] - got[0] if k > 1 else 1
    h.check('increasing', h.implies(fit, h.le(1, step, exact=True)))
    h.check('evenly spaced', h.implies(fit, h.and_(*[h.eq(g, got[0] + i * step) for i, g in enumerate(got)])))
    h.check('never above the upper bound', h.implies(fit, h.and_(*[h.le(g, u, exact=True) for g in got])))
    total = u - l0 + 1
    full = h.and_(fit, h.eq(red, 0))
    h.check('reduction 0 keeps every length', h.implies(full, h.and_(h.eq(k, total), *[h.eq(g, l0 + i) for i, g in
                                                                                        enumerate(got)])))
    # at least the requested proportion (an integer number of lengths)
    h.check('at least the requested proportion', h.lt(red * total - 1, k) if h.mode == 'sym' else
            red * total - 1 < k + 1e-6)
    h.reach('bounds')
    h.out('lengths', got)
