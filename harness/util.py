"""Shared pieces of the harnesses."""


def group(items, k):
    """bundle small configurations into k jobs"""
    jobs = [[] for _ in range(k)]
    for i, c in enumerate(items):
        jobs[i % k].append(c)
    return [{'items': j} for j in jobs if j]


def item(h, cfg):
    its = cfg['items']
    return its[h.choose('item', len(its))] if len(its) > 1 else its[0]


def pack_uni(h, shps):
    """shps: list of dict(v=elements, l, d, thr, norm) -> shapelets_ tuple"""
    np = h.np
    L = max(s['l'] for s in shps)
    vals = np.zeros((len(shps), L))
    for i, s in enumerate(shps):
        for j in range(s['l']):
            vals[i, j] = s['v'][j]
    return (vals,
            np.asarray([s['l'] for s in shps], dtype=np.int64),
            np.asarray([s['d'] for s in shps], dtype=np.int64),
            np.asarray([s['thr'] for s in shps], dtype=float),
            np.asarray([bool(s['norm']) for s in shps], dtype=bool))


def pack_multi(h, shps):
    """shps: v = list (one per channel) of lists, ch = channel ids"""
    np = h.np
    vals = [x for s in shps for row in s['v'] for x in row]
    return (np.asarray(vals, dtype=float),
            np.asarray([s['l'] for s in shps], dtype=np.int64),
            np.asarray([s['d'] for s in shps], dtype=np.int64),
            np.asarray([s['thr'] for s in shps], dtype=float),
            np.asarray([bool(s['norm']) for s in shps], dtype=bool),
            np.asarray([len(s['ch']) for s in shps], dtype=np.int64),
            np.asarray([c for s in shps for c in s['ch']], dtype=np.int64))


def unpack(h, kind, tup):
    """shapelets_ tuple -> list of dict"""
    multi = kind.startswith('multi')
    if not isinstance(tup, tuple) or len(tup) != (7 if multi else 5):
        h.unsupported('shapelets_ has another structure')
    out = []
    ln = [int(x) for x in h.elems(tup[1])]
    dil = [int(x) for x in h.elems(tup[2])]
    thr, nm = h.elems(tup[3]), h.elems(tup[4])
    if not multi:
        for i in range(len(ln)):
            row = h.elems(tup[0][i])
            out.append(dict(v=row[:ln[i]], pad=row[ln[i]:], l=ln[i], d=dil[i], thr=thr[i],
                            norm=h.truth(nm[i]), ch=[0]))
        return out
    nch = [int(x) for x in h.elems(tup[5])]
    ids = [int(x) for x in h.elems(tup[6])]
    vals = h.elems(tup[0])
    a = b = 0
    for i in range(len(ln)):
        rows = [vals[a + k * ln[i]:a + (k + 1) * ln[i]] for k in range(nch[i])]
        a += nch[i] * ln[i]
        out.append(dict(v=rows, l=ln[i], d=dil[i], thr=thr[i], norm=h.truth(nm[i]), ch=ids[b:b + nch[i]]))
        b += nch[i]
    return out


KINDS = ('univariate', 'univariate_variable', 'multivariate', 'multivariate_variable')


def kind_strings(h):
    C = h.load('convst')
    try:
        return {'univariate': C.STR_UNIVARIATE, 'univariate_variable': C.STR_UNIVARIATE_VARIABLE,
                'multivariate': C.STR_MUTLIVARIATE, 'multivariate_variable': C.STR_MULTIVARIATE_VARIABLE}
    except AttributeError:
        return {k: k for k in KINDS}


def fitted(h, kind, shps, phase=False, n_ch=2, tup=None, **kw):
    """an R_DST fitted through its public interface on a tiny data set of the
    wanted kind (auto detection), whose shapelets are then replaced"""
    R = h.load('convst.transformers').R_DST
    np = h.np
    kw.setdefault('n_shapelets', 1)
    kw.setdefault('shapelet_lengths', [3])
    kw.setdefault('proba_norm', 0.0)
    est = R(phase_invariance=phase, random_state=0, **kw)
    nc = n_ch if kind.startswith('multi') else 1
    tiny = [[[1.0 + i + 2 * c + (j * j) for j in range(3)] for c in range(nc)] for i in range(2)]
    if kind.endswith('variable'):
        X = [np.asarray(t, dtype=float) for t in tiny]
    else:
        X = np.asarray(tiny, dtype=float)
    y = np.asarray([0, 1])
    h.pinned = True
    est.fit(X, y)
    h.pinned = False
    old = getattr(est, 'shapelets_', None)
    if tup is None:
        tup = pack_multi(h, shps) if kind.startswith('multi') else pack_uni(h, shps)
    if not isinstance(old, tuple) or len(old) != len(tup):
        h.unsupported('shapelets_ has another structure')
    est.shapelets_ = tup
    return est


def batch(h, kind, series):
    """series: list (samples) of list (channels) of element lists"""
    np = h.np
    if kind.endswith('variable'):
        return [np.asarray(s, dtype=float) for s in series]
    return np.asarray(series, dtype=float)


def dist(h, s, series, phase):
    """spec distance vector of a shapelet to a series (list of channels)"""
    multi = isinstance(s['v'][0], list)
    rows = s['v'] if multi else [s['v']]
    tot = None
    for row, c in zip(rows, s['ch'] if multi else [0]):
        D = h.dist_vector(series[c], row, s['l'], s['d'], s['norm'], phase)
        tot = D if tot is None else [a + b for a, b in zip(tot, D)]
    return tot


def ck_features(h, name, f, D, thr, exact):
    """relational specification of (min, argmin, count)"""
    m, a, c = f
    n = len(D)
    h.check(name + ' min is a lower bound', h.and_(*[h.le(m, x) for x in D]))
    h.check(name + ' min is attained', h.or_(*[h.eq(m, x) for x in D]))
    h.check(name + ' argmin is a position', h.or_(*[h.eq(a, i) for i in range(n)]))
    cl = []
    for i in range(n):
        if exact:
            cl.append(h.implies(h.eq(a, i), h.and_(h.eq(D[i], m), *[h.lt(m, D[j], exact=True) for j in range(i)])))
        else:
            cl.append(h.implies(h.eq(a, i), h.and_(h.eq(D[i], m), *[h.lt(m, D[j]) for j in range(i)])))
    h.check(name + ' argmin is the first minimum', h.and_(*cl))
    ck_count(h, name, c, D, thr, exact)


def ck_count(h, name, c, D, thr, exact, scale=1):
    if h.mode == 'sym' or exact:
        h.check(name + ' occurrences', h.eq(c * scale, h.sum([h.to_int(h.le(x, thr, exact=True)) for x in D])))
    else:
        lo = sum(1 for x in D if x < thr - 1e-6 * (1 + abs(thr)))
        hi = sum(1 for x in D if x <= thr + 1e-6 * (1 + abs(thr)))
        c = float(c) * scale
        h.check(name + ' occurrences', lo - 1e-6 <= c <= hi + 1e-6 and abs(c - round(c)) < 1e-6)


def ck_same_features(h, name, f, g, shps, x, ph):
    """the features of series x computed in two ways are the same. In a replay
    rounding may decide ties of a z-normalised shapelet in either way."""
    f, g = list(f), list(g)
    if h.mode == 'sym' or not any(s['norm'] for s in shps) or len(f) != len(g) or len(f) != 3 * len(shps):
        h.ck_list(name, f, g)
        return
    for k, s in enumerate(shps):
        a, b = f[3 * k:3 * k + 3], g[3 * k:3 * k + 3]
        nm = '%s shapelet %d' % (name, k)
        if not s['norm']:
            h.ck_list(nm, a, b)
            continue
        h.check(nm + ' min', h.eq(a[0], b[0]))
        if not h.eq(a[1], b[1]):
            D = dist(h, s, x, ph)
            ok = [0 <= v < len(D) and v == int(v) and abs(D[int(v)] - a[0]) <= 1e-6 * (1 + abs(a[0])) for v in (a[1], b[1])]
            h.check(nm + ' argmin', all(ok))
        if not h.eq(a[2], b[2]):
            D = dist(h, s, x, ph)
            for v in (a[2], b[2]):
                ck_count(h, nm, v, D, s['thr'], False)


def sym_shapelet(h, nm, l, d, norm, ch=None):
    if ch is None:
        v = h.elems(h.reals(nm + '.v', l))
    else:
        v = [h.elems(h.reals('%s.v%d' % (nm, k), l)) for k in range(len(ch))]
    return dict(v=v, l=l, d=d, thr=h.real(nm + '.thr'), norm=norm, ch=ch or [0])


def sym_series(h, nm, n, nch=1):
    return [h.elems(h.reals('%s.c%d' % (nm, c), n)) for c in range(nch)]


def generic_value(*key):
    """a fixed multiple of 1/16 (exact in floats), different for most keys"""
    v = 2166136261
    for c in repr(key):
        v = ((v ^ ord(c)) * 16777619) % 4294967296
    v ^= v >> 15
    return (v % 1021 - 510) / 16.0


def semi_series(h, nm, n, nch=1, k=1):
    """a series of fixed contents but for k arbitrary values per channel"""
    out = []
    for c in range(nch):
        free = {(3 * c + 1 + i * (n // max(1, k))) % n for i in range(k)}
        out.append([h.real('%s.c%d[%d]' % (nm, c, t)) if t in free else generic_value(nm, c, t) for t in range(n)])
    return out


def semi_shapelet(h, nm, l, d, norm, ch=None, k=1):
    """fixed values but for k arbitrary ones (in the first channel); arbitrary threshold"""
    rows = []
    for r in range(1 if ch is None else len(ch)):
        rows.append([h.real('%s.v%d[%d]' % (nm, r, j)) if r == 0 and j < k else
                     generic_value(nm, r, j) / (64.0 if norm else 1.0) for j in range(l)])
    return dict(v=rows[0] if ch is None else rows, l=l, d=d, thr=h.real(nm + '.thr'), norm=norm, ch=ch or [0])


def out_features(h, F, shps):
    """features compared with the real run (not the position of the minimum of
    a normalised shapelet: exact ties are broken by rounding there)"""
    h.out('F', [F[i, j] for i in range(F.shape[0]) for j in range(F.shape[1])
                if not (j % 3 == 1 and shps[j // 3]['norm'])])
