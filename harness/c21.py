"""C21: input representations and column selection."""
from harness.util import generic_value

BOUNDS = 'Derivate/Raw/Periodigram/FastHankelTransform: 1-3 series, 1-3 channels, 3-7 points, orders 0-3 (and the random ' \
         'order), all 16 windows; scalers: 2-4 training rows, 1-4 columns, every pattern of constant columns; contents arbitrary; also ' \
         '5-9 series, 6 channels or 21 points, and 6-20 rows of 7-24 columns with one value per column arbitrary'
OUTSIDE = 'the internals of scipy\'s periodogram, fht and fhtoffset (uninterpreted functions of the channel and the parameters); ' \
          'columns that are constant up to float rounding only; training data with constant columns only'
ASSUME = ['scipy.signal.periodogram, scipy.fft.fht and fhtoffset are functions of their arguments']


def configs(tier):
    out = []
    shapes = [(1, 1, 3), (2, 1, 5), (1, 2, 4), (2, 3, 3), (3, 2, 5), (5, 3, 16), (2, 6, 21), (9, 2, 10)] + ([(2, 2, 7), (4, 3, 4)] if tier == 'thorough' else [])
    for sh in shapes:
        for k in (0, 1, 2, 3):
            if sh[2] > k:
                out.append({'m': 'derivate', 'shape': sh, 'order': k})
        out.append({'m': 'raw', 'shape': sh})
        out.append({'m': 'pgram', 'shape': sh, 'window': 'boxcar'})
        out.append({'m': 'pgram', 'shape': sh, 'window': 'hann'})
        for opt in (True, False):
            out.append({'m': 'fht', 'shape': sh, 'par': dict(dln=0.02, mu=2.0, offset=0.3, bias=0.1), 'opt': opt})
    out.append({'m': 'fht', 'shape': (1, 1, 4), 'par': {}, 'opt': None})
    out.append({'m': 'derivate', 'shape': (1, 2, 6), 'order': 'random'})
    out.append({'m': 'pgram', 'shape': (2, 2, 4), 'window': 'random'})
    for s in ('c_StandardScaler', 'c_MinMaxScaler'):
        for n, m in ((2, 1), (2, 2), (2, 3), (3, 2)) + (((3, 3), (2, 4), (4, 2)) if tier == 'thorough' else ()):
            out.append({'m': 'scaler', 'cls': s, 'n': n, 'cols': m})
        for const in ([0], [2], [0, 3], [1, 2], [3]):
            out.append({'m': 'scaler', 'cls': s, 'n': 3, 'cols': 4, 'const': const})
        # larger: most of the values fixed
        for n, m, const in ((9, 14, [0, 3, 4, 13]), (12, 9, [8]), (6, 24, [1, 2, 5, 11, 12, 19, 22]), (20, 7, [])):
            out.append({'m': 'scaler', 'cls': s, 'n': n, 'cols': m, 'const': const, 'semi': True})
    return out


def run(h, c):
    np = h.np
    T = h.load('convst.transformers._input_transformers')
    if c['m'] == 'scaler':
        return scaler(h, c, T)
    n, ch, t = c['shape']
    X = h.reals('x', (n, ch, t))
    before = h.snapshot(X)
    A = [[[X[i, k, q] for q in range(t)] for k in range(ch)] for i in range(n)]
    if c['m'] == 'raw':
        R = T.Raw().fit(X).transform(X)
        want = [v for s in A for row in s for v in row]
        shape = (n, ch, t)
    elif c['m'] == 'derivate':
        e = T.Derivate(random=True) if c['order'] == 'random' else T.Derivate(order=c['order'])
        e.fit(X)
        R = e.transform(X)
        k = e.order
        if c['order'] == 'random':
            h.check('a random order is at least one', 1 <= int(k) <= 4)
        else:
            h.check('the order is kept', k == c['order'])
        want = []
        for s in A:
            for row in s:
                for _ in range(int(k)):
                    row = [b - a for a, b in zip(row, row[1:])]
                want += row
        shape = (n, ch, t - int(k))
    elif c['m'] == 'pgram':
        e = T.Periodigram(random=True) if c['window'] == 'random' else T.Periodigram(window_type=c['window'])
        e.fit(X)
        R = e.transform(X)
        if c['window'] != 'random':
            h.check('the window is kept', e.window_type == c['window'])
        want = []
        for s in A:
            for row in s:
                want += [h.uf('pgram_%s_False_density_%d_%d' % (e.window_type, t, q), row) for q in range(t // 2 + 1)]
        shape = (n, ch, t // 2 + 1)
    else:
        e = T.FastHankelTransform(**(dict(c['par'], use_optimal_offset=c['opt']) if c['par'] else {}))
        e.fit(X)
        R = e.transform(X)
        p = dict(dln=0.01, mu=1, offset=0.0, bias=0.0)
        p.update(c['par'])
        if c['opt'] or c['opt'] is None:
            p['offset'] = round(0.125 * (1 + p['dln']) + 0.37 * p['mu'] + 0.21 * p['bias'], 6)
        want = []
        for s in A:
            for row in s:
                want += [h.uf('fht_%s_%s_%s_%s_%d_%d' % (p['dln'], p['mu'], p['offset'], p['bias'], t, q), row)
                         for q in range(t)]
        shape = (n, ch, t)
    h.ck_arr('result', R, want, shape)
    h.check('the input is left unmodified', h.same(before, h.snapshot(X)))
    h.out('R', R)
    h.reach(c['m'])


def scaler(h, c, T):
    np = h.np
    n, m = c['n'], c['cols']
    cols = []
    for j in range(m):
        if 'const' in c and j in c['const']:
            cols.append([h.real('k%d' % j)] * n)
        elif c.get('semi'):
            v = [generic_value('f', j, i) for i in range(n)]
            v[(j * j + 1) % n] = h.real('f%d' % j)
            cols.append(v)
        else:
            cols.append([h.real('f%d.%d' % (i, j)) for i in range(n)])
    keep = []
    for j, col in enumerate(cols):
        const = h.and_(*[h.eq(v, col[0]) for v in col[1:]])
        if c.get('semi'):
            const = j in c['const']
        elif 'const' in c and j not in c['const']:
            h.assume(h.lt(col[0] + 1, col[1]))
            const = False
        if not h.truth(const):
            if 'const' not in c:
                # not constant: differences lost in rounding are outside the claim
                h.assume(h.or_(*[h.lt(1e-6, h.abs(v - col[0]), exact=True) for v in col[1:]]))
                h.assume(h.and_(*[h.lt(h.abs(v), 100, exact=True) for v in col]))
            keep.append(j)
    if not keep:
        h.reach('only constant columns')
        return
    F = np.asarray([[cols[j][i] for j in range(m)] for i in range(n)], dtype=float)
    G = h.reals('g', (2, m))
    for j in range(m):
        if j not in keep:
            h.rounding(h.mode == 'conc' and np.std(F[:, j]) != 0)
    bF, bG = h.snapshot(F), h.snapshot(G)
    s = getattr(T, c['cls'])()
    s.fit(F)
    for name, D in (('training data', F), ('new data', G)):
        R = s.transform(D)
        h.check(name + ': one column per feature that varies', tuple(R.shape) == (D.shape[0], len(keep)))
        for q, j in enumerate(keep):
            col = cols[j]
            if c['cls'] == 'c_StandardScaler':
                lo, sc = h.mean(col), h.std(col)
            else:
                lo = hi = col[0]
                for v in col[1:]:
                    lo = h.ite(h.lt(v, lo), v, lo) if h.mode == 'sym' else min(v, lo)
                    hi = h.ite(h.lt(hi, v), v, hi) if h.mode == 'sym' else max(v, hi)
                sc = hi - lo
            for i in range(D.shape[0]):
                h.check('%s: row %d column %d is feature %d' % (name, i, q, j),
                        h.eq(R[i, q] * sc, D[i, j] - lo))
    h.check('the data is left unmodified', h.and_(h.same(bF, h.snapshot(F)), h.same(bG, h.snapshot(G))))
    h.reach('scaler')
