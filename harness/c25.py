"""C25: helper tables."""
BOUNDS = 'is_prime: every n up to 60 (thorough 130); prime_up_to: every n up to 32 (thorough 80); pairs: 1-3 pairs of arbitrary ' \
         'integers (thorough 4); choice_log: 1-8 choices, 1-3 draws, every random draw; nb_unique: up to 4 x 2 and 3 x 3 real ' \
         'or integer entries, both axes, also 24-40 rows fixed but for one arbitrary entry; np.all overload: up to 3 x 3 boolean, integer or real entries, axis None, 0, 1; ' \
         'distances: vectors of 1-5 (thorough 8) points'
OUTSIDE = 'larger tables; NaN; empty inputs; the distribution of choice_log beyond every index being possible'
BUDGET = {'quick': 120, 'thorough': 900}
PRIMES = [1, 2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89, 97, 101, 103, 107,
          109, 113, 127]


def configs(tier):
    big = tier == 'thorough'
    top = 130 if big else 60
    out = [{'m': 'prime', 'lo': lo, 'hi': min(top, lo + 14)} for lo in range(0, top, 15)]
    out += [{'m': 'upto', 'lo': lo, 'hi': lo + 7} for lo in range(0, 80 if big else 32, 8)]
    for n in range(1, 5 if big else 4):
        out.append({'m': 'pairs', 'n': n})
    for n in range(1, 9):
        for k in (1, 2, 3):
            if n ** k <= (512 if big else 64):
                out.append({'m': 'choice', 'n': n, 'k': k})
    shapes = [(1, 1), (2, 1), (3, 1), (4, 1), (1, 2), (2, 2), (3, 2), (2, 3), (1, 3), (3, 3)] + ([(4, 2)] if big else [])
    for r, c in shapes:
        for integer in (False, True):
            if integer and r * c > 6:
                continue
            for ax in (0, 1, None):
                if ax is None and (r, c) not in ((2, 2), (3, 1)):
                    continue
                out.append({'m': 'unique', 'r': r, 'c': c, 'axis': ax, 'int': integer})
    # many rows, all but one cell fixed
    for r, k, cell in ((24, 2, (7, 1)), (24, 2, (11, 0)), (40, 1, (20, 0)), (33, 3, (30, 2))):
        for ax in (0, 1):
            out.append({'m': 'unique', 'r': r, 'c': k, 'axis': ax, 'int': ax == 1, 'cell': cell})
    for r in (1, 2, 3):
        for c in (None, 1, 2, 3):
            for dt in ('bool', 'int', 'real'):
                if r * (c or 1) > (6 if dt != 'bool' and not big else 9):
                    continue
                out.append({'m': 'all', 'r': r, 'c': c, 'dt': dt})
    out += [{'m': 'dist', 'n': n} for n in range(1, 9 if big else 6)]
    return out


def m_dist(h, c):
    n = c['n']
    C = commons(h)
    x, y = h.reals('x', n, -1000, 1000), h.reals('y', n, -1000, 1000)
    d = [a - b for a, b in zip(h.elems(x), h.elems(y))]
    h.check('manhattan', h.eq(fn(h, C, 'manhattan')(x, y), h.sum([h.abs(v) for v in d])))
    h.check('squared euclidean', h.eq(fn(h, C, 'squared_euclidean')(x, y), h.sum([v * v for v in d])))
    h.check('euclidean', h.eq(fn(h, C, 'euclidean')(x, y), h.sqrt(h.sum([v * v for v in d]))))
    h.check('inputs are kept', h.all_eq([a - b for a, b in zip(h.elems(x), h.elems(y))], d))
    h.reach('dist')


def run(h, c):
    return globals()['m_' + c['m']](h, c)


def commons(h):
    return h.load('convst.transformers._commons')


def fn(h, mod, name):
    f = getattr(mod, name, None)
    if f is None:
        h.unsupported('no function ' + name)
    return f


def m_prime(h, c):
    f = fn(h, commons(h), 'is_prime')
    n = h.int('n', c['lo'], c['hi'])
    got = f(n)
    h.check('is_prime', h.eq(h.truth(got), h.or_(*[h.eq(n, p) for p in PRIMES])))
    h.reach('prime')


def m_upto(h, c):
    f = fn(h, commons(h), 'prime_up_to')
    n = c['lo'] + h.choose('n', c['hi'] - c['lo'] + 1)
    got = f(n)
    h.ck_list('primes up to n', [v for v in h.elems(got)], [p for p in PRIMES if p <= n])
    h.reach('upto')


def m_pairs(h, c):
    f = fn(h, commons(h), '_combinations_1d')
    n, np = c['n'], h.np
    if h.mode == 'sym':
        h.eng.rank_unique = True
    x = h.ints('x', n, -3, 40)
    y = h.ints('y', n, -3, 40)
    x, y = h.elems(x), h.elems(y)
    xa, ya = np.asarray(x, dtype=np.int64), np.asarray(y, dtype=np.int64)
    r = f(xa, ya)
    if len(r.shape) != 2 or r.shape[1] != 2:
        h.check('two columns', False)
        return
    e = h.elems(r)
    rows = [(e[2 * i], e[2 * i + 1]) for i in range(r.shape[0])]
    for i in range(n):
        h.check('every pair is listed', h.or_(*[h.and_(h.eq(a, x[i]), h.eq(b, y[i])) for a, b in rows]))
    for i, (a, b) in enumerate(rows):
        h.check('only pairs of the input', h.or_(*[h.and_(h.eq(a, x[k]), h.eq(b, y[k])) for k in range(n)]))
        for a2, b2 in rows[:i]:
            h.check('listed once', h.not_(h.and_(h.eq(a, a2), h.eq(b, b2))))
    h.ck_list('x unchanged', h.elems(xa), x)
    h.ck_list('y unchanged', h.elems(ya), y)
    h.reach('pairs')


def m_choice(h, c):
    f = fn(h, commons(h), 'choice_log')
    n, k = c['n'], c['k']
    r = f(n, k)
    h.check('number of indices', len(r.shape) == 1 and r.shape[0] == k)
    e = h.elems(r)
    for v in e:
        h.check('index in range', h.and_(h.le(0, v), h.lt(v, n)))
    h.reach('choice')
    if k == 1 and h.mode == 'sym':
        h.reach('index %d' % int(e[0]))


def lex(h, a, b):
    """a < b"""
    if not a:
        return False
    return h.or_(h.lt(a[0], b[0]), h.and_(h.eq(a[0], b[0]), lex(h, a[1:], b[1:])))


def same(h, a, b):
    return h.and_(*[h.eq(u, v) for u, v in zip(a, b)])


def m_unique(h, c):
    np = h.np
    f = fn(h, h.load('convst.utils.numba_utils'), 'nb_unique')
    r, k, ax = c['r'], c['c'], c['axis']
    if c.get('cell'):
        # (few different values, in an order that is neither sorted nor reversed)
        v = [float((7 * i * i + 3 * i + 5 * j * i + j) % 11 % 4) for i in range(r) for j in range(k)]
        i, j = c['cell']
        v[i * k + j] = h.int('a', -1, 5) if c['int'] else h.real('a')
        v = [int(q) if c['int'] and not h.is_sym(q) else q for q in v]
    else:
        v = h.elems(h.ints('a', (r, k), -5, 5) if c['int'] else h.reals('a', (r, k)))
    rows = [v[i * k:(i + 1) * k] for i in range(r)]
    if ax == 1:
        arr = [[rows[i][j] for i in range(r)] for j in range(k)]
    else:
        arr = rows
    A = np.asarray(arr, dtype=np.int64 if c['int'] else float)
    before = h.elems(A)
    out = f(A) if ax is None else f(A, axis=ax)
    h.check('three results', len(out) == 3)
    U, idx, cnt = out
    if len(U.shape) != 2 or U.shape[1] != k:
        h.check('rows of the result', False)
        return
    m = U.shape[0]
    h.check('one index and count per row', tuple(idx.shape) == (m,) and tuple(cnt.shape) == (m,))
    u = h.elems(U)
    us = [u[i * k:(i + 1) * k] for i in range(m)]
    ix, cn = h.elems(idx), h.elems(cnt)
    for i in range(m - 1):
        h.check('sorted and distinct', lex(h, us[i], us[i + 1]))
    for i in range(m):
        first = None
        total = h.sum([h.ite(same(h, us[i], q), 1, 0) for q in rows])
        h.check('count', h.eq(cn[i], total))
        h.check('occurs', h.le(1, total))
        for j in range(r):
            is_first = h.and_(same(h, us[i], rows[j]), *[h.not_(same(h, us[i], rows[q])) for q in range(j)])
            h.check('index of the first occurrence', h.implies(is_first, h.eq(ix[i], j)))
    for q in rows:
        h.check('every row is listed', h.or_(*[same(h, p, q) for p in us]))
    h.ck_list('input unchanged', h.elems(A), before)
    h.reach('unique')


def m_all(h, c):
    np = h.np
    h.load('convst.utils.numba_utils')
    from_ = [i for fn_, i in h.w.overloads if fn_ is np.all]
    if not from_:
        h.reach('all')   # numba's own np.all is used
        return
    impl = from_[-1]
    ty = h.load('numba').types
    r, k = c['r'], c['c']
    n = r * (k or 1)
    if c['dt'] == 'bool':
        v = [h.bool('b%d' % i) for i in range(n)]
        t = [h.truth(x) for x in v] if h.mode == 'conc' else v
        A = np.asarray(v, dtype=bool)
    elif c['dt'] == 'int':
        v = h.elems(h.ints('b', n, -2, 2))
        t = [h.not_(h.eq(x, 0)) for x in v]
        A = np.asarray(v, dtype=np.int64)
    else:
        v = h.elems(h.reals('b', n))
        t = [h.not_(h.ident(x, 0)) for x in v]
        A = np.asarray(v, dtype=float)
    if k is not None:
        A = A.reshape(r, k)
    before = h.elems(A)
    X = ty.Array(ndim=2 if k else 1)
    for name, tx, ax in (('None', ty.none, None), ('0', ty.Integer(), 0), ('1', ty.Integer(), 1),
                         ('optional', ty.Optional(type=ty.Integer()), 0)):
        if k is None and ax == 1:
            continue
        got = impl(X, axis=tx)(A, axis=ax)
        if k is None or ax is None:
            h.check('all, axis ' + name, h.eq(as_bool(h, got), h.and_(*t)))
            continue
        e = [as_bool(h, g) for g in h.elems(got)]
        want = [h.and_(*[t[i * k + j] for i in range(r)]) for j in range(k)] if ax == 0 else \
            [h.and_(*t[i * k:(i + 1) * k]) for i in range(r)]
        h.check('shape, axis ' + name, len(e) == len(want))
        for a, b in zip(e, want):
            h.check('all, axis ' + name, h.eq(a, b))
    h.ck_list('input unchanged', h.elems(A), before)
    h.reach('all')


def as_bool(h, g):
    if g is True or g is False:
        return g
    if h.mode == 'conc':
        return bool(g)
    return h.truth(g)
