"""C23: interpretation."""
from harness.util import fitted, batch, sym_shapelet, sym_series, semi_series, semi_shapelet, dist
from harness.capture import get, record

BOUNDS = 'univariate models, equal and variable length, 1-3 shapelets of length 2-3 and dilation 1-2, series of 3-6 points, ' \
         'phase on and off, normalised or not, with and without a given axis; classifiers with 2-3 classes, 1-3 shapelets and ' \
         'up to 4 features that are not dropped, every coefficient vector, 1-3 shapelets asked for; contents arbitrary reals; also models of ' \
         '3 shapelets of length 2-11 and dilation up to 17 with series of 19-25 points, one value of each symbolic'
SCALED = True
OUTSIDE = 'multivariate models (rejected by the interpreter); the ensemble interpreter (not implemented); the rendering itself'
BUDGET = {'quick': 120, 'thorough': 900}


def configs(tier):
    out = []
    cases = [(0, [(2, 1, 0)], 4), (1, [(2, 1, 0)], 4), (0, [(2, 2, 1)], 4), (1, [(2, 2, 1)], 4),
             (0, [(3, 1, 1), (2, 1, 0)], 4), (1, [(2, 1, 0), (3, 2, 1)], 5), (0, [(2, 3, 0), (3, 2, 0), (2, 1, 1)], 5),
             (0, [(3, 2, 1)], 6), (1, [(3, 2, 0)], 4), (0, [(2, 1, 1), (2, 3, 1)], 5)]
    if tier == 'thorough':
        cases += [(0, [(3, 2, 1)], 7), (1, [(3, 3, 1)], 6), (0, [(4, 2, 1), (2, 1, 1)], 8), (1, [(4, 1, 0), (2, 2, 0)], 7)]
    for ph, shps, n in cases:
        for kind in ('univariate', 'univariate_variable'):
            out.append({'m': 'shapelet', 'kind': kind, 'phase': bool(ph), 'shp': shps, 'n': n,
                        'ax': (n + len(shps) + ph) % 2 == 0, 'id': len(shps) - 1})
            if len(shps) > 1:
                out.append({'m': 'shapelet', 'kind': kind, 'phase': bool(ph), 'shp': shps, 'n': n, 'ax': n % 2 == 0, 'id': 0})
    # larger: most of the contents fixed
    for ph, shps, n in ((0, [(5, 3, 0), (9, 1, 0), (4, 5, 1)], 22), (1, [(4, 5, 1), (7, 2, 0), (6, 3, 0)], 19),
                        (0, [(3, 9, 1), (11, 2, 0), (2, 17, 0)], 25), (1, [(9, 1, 0), (3, 7, 1), (5, 4, 0)], 24)):
        for i in range(3):
            out.append({'m': 'shapelet', 'kind': ('univariate', 'univariate_variable')[(i + n) % 2], 'phase': bool(ph),
                        'shp': shps, 'n': n, 'ax': i == 1, 'id': i, 'semi': True})
    for S, keep, K in ((1, [1], 2), (1, [0, 2], 3), (2, [0, 4], 2), (2, [1, 2, 3], 2), (2, [0, 3, 4, 5], 3), (3, [2, 3, 7], 2),
                       (3, [0, 1, 2, 8], 3), (3, [1, 4, 5, 8], 2), (2, [0, 1, 2], 2)):
        for cid in range(K):
            out.append({'m': 'ridge', 'S': S, 'keep': keep, 'K': K, 'cid': cid, 'n_shp': 1 + (cid + S) % 3})
    out.append({'m': 'ridge', 'S': 3, 'keep': [0, 3, 6, 7], 'K': 2, 'cid': 1, 'n_shp': 3})
    out.append({'m': 'ridge', 'S': 3, 'keep': [0, 1, 6], 'K': 3, 'cid': 1, 'n_shp': 2})
    if tier == 'thorough':
        out.append({'m': 'ridge', 'S': 3, 'keep': [0, 1, 4, 6, 8], 'K': 2, 'cid': 0, 'n_shp': 2})
        out.append({'m': 'ridge', 'S': 4, 'keep': [2, 3, 7, 9, 10], 'K': 3, 'cid': 2, 'n_shp': 3})
    out.append({'m': 'types'})
    return out


class Ax(object):
    def __init__(self, log):
        self._log = log

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)

        def f(*a, **k):
            self._log.append(('ax.' + n, a, k))
        return f


def xy(h, a, k):
    """the points of a plot call"""
    a = [v for v in a if not isinstance(v, str)]
    if len(a) == 0:
        return h.elems(k['x']), h.elems(k['y'])
    if len(a) == 1 and 'y' in k:
        return h.elems(a[0]), h.elems(k['y'])
    if len(a) == 1:
        e = h.elems(a[0])
        return list(range(len(e))), e
    return h.elems(a[0]), h.elems(a[1])


def calls(log, name):
    return [(a, k) for p, a, k in log if p.split('.')[-1] == name]


def hline(log):
    c = calls(log, 'hlines') or calls(log, 'axhline')
    return [(a[0] if a else k['y']) for a, k in c]


def run(h, c):
    if c['m'] == 'ridge':
        return ridge(h, c)
    I = h.load('convst.interpreters.rdst_interpreter')
    if c['m'] == 'types':
        h.ck_raises('not an R_DST', Exception, I.RDST_interpreter, object())
        h.ck_raises('not fitted', Exception, I.RDST_interpreter, h.load('convst.transformers').R_DST())
        return
    n, ph = c['n'], c['phase']
    mk_s, mk_x = (semi_shapelet, semi_series) if c.get('semi') else (sym_shapelet, sym_series)
    shps = [mk_s(h, 's%d' % i, l, d, bool(nm)) for i, (l, d, nm) in enumerate(c['shp'])]
    est = fitted(h, c['kind'], shps, ph, n_ch=1)
    x = mk_x(h, 'x', n)
    other = mk_x(h, 'z', n + 1 if c['kind'].endswith('variable') else n)
    F = est.transform(batch(h, c['kind'], [other, x]))
    k = c['id']
    s = shps[k]
    D = dist(h, s, x, ph)
    if h.mode == 'conc':
        # equal up to rounding: which one is the first is outside the claim
        q = sorted(float(v) for v in D)
        h.rounding(any(a < b < a + 1e-7 for a, b in zip(q, q[1:])))
        h.rounding(len(q) > 1 and s['norm'] and q[1] - q[0] <= 1e-7)
    it = I.RDST_interpreter(est)
    X = h.np.asarray(x[0], dtype=float)
    before = h.snapshot(X)
    model = h.snapshot(list(est.shapelets_))
    log = []
    kw = {'ax': Ax(log)} if c['ax'] else {}

    def draw(f):
        del log[:]
        del h.w.plots[:]
        f()
        return list(log) if c['ax'] else list(h.w.plots)
    # the shapelet itself
    p = calls(draw(lambda: it.plot(k, **kw)), 'plot')
    h.check('values: one line', len(p) == 1)
    h.ck_list('values', xy(h, *p[0])[1], s['v'])
    # distance vector
    log1 = draw(lambda: it.plot_distance_vector(k, X, **kw))
    p = calls(log1, 'plot')
    h.check('distance vector: one line', len(p) == 1)
    C = xy(h, *p[0])[1]
    h.ck_list('distance vector', C, D)
    t = hline(log1)
    h.check('threshold: one line', len(t) == 1)
    h.check('threshold', h.eq(t[0], s['thr']))
    mn, am = F[1, 3 * k], F[1, 3 * k + 1]
    h.check('the minimum is that of transform', h.and_(h.or_(*[h.eq(mn, v) for v in C]), *[h.le(mn, v) for v in C]))
    # best match
    log2 = draw(lambda: it.plot_on_X(k, X, **kw))
    p, q = calls(log2, 'plot'), calls(log2, 'scatter')
    h.check('best match: series and shapelet', len(p) == 1 and len(q) == 1)
    h.ck_list('series', xy(h, *p[0])[1], x[0])
    ix, vals = xy(h, *q[0])
    ix = [int(i) for i in ix]
    h.check('best match: number of points', len(ix) == s['l'] and len(vals) == s['l'])
    h.check('best match: the first point is transform\'s position', h.eq(ix[0], am))
    for j in range(s['l']):
        h.check('best match: point %d' % j, ix[j] == (ix[0] + j * s['d']) % n)
    w = [x[0][i] for i in ix]
    if s['norm']:
        sd, m = h.std(w), h.mean(w)
        h.ck_list('best match: rescaled values', vals, [v * sd + m for v in s['v']])
    else:
        h.ck_list('best match: values', vals, s['v'])
    h.check('the series is left unmodified', h.same(before, h.snapshot(X)))
    h.check('the model is left unmodified', h.same(model, h.snapshot(list(est.shapelets_))))
    h.reach('shapelet')


def named(title, default):
    """the feature an axis title announces"""
    for w, j in (('argmin', 1), ('occur', 2), ('min', 0)):
        if w in title:
            return j
    return default


def ridge(h, c):
    np = h.np
    S, keep, K, cid = c['S'], c['keep'], c['K'], c['cid']

    def feats(call):
        X = get(h, call, 'X')
        out = []
        for x in X:
            b = h.elems(x)[0]
            out.append([(b * (j + 1) + j * j) if j in keep else 100.0 + j for j in range(3 * S)])
        return np.asarray(out, dtype=float)
    record(h, feats)
    C = h.load('convst.classifiers').R_DST_Ridge
    y = np.asarray(list(range(K)) + [1, 0])
    N = len(y)
    X = np.asarray([[[float(i * i + 3), 1.0 + i, 5.0 - i, 2.0]] for i in range(N)])
    h.w.pin_ridge = False
    est = C(n_shapelets=1, shapelet_lengths=[3], random_state=0, alphas_ridge=[1.0])
    est.fit(X, y)
    coef = h.w.recs('ridge.fit')[0]['est'].coef_
    h.check('one coefficient per kept feature', coef.shape[1] == len(keep))
    tr = est.transformer
    shps = [dict(v=[10.0 * i + 1, 10.0 * i + 2, 10.0 * i + 5], l=3, d=1, thr=float(i), norm=False, ch=[0]) for i in range(S)]
    from harness.util import pack_uni
    tr.shapelets_ = pack_uni(h, shps)
    full = [0] * (3 * S)
    for q, j in enumerate(keep):
        full[j] = coef[cid, q] if K > 2 else (coef[0, q] if cid == 1 else -coef[0, q])

    def best(s):
        r = full[3 * s]
        for v in full[3 * s + 1:3 * s + 3]:
            r = h.ite(h.lt(r, v, exact=True), v, r)
        return r
    model = h.snapshot(list(tr.shapelets_))
    it = h.load('convst.interpreters.rdst_interpreter').RDST_Ridge_interpreter(est)
    del h.w.plots[:]
    h.pinned = True
    it.visualize_best_shapelets_one_class(X, y, cid, n_shp=c['n_shp'])
    h.pinned = False
    figs = []
    for p, a, k in h.w.plots:
        if p.endswith('subplots'):
            figs.append([])
        elif figs:
            figs[-1].append((p, a, k))
    shown = []
    F = feats({'args': {'X': X}})
    for f in figs:
        sid = None
        for p, a, k in f:
            if p.endswith('.plot'):
                v = [float(q) for q in xy(h, a, k)[1] if not h.is_sym(q)]
                m = [i for i in range(S) if v == shps[i]['v']]
                if m:
                    sid = m[0]
        h.check('a figure shows a shapelet', sid is not None)
        shown.append(sid)
        bx = calls(f, 'boxplot')
        h.check('three box plots', len(bx) == 3)
        titles = {q[:-len('.set_title')]: str(a[0] if a else k.get('label')).lower() for q, a, k in f if q.endswith('.set_title')}
        where = [getattr(k.get('ax'), '_path', None) for a, k in bx]
        if None not in where:
            h.check('every box plot has its own axes', len(set(where)) == 3)
        feat = [named(titles.get(q, ''), j) for j, q in enumerate(where)]
        h.check('box plots of the three features', sorted(feat) == [0, 1, 2])
        for j, (a, k) in zip(feat, bx):
            gx = h.elems(k['x'] if 'x' in k else a[0])
            gy = h.elems(k['y'] if 'y' in k else a[1])
            h.ck_list('box plot %d: feature' % j, gy, [F[i, 3 * sid + j] for i in range(N)])
            h.ck_list('box plot %d: class' % j, [int(v) for v in gx], [int(int(v) == cid) for v in y])
        h.ck_list('threshold lines', hline(f), [shps[sid]['thr']] * len(hline(f)))
        ex = []
        for p, a, k in f:
            if not p.endswith('.plot') or k.get('label') is None:
                continue
            v = [float(q) for q in xy(h, a, k)[1]]
            own = [i for i in range(N) if v == [float(q) for q in h.elems(X[i, 0])]]
            vec = [i for i in range(N) if v == [float(q) for q in dist(h, shps[sid], [h.elems(X[i, 0])], False)]]
            h.check('a line is an example series or its distance vector', len(own) + len(vec) > 0)
            t = titles.get(p[:-len('.plot')], '')
            h.check('no line on the axes of a box plot', p[:-len('.plot')] not in where)
            h.check('line under its title', not ('match' in t and not own or 'distance' in t and not vec))
            i = (own or vec)[0]
            h.check('example of the class', (int(y[i]) == cid) == (k['label'] == 'Class {}'.format(cid)))
            ex.append((bool(own), i))
        h.check('each example with its own distance vector',
                sorted(i for o, i in ex if o) == sorted(i for o, i in ex if not o))
    h.check('the model is left unmodified', h.same(model, h.snapshot(list(tr.shapelets_))))
    h.check('the requested number of shapelets', len(shown) == min(c['n_shp'], S))
    h.check('no repetition', len(set(shown)) == len(shown))
    for a, b in zip(shown, shown[1:]):
        h.check('best first', h.le(best(b), best(a), exact=True))
    for s in range(S):
        if s not in shown:
            h.check('no better one is left out', h.le(best(s), best(shown[-1]), exact=True))
    h.reach('ridge')
