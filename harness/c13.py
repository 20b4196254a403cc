"""C13: recognition of the input kind."""
from harness.capture import record
from harness.util import KINDS, kind_strings, sym_series

U, V, M, W = KINDS
BOUNDS = 'every container (3D array of 12 dtypes, list of 2D arrays, object array of 2D arrays), 1-3 channels, 1-3 ' \
         'samples, equal and mixed lengths of 3-6 points, arbitrary contents; every shape of 0-4 dimensions with sizes ' \
         '0-3; every transform_type name in lower, upper and mixed case and unknown names'
OUTSIDE = 'lists of lists; complex and string data; pandas containers'
DT = ('float64', 'float32', 'float16', 'int64', 'int32', 'int16', 'int8', 'uint8', 'uint16', 'uint32', 'uint64', 'longdouble')


def configs(tier):
    out = []
    for dt in DT:
        for nch in (1, 2):
            out.append({'m': 'auto', 'box': 'array', 'dt': dt, 'nch': nch, 'lens': [4, 4]})
    for box in ('list', 'object'):
        for nch in (1, 2, 3):
            for lens in ([4, 3], [5], [3, 6, 4], [4, 4]):
                out.append({'m': 'auto', 'box': box, 'dt': 'float64', 'nch': nch, 'lens': lens})
        out.append({'m': 'auto', 'box': box, 'dt': 'int64', 'nch': 1, 'lens': [4, 3]})
        out.append({'m': 'auto', 'box': box, 'dt': 'int64', 'nch': 2, 'lens': [4, 3]})
    for nch in (1, 3):
        out.append({'m': 'auto', 'box': 'array', 'dt': 'float64', 'nch': nch, 'lens': [3]})
        out.append({'m': 'auto', 'box': 'array', 'dt': 'float64', 'nch': nch, 'lens': [3, 3, 3]})
    for k in KINDS:
        for cs in (0, 1, 2):
            out.append({'m': 'explicit', 'kind': k, 'case': cs, 'nch': 1 if k in (U, V) else 2})
    out.append({'m': 'explicit', 'kind': M, 'case': 0, 'nch': 1})
    out.append({'m': 'explicit', 'kind': W, 'case': 0, 'nch': 1})
    out.append({'m': 'unknown'})
    for nd in range(0, 5):
        out.append({'m': 'shape', 'nd': nd})
    for box in ('array', 'list', 'object'):
        for nch in (1, 2):
            out.append({'m': 'same', 'box': box, 'nch': nch, 'lens': [4, 4] if box == 'array' else [4, 3]})
    return out


def container(h, box, S, dt='float64'):
    np = h.np
    if box == 'array':
        return np.asarray(S, dtype=dt)
    xs = [np.asarray(s, dtype=dt) for s in S]
    if box == 'list':
        return xs
    X = np.empty(len(xs), dtype=object)
    for i, x in enumerate(xs):
        X[i] = x
    return X


def data(h, c):
    dt = c.get('dt', 'float64')
    if dt.startswith(('int', 'uint')):
        return [[[h.int('x%d.%d[%d]' % (i, k, t), 0, 100) for t in range(n)] for k in range(c['nch'])]
                for i, n in enumerate(c['lens'])]
    return [sym_series(h, 'x%d' % i, n, c['nch']) for i, n in enumerate(c['lens'])]


def kind_of(box, nch):
    return {('array', False): U, ('array', True): M}.get((box, nch > 1)) or (W if nch > 1 else V)


def ck_call(h, what, call, kind, S):
    """the data reached the functions of the right kind"""
    h.check('%s: %s functions used, expected %s' % (what, call['kind'], kind), call['kind'] == kind)
    a = call['args']
    if 'X' not in a:
        h.unsupported('no argument X')
    X = a['X']
    T = max(len(s[0]) for s in S)
    h.check(what + ': shape', tuple(X.shape) == (len(S), len(S[0]), T))
    h.check(what + ': dtype', X.dtype == h.np.float64)
    for i, s in enumerate(S):
        for k, row in enumerate(s):
            if T:
                h.ck_list('%s: series %d channel %d' % (what, i, k), h.elems(X[i, k])[:len(row)], row)
    if kind in (V, W):
        h.ck_list(what + ': lengths', h.elems(a['X_len']) if 'X_len' in a else [None], [len(s[0]) for s in S])


def run(h, c):
    np = h.np
    R = h.load('convst.transformers').R_DST
    kw = dict(n_shapelets=1, shapelet_lengths=[3], random_state=0, proba_norm=0.0)
    m = c['m']
    names = kind_strings(h)
    if m == 'auto':
        calls = record(h, lambda call: np.zeros((call['args']['X'].shape[0], 3)))
        S = data(h, c)
        X = container(h, c['box'], S, c['dt'])
        if h.mode == 'conc':
            S = [[h.elems(row) for row in x] for x in X]     # what the element type holds
        y = np.asarray([i % 2 for i in range(len(S))])
        est = R(**kw)
        est.fit(X, y)
        kind = kind_of(c['box'], c['nch'])
        h.check('one generation', len(calls) == 1)
        ck_call(h, 'fit', calls[0], kind, S)
        est.transform(X)
        h.check('one transform', len(calls) == 2 and calls[1]['what'] == 'transform')
        ck_call(h, 'transform', calls[1], kind, S)
        h.reach(kind)
    elif m == 'explicit':
        calls = record(h, lambda call: np.zeros((call['args']['X'].shape[0], 3)))
        nm = names[c['kind']]
        nm = [nm, nm.upper(), nm.title()][c['case']]
        c = dict(c, lens=[4, 4] if c['kind'] in (U, M) else [4, 5])
        S = data(h, c)
        X = container(h, 'array' if c['kind'] in (U, M) else 'list', S)
        est = R(transform_type=nm, **kw)
        est.fit(X, np.asarray([0, 1]))
        ck_call(h, 'fit', calls[0], c['kind'], S)
        est.transform(X)
        ck_call(h, 'transform', calls[1], c['kind'], S)
        h.reach(c['kind'])
    elif m == 'unknown':
        for nm in ('', 'auto2', 'univariate_', 'variable', 'multi', 'multivariate variable', 'uni', 'none'):
            h.ck_raises('transform_type %r' % nm, ValueError, R, transform_type=nm)
        h.ck_raises('transform_type of the wrong kind', ValueError, R, transform_type='univariate_same_length')
    elif m == 'shape':
        sh = tuple(h.choose('d%d' % i, 4) for i in range(c['nd']))
        X = np.zeros(sh)
        y = np.asarray([0] * (sh[0] if sh else 1))
        calls = record(h)
        good = len(sh) == 3 and all(s > 0 for s in sh) and sh[2] >= 3
        if good:
            R(**kw).fit(X, y)
            h.check('accepted', len(calls) == 1)
            h.reach('accepted')
        else:
            h.ck_raises('array of shape %s' % (sh,), ValueError, R(**kw).fit, X, y)
            h.check('nothing generated', not calls)
            h.reach('rejected')
    else:
        S = data(h, c)
        X = container(h, c['box'], S)
        y = np.asarray([0, 1])
        kind = kind_of(c['box'], c['nch'])
        a, b = R(**kw), R(transform_type=names[kind], **kw)
        a.fit(X, y)
        b.fit(X, y)
        h.check('structure', len(a.shapelets_) == len(b.shapelets_))
        for i, (p, q) in enumerate(zip(a.shapelets_, b.shapelets_)):
            h.ck_arr('array %d' % i, p, h.elems(q), tuple(q.shape))
        h.pinned = True
        ta, tb = a.transform(X), b.transform(X)
        h.ck_arr('features', ta, h.elems(tb), tuple(tb.shape))
