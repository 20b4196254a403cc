"""C29: predictions are per series, scores are the share of correct ones."""
from harness.capture import get, record
from harness.util import KINDS, batch

U, V, M, W = KINDS
BOUNDS = 'R_DST_Ridge and R_DST_Ensemble (1-2 members), four data kinds, batches of 1-3 series in both orders, 2-3 classes ' \
         'labelled by integers, strings or booleans, every decision score and member probability, every assignment of true ' \
         'labels (including labels never seen in training). Also 4-5 members, 4 classes, batches of 7 and 12 series with one fixed outcome of ' \
         'the libraries but for some arbitrary values'
OUTSIDE = 'the numerical ridge regression and softmax (arbitrary functions of the scaled features of one series)'
LABELS = {'01': [0, 1], '52': [5, 2], 'str': ['b', 'a'], 'bool': [True, False], 'four': [4, 1, 9, -2], '012': [0, 1, 2], 'gap': [7, 30, -4],
          'abc': ['z', 'x', 'y']}
UNSEEN = {'01': 4, '52': 3, 'str': 'q', 'bool': None, '012': 5, 'gap': 8, 'four': 0, 'abc': 'w'}


def configs(tier):
    out = []
    for c in ('ridge', 'ensemble'):
        for kind in KINDS:
            out.append({'c': c, 'kind': kind, 'lab': '52', 'n': 3, 'nm': 1, 'm': 'batch'})
        for lab in LABELS:
            if lab == 'four':
                continue
            two = len(LABELS[lab]) == 2
            out.append({'c': c, 'kind': U, 'lab': lab, 'n': 3 if two else 2, 'nm': 1, 'm': 'score'})
        out.append({'c': c, 'kind': W, 'lab': 'str', 'n': 2, 'nm': 1, 'm': 'score'})
        out.append({'c': c, 'kind': V, 'lab': 'abc', 'n': 1, 'nm': 1, 'm': 'score'})
    for kind in KINDS:
        out.append({'c': 'ensemble', 'kind': kind, 'lab': 'str', 'n': 2, 'nm': 2, 'm': 'batch'})
    out.append({'c': 'ensemble', 'kind': U, 'lab': 'gap', 'n': 2, 'nm': 2, 'm': 'batch'})
    # most values fixed
    for kind in KINDS:
        for c, nm, lab, n in (('ridge', 1, 'four', 7), ('ensemble', 5, 'four', 7), ('ensemble', 4, 'abc', 12),
                              ('ridge', 1, '52', 12)):
            out.append({'c': c, 'kind': kind, 'lab': lab, 'n': n, 'nm': nm, 'm': 'batch', 'semi': 2 * nm + n if nm == 1 else 2 * nm})
            out.append({'c': c, 'kind': kind, 'lab': lab, 'n': n, 'nm': nm, 'm': 'score', 'semi': 12 + n if nm == 1 else 2 * nm})
    if tier == 'thorough':
        for c in ('ridge', 'ensemble'):
            out.append({'c': c, 'kind': U, 'lab': 'abc', 'n': 3, 'nm': 1, 'm': 'score'})
            out.append({'c': c, 'kind': V, 'lab': '52', 'n': 4, 'nm': 1, 'm': 'score'})
        out.append({'c': 'ensemble', 'kind': W, 'lab': 'abc', 'n': 2, 'nm': 2, 'm': 'batch'})
    return out


def series(kind, n, tag):
    nch = 2 if kind in (M, W) else 1
    return [[[float((11 * i + 5 * k + 3 * tag + t * t) % 17 + t) for t in range(6 + (i % 3 if kind in (V, W) else 0))]
             for k in range(nch)] for i in range(n)]


def feats(h, kind):
    def f(call):
        X = get(h, call, 'X')
        L = [int(v) for v in h.elems(get(h, call, 'X_len'))] if kind in (V, W) else [X.shape[2]] * len(X)
        rows = []
        for x, n in zip(X, L):
            e = [[float(v) for v in h.elems(r)[:n]] for r in x]
            s = sum((j + 1) * (k + 2) * v for k, r in enumerate(e) for j, v in enumerate(r))
            rows.append([s, s % 89, e[0][0]])
        return h.np.asarray(rows)
    return f


def run(h, c):
    np = h.np
    kind, labs = c['kind'], LABELS[c['lab']]
    record(h, feats(h, kind))
    h.w.pin_ridge = True
    h.w.semi_lib = c.get('semi', 0)
    order = sorted(labs)
    K = len(labs)
    ty = [labs[(i + 1) % K] for i in range(K + 1)]
    S = series(kind, len(ty), 0)
    if c['c'] == 'ridge':
        est = h.load('convst.classifiers').R_DST_Ridge(n_shapelets=1, shapelet_lengths=[3], random_state=0,
                                                       alphas_ridge=[1.0])
    else:
        T = h.load('convst.transformers._input_transformers')
        est = h.load('convst.classifiers').R_DST_Ensemble(
            n_shapelets_per_estimator=1, shapelet_lengths=[3], random_state=0, alphas_ridge=[1.0],
            proba_norm=[0.5] * c['nm'], input_transformers=[T.Raw() for _ in range(c['nm'])])
    est.fit(batch(h, kind, S), np.asarray(ty))
    n = c['n']
    Z = series(kind, n, 1)

    def predict(rows):
        p = est.predict(batch(h, kind, [Z[i] for i in rows]))
        h.check('one label per series', tuple(getattr(p, 'shape', (len(p),))) == (len(rows),))
        out = []
        for v in list(p):
            k = [o for o in order if h.truth(v == o)]
            h.check('a training label', len(k) == 1)
            h.check('same type of label', isinstance(v, str) == isinstance(order[0], str))
            out.append(k[0])
        return out
    if c['m'] == 'batch':
        P = predict(range(n))
        if c['c'] == 'ridge':
            d = h.w.recs('ridge.decision')[-1]['out']
            for i in range(n):
                k = order.index(P[i])
                v = [-d[i], d[i]] if K == 2 else h.elems(d[i])
                h.check('label of the largest score', h.and_(*[h.le(x, v[k]) for x in v]))
        for i in range(n):
            h.check('series %d alone' % i, predict([i]) == [P[i]])
        if n > 4:
            for part in (range(0, n, 2), range(1, n, 3), [n - 1, 0, 3]):
                h.check('part %s' % list(part), predict(part) == [P[i] for i in part])
        h.check('reversed batch', predict(range(n)[::-1]) == P[::-1])
        h.check('repeated series', predict([0, 0]) == [P[0], P[0]])
    else:
        opts = labs + [UNSEEN[c['lab']]] if UNSEEN[c['lab']] is not None else labs
        yt = [opts[h.choose('y%d' % i, len(opts)) if i < 2 or not c.get('semi') else i % len(opts)] for i in range(n)]
        P = predict(range(n))
        s = est.score(batch(h, kind, Z), np.asarray(yt))
        h.check('share of correct predictions', h.eq(s, sum(1 for a, b in zip(P, yt) if a == b) / n))
        h.check('between 0 and 1', h.and_(h.le(0, s), h.le(s, 1)))
    h.reach(c['m'])
