"""C16: ensemble vote."""
from harness.capture import get, record

BOUNDS = '1-3 members, 2-3 classes, 3 training and 1-2 test series, every member probability, leave-one-out value, ' \
         'selected regularisation among 2 given in either order (also nearly equal ones), a_w in {0, 1, 2, 4}, labels: integers (unordered, negative, non contiguous), ' \
         'strings, booleans. Also 5-7 members, 4 classes, 12 training and 5 test series, 4 regularisations with one fixed ' \
         'outcome of the libraries but for some arbitrary values'
OUTSIDE = 'the numerical ridge regression and softmax (arbitrary values); overflow of large powers'

LABELS = {'01': [0, 1], '52': [5, 2], 'neg': [3, -1], 'str': ['b', 'a'], 'str2': ['10', '9'], 'bool': [True, False],
          'four': [4, 1, 9, -2], '012': [0, 1, 2], 'gap': [7, 30, -4], 'abc': ['z', 'x', 'y']}


def configs(tier):
    out = []
    for lab in ('01', '52', 'neg', 'str', 'str2', 'bool'):
        out.append({'lab': lab, 'nm': 2, 'a_w': 4, 'tr': [0, 1, 1], 'nt': 2, 'cv': True})
    for lab in ('012', 'gap', 'abc'):
        out.append({'lab': lab, 'nm': 2, 'a_w': 4, 'tr': [0, 2, 1], 'nt': 1, 'cv': False})
        out.append({'lab': lab, 'nm': 1, 'a_w': 4, 'tr': [0, 2, 1], 'nt': 1, 'cv': True})
    for a_w in (0, 1, 2, 0.5):
        out.append({'lab': '52', 'nm': 1, 'a_w': a_w, 'tr': [0, 1, 1], 'nt': 1, 'cv': True})
    for al in ([1e-9, 2e-9], [1e9 + 1, 1e9], [0.25, 0.25 + 1e-12]):
        out.append({'lab': '52', 'nm': 1, 'a_w': 4, 'tr': [0, 1, 1], 'nt': 1, 'cv': True, 'al': al})
    out.append({'lab': '01', 'nm': 3, 'a_w': 4, 'tr': [0, 1], 'nt': 1, 'cv': True})
    out.append({'lab': 'str', 'nm': 2, 'a_w': 1, 'tr': [1, 0, 1], 'nt': 1, 'cv': True})
    out.append({'lab': 'gap', 'nm': 2, 'a_w': 2, 'tr': [2, 0, 1], 'nt': 2, 'cv': False})
    # most values fixed
    for lab, tr, a_w in (('four', [0, 2, 1, 3, 1, 0, 2], 4), ('52', [0, 1, 1, 0, 1, 0, 0, 1], 2), ('abc', [1, 2, 0, 0, 1, 2], 4),
                         ('four', [3, 2, 1, 0] * 3, 1)):
        for nm in (5, 7):
            out.append({'lab': lab, 'nm': nm, 'a_w': a_w, 'tr': tr, 'nt': 5, 'cv': True, 'al': [1.0, 0.25, 8.0, 2.0],
                        'semi': nm * len(tr) // (1 if len(tr) > 8 else 2)})
    if tier == 'thorough':
        for lab in ('012', 'gap', 'abc'):
            out.append({'lab': lab, 'nm': 2, 'a_w': 4, 'tr': [0, 2, 1], 'nt': 1, 'cv': True})
        out.append({'lab': '52', 'nm': 3, 'a_w': 4, 'tr': [0, 1, 1], 'nt': 2, 'cv': True})
        out.append({'lab': 'str', 'nm': 2, 'a_w': 4, 'tr': [0, 1, 1, 0, 0], 'nt': 2, 'cv': True})
    return out


def run(h, c):
    np = h.np
    labs = LABELS[c['lab']]
    y = np.asarray([labs[i] for i in c['tr']])
    order = sorted(labs)
    K, nm = len(order), c['nm']
    N = len(c['tr'])

    def feats(call):
        X = get(h, call, 'X')
        return np.asarray([[3.0 * float(v) for v in h.elems(x)[:3]] for x in X])
    record(h, feats)
    h.w.pin_ridge = not c['cv']
    h.w.semi_lib = c.get('semi', 0)
    if c.get('semi'):
        draw = h.draw_index
        h.draw_index = lambda name, n: (int(''.join(k for k in name if k.isdigit())) * 3 + 1) % n \
            if name.startswith('ridge') else draw(name, n)
    T = h.load('convst.transformers._input_transformers')
    E = h.load('convst.classifiers').R_DST_Ensemble

    def series(tag, n):
        return np.asarray([[[float(10 * tag + (i + 1) * (i + t + 1) + t) for t in range(4)]] for i in range(n)])
    est = E(n_shapelets_per_estimator=1, shapelet_lengths=[3], random_state=0, a_w=c['a_w'], proba_norm=[0.5] * nm,
            input_transformers=[T.Raw() for _ in range(nm)], alphas_ridge=c.get('al') or ([8.0, 0.25] if c['nt'] == 1 else [0.25, 8.0]))
    est.fit(series(0, N), y)
    w = list(est.model_weights)
    h.check('one weight per member', len(w) == nm)
    rf = h.w.recs('ridge.fit')
    h.check('one classifier per member', len(rf) == nm)
    for i in range(nm):
        e = rf[i]['est']
        cv = e.cv_values_
        acc = 0
        for r in range(N):
            v = h.elems(cv[r, :, e._alpha_idx])
            if K == 2:
                v = [-v[0], v[0]]
            k = order.index(labs[c['tr'][r]])
            # first largest value
            ok = h.and_(*[h.lt(v[j], v[k], exact=True) if j < k else h.le(v[j], v[k], exact=True)
                          for j in range(len(v)) if j != k])
            acc = acc + h.to_int(ok)
        for m in range(N + 1):
            h.check('weight %d' % i, h.implies(h.eq(acc, m), h.eq(w[i], (m / N) ** c['a_w'])))
    X = series(1, c['nt'])
    out = est.predict(X)
    h.check('one label per series', len(out) == c['nt'])
    sm = h.w.recs('softmax')
    dec = h.w.recs('ridge.decision')
    h.check('one row of probabilities per member', len(sm) == nm and len(dec) == nm)
    F = feats({'args': {'X': X}})
    Ftr = feats({'args': {'X': series(0, N)}})
    for i in range(nm):
        d = dec[i]['out']
        S = sm[i]['X']
        h.check('scores of member %d' % i, dec[i]['est'] is rf[i]['est'] and tuple(S.shape) == (c['nt'], K))
        for r in range(c['nt']):
            v = [-d[r], d[r]] if K == 2 else h.elems(d[r])
            h.ck_list('softmax of the decision scores, member %d series %d' % (i, r), h.elems(S[r]), v)
        for j in range(3):
            tr = [float(v) for v in h.elems(Ftr[:, j])]
            m = sum(tr) / N
            s = (sum((v - m) ** 2 for v in tr) / N) ** 0.5
            h.ck_list('scaling of member %d feature %d' % (i, j), h.elems(dec[i]['X'][:, j]),
                      [(float(v) - m) / s for v in h.elems(F[:, j])])
    for r in range(c['nt']):
        tot = [h.sum([sm[i]['out'][r, k] * w[i] for i in range(nm)]) for k in range(K)]
        lab = out[r]
        h.check('label of series %d is a training label' % r, any(h.truth(lab == o) for o in order))
        for k in range(K):
            if h.truth(lab == order[k]):
                h.check('label of series %d has the same type' % r, isinstance(lab, str) == isinstance(order[k], str))
                for j in range(K):
                    if j != k:
                        h.check('series %d: label %r wins against %r' % (r, order[k], order[j]),
                                h.lt(tot[j], tot[k], exact=h.mode == 'sym') if j < k else h.le(tot[j], tot[k]))
                    if j < k:
                        # equal in every member: an exact tie also in floating point
                        h.check('series %d: %r comes after %r on ties' % (r, order[k], order[j]),
                                h.not_(h.and_(*[h.ident(sm[i]['out'][r, j], sm[i]['out'][r, k]) for i in range(nm)])))
                h.reach('label %d' % k)
                break
