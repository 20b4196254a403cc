"""C26: loading of the archive's datasets."""
from harness.util import semi_series, sym_series

BOUNDS = 'train and test parts of 1-3 series each, 1-2 channels, 3-5 points (thorough 6), arrays and lists of series of equal or ' \
         'different lengths, with and without normalisation; contents arbitrary reals; labels: every assignment of up to 3 ' \
         'integer labels, and string, negative, float and boolean label sets. Also 4-12 series, 1-4 ' \
         'channels, 5-150 points of fixed contents but for one arbitrary value per channel, 4-5 labels'
SCALED = True
OUTSIDE = 'the download; labels that occur in the test part only; a train part and a test part held in different containers'
ASSUME = 'aeon returns the parts stored for the given name; sklearn\'s LabelEncoder numbers the sorted distinct labels'
BUDGET = {'quick': 120, 'thorough': 900}
LABELS = [(['b', 'a', 'b'], ['a', 'b']), (['2', '10', '1'], ['10', '1', '2']), ([3, -1, 3], [-1, 3]), ([1.5, 0.5, 1.5], [0.5]),
          ([True, False, True], [False, True, True]), (['x'], ['x', 'x']), ([5, 5], [5])]


def configs(tier):
    out = []
    shapes = [('array', [4], [4, 4], 1), ('array', [3, 3, 3], [3, 3], 2), ('array', [5, 5], [5], 1), ('list', [4, 3], [5], 1),
              ('list', [5, 4, 6], [3, 4], 1), ('list', [4, 5], [6, 3], 2), ('list', [4, 4], [4, 4], 1), ('list', [3], [4, 5], 2),
              ('array', [3, 3], [3, 3], 2), ('list', [4, 6], [5, 5, 7], 1)]
    if tier == 'thorough':
        shapes += [('array', [6, 6, 6], [6, 6, 6], 2), ('list', [6, 3, 5], [4, 6, 5], 2), ('array', [4] * 4, [4] * 3, 3)]
    for i, (cont, a, b, nch) in enumerate(shapes):
        for nrm in (False, True):
            for f in ('split', 'whole'):
                out.append({'m': f, 'cont': cont, 'a': a, 'b': b, 'nch': nch, 'nrm': nrm, 'kw': i % 2 == 0})
    # most contents fixed
    for cont, a, b, nch in (('array', [9] * 12, [9] * 7, 4), ('array', [60] * 5, [60] * 11, 1), ('list', [9, 12, 7, 31, 9, 8], [9, 7, 11] * 3, 2),
                            ('list', [20, 22, 19, 21, 20], [19, 150, 18, 19, 20, 40, 21], 3), ('list', [5] * 11, [5] * 4, 1)):
        for nrm in (False, True):
            for f in ('split', 'whole'):
                for t in ([7, -2, 4, 9], ['b', 'a', '10', '9', 'c']):
                    out.append({'m': f, 'cont': cont, 'a': a, 'b': b, 'nch': nch, 'nrm': nrm, 'kw': True, 'semi': 1,
                                'ya': [t[i % len(t)] for i in range(len(a))], 'yb': [t[i * i % len(t)] for i in range(len(b))]})
    for ya, yb in LABELS:
        for f in ('split', 'whole'):
            out.append({'m': f, 'cont': 'list' if len(ya) % 2 else 'array', 'a': [3] * len(ya), 'b': [3] * len(yb), 'nch': 1,
                        'nrm': False, 'ya': ya, 'yb': yb, 'kw': False})
    return out


def labels(h, c):
    if 'ya' in c:
        return list(c['ya']), list(c['yb'])
    na, nb = len(c['a']), len(c['b'])
    k = min(na, 3)
    ya = [h.choose('ya%d' % i, k) for i in range(na)]
    yb = [ya[h.choose('yb%d' % i, na)] for i in range(nb)]
    tab = [7, -2, 4]
    return [tab[v] for v in ya], [tab[v] for v in yb]


def run(h, c):
    np = h.np
    D = h.load('convst.utils.dataset_utils')
    parts = {}
    raw = {}
    ya, yb = labels(h, c)
    for split, lens, y in (('train', c['a'], ya), ('test', c['b'], yb)):
        series = [(semi_series if c.get('semi') else sym_series)(h, '%s%d' % (split, i), n, c['nch']) for i, n in enumerate(lens)]
        raw[split] = [[list(h.elems(ch)) for ch in s] for s in series]
        X = [np.asarray(s, dtype=float) for s in raw[split]]
        if c['cont'] == 'array':
            X = np.asarray(raw[split], dtype=float)
        parts[split] = (X, np.asarray(y))
        h.w.datasets[('Name', split)] = parts[split]
        h.w.datasets[('Other', split)] = (np.asarray([[[9.0, 1.0, 4.0]]]), np.asarray([1]))
    cl = sorted(set(ya))
    want_y = [cl.index(v) for v in ya], [cl.index(v) for v in yb]
    want = [[h.znorm(ch) if c['nrm'] else ch for ch in s] for s in raw['train'] + raw['test']]
    f = D.load_UCR_UEA_dataset_split if c['m'] == 'split' else D.load_UCR_UEA_dataset
    if c['kw']:
        r = f('Name', normalize=c['nrm'])
    elif c['nrm']:
        r = f('Name', True)
    else:
        r = f('Name')
    na = len(c['a'])
    if c['m'] == 'split':
        h.check('five results', len(r) == 5)
        Xa, Xb, a, b, mn = r
        h.check('minimum length', h.eq(mn, min(c['a'] + c['b'])))
        h.ck_list('train labels', [v for v in h.elems(a)], want_y[0])
        h.ck_list('test labels', [v for v in h.elems(b)], want_y[1])
        ck_series(h, c, 'train', Xa, want[:na])
        ck_series(h, c, 'test', Xb, want[na:])
    else:
        h.check('two results', len(r) == 2)
        X, y = r
        h.ck_list('labels', [v for v in h.elems(y)], want_y[0] + want_y[1])
        ck_series(h, c, 'train and test', X, want)
    h.reach(c['m'])


def ck_series(h, c, what, X, want):
    if c['cont'] == 'array':
        h.check(what + ': shape', tuple(X.shape) == (len(want), len(want[0]), len(want[0][0])))
    h.check(what + ': number of series', len(X) == len(want))
    for i, s in enumerate(want):
        h.check(what + ': shape of a series', tuple(X[i].shape) == (len(s), len(s[0])))
        for ch, w in enumerate(s):
            h.ck_list(what + ': values', h.elems(X[i][ch]), w)
