"""C27: comparison plots."""
import re
from fractions import Fraction

BOUNDS = 'pairwise plot: 1-4 competitors, 1-3 data sets, 1-3 columns of plots, accuracies arbitrary reals or multiples of 1/64, ' \
         'five margins; critical differences: 3-4 classifiers on 1-3 data sets, rows of the table in any of several orders, ' \
         'incomplete classifiers, every order and value of the p-values, three levels, accuracies arbitrary reals (ties included); ' \
         'cliques: 2-4 names (thorough 5), every set of decisions; the diagram for 3 classifiers. ' \
         'Also 3-7 competitors and 4-30 data sets with mostly fixed accuracies and p-values'
OUTSIDE = 'larger tables; missing values; the rendering itself; scipy\'s p-values; Friedman\'s test; fewer than three classifiers'
ASSUME = 'pandas and networkx behave as the stand-ins do (the replays use the real pandas)'
BUDGET = {'quick': 150, 'thorough': 900}
NAMES = ['m1', 'aa', 'Zz', 'b b', 'q', 'A1', 'x-y']


def configs(tier):
    big = tier == 'thorough'
    out = []
    for k, n, cols, grid in ((1, 1, 2, 1), (1, 2, 1, 1), (2, 1, 2, 1), (2, 1, 1, 1), (3, 1, 2, 0), (1, 3, 2, 0), (4, 1, 3, 1),
                             (2, 2, 3, 1), (1, 2, 2, 0), (3, 1, 1, 1)) + (((2, 3, 2, 1), (1, 4, 2, 1)) if big else ()):
        for mg in (0, 0.25, 0.015625, 0.5) if grid else (0, 0.015):
            out.append({'m': 'pairwise', 'k': k, 'n': n, 'cols': cols, 'grid': grid, 'margin': mg,
                        'base': (k + n) % (k + 1), 'above': 0.7 if mg else 0.1})
    for order in ('rows', 'columns', 'reversed', 'mixed'):
        for m, n in ((3, 2), (3, 1), (4, 1), (3, 3)):
            if order == 'mixed' and n == 1:
                continue
            for al in (0.05, 0.75):
                out.append({'m': 'holm', 'k': m, 'n': n, 'order': order, 'alpha': al, 'partial': False, 'fix': n > 1 or m > 3} if m < 4 or big or (order == 'rows' and al == 0.75) else {})
        out.append({'m': 'holm', 'k': 3, 'n': 2, 'order': order, 'alpha': 0.75, 'partial': True, 'fix': True})
    for m, n in ((3, 1), (3, 2)):
        out.append({'m': 'ranks', 'k': m, 'n': n, 'order': 'mixed'})
    if big:
        out.append({'m': 'ranks', 'k': 4, 'n': 1, 'order': 'mixed'})
        out.append({'m': 'ranks', 'k': 3, 'n': 3, 'order': 'mixed'})
    for m in (2, 3, 4) + ((5,) if big else ()):
        out.append({'m': 'cliques', 'k': m})
    for hl in (None, 1):
        for lab in (False, True):
            out.append({'m': 'diagram', 'k': 3, 'n': 1, 'hl': hl, 'lab': lab})
    # larger tables, mostly fixed
    for k, n, cols, mg in ((5, 7, 3, 0.25), (6, 4, 4, 0), (7, 11, 2, 0.015625), (3, 30, 2, 0.5)):
        out.append({'m': 'pairwise', 'k': k, 'n': n, 'cols': cols, 'grid': 1, 'margin': mg, 'base': k // 2, 'above': 0.7, 'semi': 1})
    for k, n, order, part, lib in ((5, 8, 'mixed', True, 9), (6, 12, 'reversed', False, 8), (4, 25, 'columns', True, 3),
                                   (5, 11, 'rows', False, 7)):
        for al in (0.05, 0.75):
            out.append({'m': 'holm', 'k': k, 'n': n, 'order': order, 'alpha': al, 'partial': part, 'fix': True, 'semi': 0,
                        'lib': lib})
    for k, n, order in ((5, 7, 'mixed'), (6, 12, 'reversed')):
        out.append({'m': 'ranks', 'k': k, 'n': n, 'order': order, 'semi': 1})
    return [c for c in out if c]


def run(h, c):
    if h.mode == 'conc':
        h.w.real_pandas = True
    return globals()['m_' + c['m']](h, c)


def m_pairwise(h, c):
    P, pd = h.load('convst.utils.plot_utils'), h.load('pandas')
    names = NAMES[:c['k']]
    names.insert(c['base'], 'base')
    n, mg = c['n'], c['margin']
    cols = {}
    table = accs(h, c, True) if 'semi' in c else None
    for q, nm in enumerate(names):
        if table:
            cols[nm] = table[q]
        elif c['grid']:
            cols[nm] = [h.int('%s[%d]' % (nm, i), 0, 64) / 64 for i in range(n)]
        else:
            cols[nm] = list(h.elems(h.reals(nm, n, 0, 1)))
    df = pd.DataFrame({nm: list(cols[nm]) for nm in names}, index=['d%d' % i for i in range(n)])
    P.pairwise_plot(df, 'base', margin=mg, max_ncols=c['cols'], show_names_above=c['above'])
    texts, labels = {}, {}
    for path, a, k in h.w.plots:
        axis, _, meth = path.rpartition('.')
        if meth == 'text':
            s = [v for v in list(a) + list(k.values()) if isinstance(v, str) and '\n' in v]
            if s:
                texts.setdefault(axis, []).append(s[0])
        elif meth == 'set_xlabel':
            labels[axis] = a[0] if a else k['xlabel']
        elif meth == 'set' and 'xlabel' in k:
            labels[axis] = k['xlabel']
    h.check('one plot per competitor', sorted(labels.values()) == sorted(x for x in names if x != 'base'))
    for axis, nm in sorted(labels.items()):
        t = texts.get(axis, [])
        h.check('one summary per plot', len(t) == 1)
        if len(t) != 1:
            continue
        nums = h.numbers(t[0].split('\n')[-1].replace('-', ' '))
        h.check('three counts', len(nums) == 3)
        h.check('every data set is counted once', h.eq(h.sum(nums), n))
        win = draw = loss = 0
        for x, y in zip(cols[nm], cols['base']):
            if not c['grid']:
                h.rounding(h.le(h.abs(h.abs(x - y) - mg), 1e-9))
            wn, ls = h.lt(mg, y - x, exact=True), h.lt(mg, x - y, exact=True)
            win = win + h.ite(wn, 1, 0)
            loss = loss + h.ite(ls, 1, 0)
            draw = draw + h.ite(h.or_(wn, ls), 0, 1)
        h.check('wins', h.eq(nums[0], win))
        h.check('draws', h.eq(nums[1], draw))
        h.check('losses', h.eq(nums[2], loss))
    h.reach('pairwise')


def table(h, c, acc, extra=None):
    """rows (classifier, dataset, accuracy)"""
    k, n = len(acc), len(acc[0])
    names = CL[:k]
    rows = [(names[i], 'd%d' % j, acc[i][j]) for i in range(k) for j in range(n)]
    if c['order'] == 'columns':
        rows = [(names[i], 'd%d' % j, acc[i][j]) for j in range(n) for i in range(k)]
    elif c['order'] == 'reversed':
        rows.reverse()
    elif c['order'] == 'mixed':
        rows = [(names[i], 'd%d' % ((j + i) % n), acc[i][(j + i) % n]) for i in reversed(range(k)) for j in range(n)]
    if extra:
        rows.insert(1, extra)
    pd = h.load('pandas')
    return pd.DataFrame({'classifier_name': [r[0] for r in rows], 'dataset_name': [r[1] for r in rows],
                         'accuracy': [r[2] for r in rows]})


CL = ['rf', 'knn', 'Svm', 'dt', 'nb', 'Ada']
FIX = [[0.5, 0.25, 0.75], [0.625, 0.875, 0.125], [0.375, 1.0, 0.0], [0.9375, 0.0625, 0.4375]]


def accs(h, c, grid=False):
    """accuracies of the larger tables: fixed but for one of each classifier"""
    out = []
    for i in range(c['k'] + (1 if grid else 0)):
        row = [(37 * i + 23 * d * (i + 2) + d * d) % 65 / 64 for d in range(c['n'])]
        if c['semi']:
            j = (i * 4 + 1) % c['n']
            row[j] = h.int('acc%d' % i, 0, 64) / 64 if grid else h.real('acc%d' % i, 0, 1)
        out.append(row)
    return out


def m_holm(h, c):
    P = h.load('convst.utils.plot_utils')
    k, n, al = c['k'], c['n'], c['alpha']
    if 'semi' in c:
        acc = accs(h, c)
        h.w.semi_lib = c['lib']
    else:
        acc = [FIX[i][:n] for i in range(k)] if c['fix'] else \
            [list(h.elems(h.reals('acc%d' % i, n, 0, 1))) for i in range(k)]
    if not c['fix']:
        for i in range(k):
            for j in range(i):
                h.assume(h.not_(h.ident(acc[i][0], acc[j][0])))
    df = table(h, c, acc, ('partial', 'd0', 0.3) if c['partial'] else None)
    pv, ranks, nb = P._wilcoxon_holm(df_perf=df, alpha=al)
    h.check('number of data sets', h.eq(nb, n))
    names = sorted(CL[:k])
    by = {nm: acc[CL.index(nm)] for nm in names}
    h.check('every pair once', sorted(sorted([str(t[0]), str(t[1])]) for t in pv) ==
            sorted(sorted([a, b]) for i, a in enumerate(names) for b in names[:i]))
    # the test is applied to the accuracies of the pair, paired by data set
    ps = {}
    for r in h.w.recs('wilcoxon'):
        x, y = list(r['x']), list(r['y'])
        for a in names:
            for b in names:
                if a != b and len(x) == len(by[a]) and h.truth(paired(h, x, y, by[a], by[b])):
                    ps[(a, b)] = ps[(b, a)] = r['p']
    for t in pv:
        key = (str(t[0]), str(t[1]))
        h.check('tested on paired accuracies', key in ps)
        if key in ps:
            h.check('p-value of the pair', h.ident(t[2], ps[key]))
    p = [t[2] for t in pv]
    kk = len(p)
    for j in range(kk):
        bound = al / (kk - j)
        if Fraction(bound) * (kk - j) != Fraction(al):
            for v in p:
                h.assume(h.not_(h.le(h.abs(v - bound), 1e-12)))
    for i, t in enumerate(pv):
        h.check('decision', h.eq(bool(h.truth(t[3])), holm(h, p, i, al, kk)))
    h.reach('holm')


def paired(h, x, y, a, b):
    """(x, y) is a joint permutation of (a, b)"""
    n = len(a)
    if n > 4 and not any(h.is_sym(v) for v in list(x) + list(y) + list(a) + list(b)):
        return sorted(zip(x, y)) == sorted(zip(a, b)) if y else sorted(x) == sorted(p - q for p, q in zip(a, b))
    if not y:
        return h.and_(*[h.eq(x[i], a[i] - b[i]) for i in range(n)])
    if n == 1:
        return h.and_(h.eq(x[0], a[0]), h.eq(y[0], b[0]))
    import itertools
    return h.or_(*[h.and_(*[h.and_(h.eq(x[i], a[p[i]]), h.eq(y[i], b[p[i]])) for i in range(n)])
                   for p in itertools.permutations(range(n))])


def holm(h, p, i, al, k):
    """rejected by the step-down procedure over the list in its order (ascending, ties in the order listed)"""
    ok = True
    for j in range(i + 1):
        if j:
            h.check('ascending p-values', h.le(p[j - 1], p[j]))
        ok = h.and_(ok, h.le(p[j], al / (k - j), exact=True))
    return ok


def m_ranks(h, c):
    P = h.load('convst.utils.plot_utils')
    k, n = c['k'], c['n']
    acc = accs(h, c) if 'semi' in c else [list(h.elems(h.reals('acc%d' % i, n, 0, 1))) for i in range(k)]
    pins(h, k)
    _, ranks, _ = P._wilcoxon_holm(df_perf=table(h, c, acc), alpha=0.05)
    names, vals = list(ranks.keys()), list(ranks.values)
    h.check('every classifier has a rank', sorted(str(x) for x in names) == sorted(CL[:k]))
    for nm, v in zip(names, vals):
        i = CL.index(str(nm))
        want = h.sum([h.sum([h.ite(h.lt(acc[i][d], acc[j][d], exact=True), 1, 0) for j in range(k)]) +
                      (h.sum([h.ite(h.ident(acc[i][d], acc[j][d]), 1, 0) for j in range(k)]) + 1) / 2
                      for d in range(n)]) / n
        h.check('average rank', h.eq(v, want))
    h.reach('ranks')


def pins(h, k):
    """every p-value is large: the decisions are not explored again"""
    h.w.pin_p = 0.9


def m_cliques(h, c):
    P, np = h.load('convst.utils.plot_utils'), h.np
    k = c['k']
    names = ['w', 'x', 'A', 'b', 'c'][:k]
    pv, same = [], {}
    for i in range(k):
        for j in range(i):
            d = h.choose('d%d_%d' % (i, j), 2)
            a, b = (names[i], names[j]) if (i + j) % 2 else (names[j], names[i])
            # (the p-value of a pair that is not marked may be small: Holm stops)
            pv.append((a, b, h.real('p%d_%d' % (i, j), 0, 0.01 if d else 1), bool(d)))
            same[(i, j)] = same[(j, i)] = not d
    got = [sorted(int(v) for v in q) for q in P._form_cliques(pv, np.asarray(names))]
    for q in got:
        h.check('not marked as different', all(same[(a, b)] for a in q for b in q if a != b))
    h.check('distinct cliques', len(set(map(tuple, got))) == len(got))
    for i in range(k):
        h.check('every classifier', any(i in q for q in got))
        for j in range(i):
            h.check('every pair that is not different', (not same[(i, j)]) or any(i in q and j in q for q in got))
    for q in got:
        h.check('maximal', not any(all(same[(i, j)] for j in q) for i in range(k) if i not in q))
    h.reach('cliques')


def m_diagram(h, c):
    P = h.load('convst.utils.plot_utils')
    k, n = c['k'], c['n']
    acc = [list(h.elems(h.reals('acc%d' % i, n, 0, 1))) for i in range(k)]
    df = table(h, dict(c, order='mixed'), acc)
    kw = {'labels': c['lab']}
    if c['hl'] is not None:
        kw['highlight'] = CL[c['hl']]
    P.draw_cd_diagram(df_perf=df, alpha=0.25, **kw)
    texts = [(a[0], a[1], a[2]) for path, a, k_ in h.w.plots if path.endswith('.text') and len(a) >= 3]
    lines = [(h.elems(a[0]), h.elems(a[1]), k_) for path, a, k_ in h.w.plots if path.endswith('.plot') and len(a) >= 2]
    nm = [t for t in texts if t[2] in CL[:k]]
    h.check('every name once', sorted(t[2] for t in nm) == sorted(CL[:k]))
    # the scale, from the numbers on the axis
    sc = {}
    for x, y, s in texts:
        if re.match(r'^\d+$', s):
            sc[int(s)] = x
    h.check('scale', len(sc) >= 2)
    lo, hi = min(sc), max(sc)

    def pos(r):
        return sc[lo] + (sc[hi] - sc[lo]) * (r - lo) / (hi - lo)
    for x, y, s in nm:
        i = CL.index(s)
        r = h.sum([h.ite(h.lt(acc[i][0], acc[j][0], exact=True), 1, 0) for j in range(k)]) + \
            (h.sum([h.ite(h.ident(acc[i][0], acc[j][0]), 1, 0) for j in range(k)]) + 1) / 2
        # the line that ends next to the name starts at the rank
        at = [q for q in lines if len(q[0]) == 3 and h.truth(h.le(h.abs(q[1][-1] - y), 1e-9)) and
              h.truth(h.le(h.abs(q[0][-1] - x), 0.2))]
        h.check('one line to the name', len(at) == 1)
        if len(at) == 1:
            h.check('line starts at the average rank', h.le(h.abs(at[0][0][0] - pos(r)), 1e-6))
    h.reach('diagram')
