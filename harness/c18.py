"""C18: stratified resampling."""
import itertools

from harness.fitlib import script
from harness.util import semi_series

BOUNDS = 'train and test parts of 2-4 series each (2-3 classes), 1-2 channels, 2-4 points, equal and mixed lengths; ' \
         'contents and integer labels symbolic (every arrangement), string labels in fixed arrangements; every shuffle outcome. ' \
         'Also parts of up to 25 series and 4 classes, fixed but for one value of each series, one outcome of the draws each'
OUTSIDE = 'larger data sets; classes that occur in one part only (may be rejected)'
# with symbolic contents and labels the path count is the product of label orders and shuffles
BUDGET = {'quick': 120, 'thorough': 900}


def configs(tier):
    out = []

    def add(m, ytr, yte, lens=None, nch=1, **k):
        out.append(dict({'m': m, 'ytr': ytr, 'yte': yte, 'lens': lens or [2] * (len(ytr) + len(yte)), 'nch': nch}, **k))
    A, B, C = 'a', 'b', 'c'
    for m in ('partition', 'outcomes', 'seed'):
        for lst in (False, True):
            n = lambda k: ([2, 3, 4, 2, 3, 4, 2, 3][:k] if lst else [2] * k)
            add(m, [0, 1], [1, 0], n(4), 1, lst=lst)
            add(m, [0, 0, 1], [1, 0], n(5), 2, lst=lst)
            add(m, [1, 0], [0, 1, 1], n(5), 1, lst=lst)
            add(m, [B, A], [A, B, B], n(5), 1, lst=lst)
            add(m, [7, 7], [7], n(3), 1, lst=lst)
            add(m, [2, 0, 1], [1, 0, 2], n(6), 1, lst=lst)
            add(m, [-1, 3], [3, -1], n(4), 2, lst=lst)
            add(m, [0, 0, 1], [0, 1, 1], n(6), 1, lst=lst)
            if m == 'outcomes':
                add(m, [0, 0, 1], [0, 1, 1, 1], n(7), 1, lst=lst)
    # classes of one part only: rejected, or still a partition
    for lst in (False, True):
        for ytr, yte in (([0, 1], [0, 2]), ([0, 1, 1], [1, 1]), ([A, B], [C, B, A])):
            add('mismatch', ytr, yte, None, 1, lst=lst)
    # any arrangement of integer labels
    for lst in (False, True):
        add('arrange', [None] * 2, [None] * 2, [2, 3, 4, 2] if lst else [2] * 4, 1, lst=lst)
        add('arrange', [None] * 3, [None] * 2, [2, 3, 4, 2, 3] if lst else [2] * 5, 1, lst=lst)
    # larger parts: fixed but for one value of each series, one outcome of the draws each
    for sc in range(3):
        for lst in (False, True):
            n = lambda k: [5 + (7 * i + sc) % 6 for i in range(k)] if lst else [6 + sc] * k
            for ytr, yte in (([0, 1, 2, 0, 1, 2, 3, 3, 0, 1], [0, 1, 2, 3, 3, 2, 0]), ([B, A, A, C, C, C], [C, B, A] * 4),
                             ([10 + (i * i) % 7 for i in range(25)], [10 + (i * i) % 7 for i in range(13)])):
                add('partition', ytr, yte, n(len(ytr) + len(yte)), 1 + sc % 2, lst=lst, script=sc)
            add('seed', [1, 2, 3, 1, 2, 3, 1], [3, 2, 1, 3], n(11), 2, lst=lst, script=sc)
    if tier == 'thorough':
        for lst in (False, True):
            add('arrange', [None] * 2, [None] * 3, [2, 3, 4, 2, 3] if lst else [2] * 5, 1, lst=lst)
            add('arrange', [None] * 3, [None] * 3, [2, 3, 4, 2, 3, 2] if lst else [2] * 6, 1, lst=lst)
            add('partition', [0, 1, 0, 1], [1, 0, 0], [3] * 7, 1, lst=lst)
            add('outcomes', [0, 0, 1, 0, 1], [1, 0, 0, 1], [2] * 9, 1, lst=lst)
    return out


def parts(h, c, tag='x'):
    """(Xtr, ytr, Xte, yte) as handed over; series by position; labels by position"""
    np = h.np
    n, k = len(c['lens']), len(c['ytr'])
    if 'script' in c:
        script(h, c['script'])
        S = [np.asarray(semi_series(h, '%s%d' % (tag, i), c['lens'][i], c['nch']), dtype=float) for i in range(n)]
    else:
        S = [h.reals('%s%d' % (tag, i), (c['nch'], c['lens'][i])) for i in range(n)]
    Y = list(c['ytr']) + list(c['yte'])
    if c['m'] == 'arrange':
        Y = [h.int('y%d' % i, 0, 1) for i in range(n)]
        for v in (0, 1):
            a = h.or_(*[h.eq(y, v) for y in Y[:k]])
            b = h.or_(*[h.eq(y, v) for y in Y[k:]])
            h.assume(h.or_(h.and_(a, b), h.and_(h.not_(a), h.not_(b))))
    mk = (lambda s: [a.copy() for a in s]) if c['lst'] else (lambda s: np.stack([a.copy() for a in s]))
    yy = (lambda v: np.asarray(v)) if isinstance(Y[0], str) else (lambda v: np.asarray(v, dtype=int))
    return mk(S[:k]), yy(Y[:k]), mk(S[k:]), yy(Y[k:]), S, Y


def resampler(h):
    m = h.load('convst.utils.experiments_utils')
    if not hasattr(m, '_resample'):
        h.unsupported('no _resample')
    return m._resample


def same_series(h, a, b):
    if tuple(a.shape) != tuple(b.shape):
        return False
    return h.and_(*[h.eq(p, q) for p, q in zip(h.elems(a), h.elems(b))])


def ck(h, c, r, S, Y, what=''):
    Xa, ya, Xb, yb = r
    k = len(c['ytr'])
    h.check(what + 'train size', len(Xa) == k and len(ya) == k)
    h.check(what + 'test size', len(Xb) == len(Y) - k and len(yb) == len(Y) - k)
    out = [(Xa[i], ya[i]) for i in range(len(Xa))] + [(Xb[i], yb[i]) for i in range(len(Xb))]
    for i in range(len(S)):
        got = h.sum([h.to_int(h.and_(same_series(h, s, S[i]), h.eq(y, Y[i]))) for s, y in out])
        want = h.sum([h.to_int(h.and_(same_series(h, s, S[i]), h.eq(y, Y[i]))) for s, y in zip(S, Y)])
        h.check('%spair %d occurs as often as in the input' % (what, i), h.eq(got, want))
        h.check('%strain: size of the class of sample %d' % (what, i),
                h.eq(h.sum([h.to_int(h.eq(y, Y[i])) for y in ya]),
                     h.sum([h.to_int(h.eq(y, Y[i])) for y in Y[:k]])))
        h.check('%stest: size of the class of sample %d' % (what, i),
                h.eq(h.sum([h.to_int(h.eq(y, Y[i])) for y in yb]),
                     h.sum([h.to_int(h.eq(y, Y[i])) for y in Y[k:]])))


def run(h, c):
    f = resampler(h)
    Xtr, ytr, Xte, yte, S, Y = parts(h, c)
    before = [h.snapshot(a) for a in (Xtr, ytr, Xte, yte)]
    if c['m'] == 'outcomes':
        return outcomes(h, c, f, (Xtr, ytr, Xte, yte), S, Y)
    if c['m'] == 'seed':
        h.pinned = False
        for seed in ((5,) if 'script' in c else (5, 0)):
            a = f(Xtr, ytr, Xte, yte, seed)
            h.np.random.seed(11 + seed)
            h.np.random.rand()
            b = f(Xtr, ytr, Xte, yte, seed)
            for i in range(4):
                h.check('same seed, same result %d' % i, h.same(h.snapshot(a[i]), h.snapshot(b[i])))
        names = [set(), set()]
        old = h.draw_index
        for j, seed in enumerate((1, 2)):
            def rec(name, n, j=j):
                names[j].add(name)
                return 0
            h.draw_index = rec
            try:
                f(Xtr, ytr, Xte, yte, seed)
            finally:
                h.draw_index = old
        h.check('the seed decides the draws', (not names[0]) or not (names[0] & names[1]))
        h.check('something is drawn', bool(names[0]) or len(Y) == len(set(Y)))
    elif c['m'] == 'mismatch':
        st, r = h.call(f, Xtr, ytr, Xte, yte, 5)
        if st != 'exc':
            ck(h, c, r, S, Y)
    else:
        ck(h, c, f(Xtr, ytr, Xte, yte, 5), S, Y)
    for n, a, b in zip(('X_train', 'y_train', 'X_test', 'y_test'), before, (Xtr, ytr, Xte, yte)):
        h.check('%s is left unmodified' % n, h.same(a, h.snapshot(b)))
    h.reach(c['m'])


def outcomes(h, c, f, args, S, Y):
    """every choice of the training samples of a class is possible"""
    # contents that tell the series apart
    for i in range(len(S)):
        for j in range(i):
            if tuple(S[i].shape) == tuple(S[j].shape):
                h.assume(h.lt(h.elems(S[j])[0] + 1, h.elems(S[i])[0]))
    script, got = [], set()
    old = h.draw_index
    k = len(c['ytr'])
    prefix = []
    runs = 0
    while True:
        trace = []

        def draw(name, n):
            i = len(trace)
            v = prefix[i] if i < len(prefix) else 0
            trace.append((v, n))
            return v
        h.draw_index = draw
        try:
            Xa, ya, Xb, yb = f(*(args + (3,)))
        finally:
            h.draw_index = old
        ids = []
        for a in Xa:
            m = [i for i in range(len(S)) if h.truth(same_series(h, a, S[i]))]
            h.check('a training series is one of the originals', len(m) == 1)
            ids.append(m[0] if m else -1)
        got.add(tuple(sorted(ids)))
        runs += 1
        while trace and trace[-1][0] + 1 >= trace[-1][1]:
            trace.pop()
        if not trace or runs > 5000:
            break
        prefix = [v for v, _ in trace[:-1]] + [trace[-1][0] + 1]
    if runs > 5000:
        h.unsupported('too many outcomes')
    per = []
    for lab in sorted(set(Y)):
        mem = [i for i, y in enumerate(Y) if y == lab]
        need = sum(1 for y in Y[:k] if y == lab)
        per.append([s for s in itertools.combinations(mem, need)])
    for combo in itertools.product(*per):
        w = tuple(sorted(i for s in combo for i in s))
        h.check('training part %s can occur' % (w,), w in got)
    h.reach('outcomes')
