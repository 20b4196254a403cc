"""C22: input checks."""
BOUNDS = 'arrays of 0-4 dimensions with symbolic sizes 0..6, symbolic min_timestamps -1..7; nested lists and arrays of ' \
         'every shape with sizes 0..2 (0..4 points), 1-3 dimensions and symbolic contents; symbolic numbers; fixed lists of other types'
OUTSIDE = 'sizes above 6 (the checks compare sizes with constants of at most min_timestamps); ragged lists; np.bool_ ' \
          'flags; object arrays'
BUDGET = {'quick': 120, 'thorough': 600}


def configs(tier):
    out = []
    for f in (1, 2, 3):
        for nd in (0, 1, 2, 3, 4):
            out.append({'m': 'shape', 'f': f, 'nd': nd})
        shapes = [(a,) for a in (0, 1, 2)] + [(a, b) for a in (0, 1, 2) for b in (0, 1, 3)] + \
                 [(a, b, t) for a in (0, 1, 2) for b in (0, 1, 2) for t in (0, 1, 2, 3, 4)]
        for cont in ('array', 'list', 'list of arrays'):
            out.append({'m': 'content', 'f': f, 'shapes': shapes, 'cont': cont})
        out.append({'m': 'types', 'f': f})
        out.append({'m': 'frame', 'f': f})
    out += [{'m': 'numeric'}, {'m': 'boolean'}, {'m': 'bounds'}, {'m': 'reduction'}]
    out += [{'m': 'percentiles', 'k': k} for k in ('int', 'float', 'types', 'array')]
    return out


def func(h, k):
    return getattr(h.load('convst.utils.checks_utils'), 'check_array_%dD' % k)


def shaped(h, shape):
    """an array whose sizes are symbolic; a real one on replay"""
    np = h.np
    if h.mode == 'conc':
        return np.zeros([int(s) for s in shape])

    class Arr(np.ndarray):
        __slots__ = ()

        def __init__(self):
            pass
        d = property(lambda s: h.unsupported('contents of an array of symbolic size'))
        dt = np.dtype(float)
        shape = property(lambda s: tuple(sh))
        ndim = property(lambda s: len(sh))

        @property
        def size(self):
            p = 1
            for x in sh:
                p = p * x
            return p

        def __len__(self):
            h.unsupported('len() of an array of symbolic size')

        def copy(self, *a, **k):
            return self
    sh = list(shape)
    return Arr()


def run(h, c):
    np = h.np
    m = c['m']
    if m == 'shape':
        f = func(h, c['f'])
        shape = [h.int('n%d' % i, 0, 6) for i in range(c['nd'])]
        for kw in ([{}] if c['f'] < 3 else [{}, {'is_univariate': True}, {'is_univariate': False},
                                            {'min_timestamps': h.int('mt', -1, 7)},
                                            {'min_timestamps': h.int('mt2', -1, 7), 'is_univariate': True},
                                            {'min_timestamps': h.int('mt3', -1, 7), 'is_univariate': False}]):
            ok = len(shape) == c['f']
            if ok:
                conds = [h.le(1, s, exact=True) for s in shape]
                if c['f'] == 3:
                    conds.append(h.lt(kw.get('min_timestamps', 2), shape[2], exact=True))
                    if kw.get('is_univariate'):
                        conds.append(h.eq(shape[1], 1))
                ok = h.and_(*conds)
            X = shaped(h, shape)
            st, v = h.call(f, X, **kw)
            if st == 'exc' and type(v).__name__ == 'Unsupported':
                raise v
            w = '%d dimensions %s: ' % (c['nd'], sorted(kw))
            if st == 'ok':
                h.check(w + 'accepted only if valid', ok)
                h.check(w + 'returned', v is X or tuple(v.shape) == tuple(X.shape))
            else:
                h.check(w + 'rejected only if not valid', h.not_(ok))
                h.check(w + 'rejected with ValueError, got %s' % type(v).__name__, isinstance(v, ValueError))
        h.reach('shape')
    elif m == 'content':
        f = func(h, c['f'])
        for shape in c['shapes']:
            ok = len(shape) == c['f'] and all(shape) and (c['f'] < 3 or shape[2] > 2)
            A = h.reals('a%s' % 'x'.join(map(str, shape)), tuple(shape))
            want = h.elems(A)
            X = A if c['cont'] == 'array' else A.tolist() if c['cont'] == 'list' else [a for a in A]
            before = h.snapshot(A)
            if c['cont'] == 'list' and not all(shape):
                # nested empty lists do not keep the trailing sizes: still invalid
                pass
            st, v = h.call(f, X)
            if st == 'exc' and type(v).__name__ == 'Unsupported':
                raise v
            w = '%s of shape %s: ' % (c['cont'], tuple(shape))
            h.check(w + ('accepted' if ok else 'rejected'), (st == 'ok') == bool(ok))
            if st == 'ok' and ok:
                h.ck_arr(w + 'unchanged', v, want, tuple(shape))
            elif st == 'exc':
                h.check(w + 'ValueError, got %s' % type(v).__name__, isinstance(v, ValueError))
            h.check(w + 'the argument is left alone', h.same(before, h.snapshot(A)))
        h.reach('content')
    elif m == 'types':
        f = func(h, c['f'])
        for v in (None, 1, 2.5, 'abc', (1, 2), {'a': 1}, {1, 2}, object()):
            h.ck_raises('%r' % (type(v).__name__,), ValueError, f, v)
    elif m == 'frame':
        pd = h.load('convst.utils.checks_utils').pd
        X = pd.DataFrame({'a': [1.0, 2.0], 'b': [3.0, 4.0]})
        st, v = h.call(func(h, c['f']), X)
        if c['f'] == 2:
            h.check('a data frame is accepted in 2D', st == 'ok')
            h.ck_list('values', list(np.asarray(v).ravel()), [1.0, 3.0, 2.0, 4.0])
        else:
            h.check('a data frame is rejected', st == 'exc' and isinstance(v, ValueError))
        h.reach('frame')
    elif m == 'numeric':
        g = h.load('convst.utils.checks_utils').check_is_numeric
        for v in (h.real('x'), h.int('i', -1000, 1000)):
            h.check('returned', h.eq(g(v), v))
        for v in (0, -3, 1.5, float('inf'), np.int8(3), np.int16(-3), np.int32(3), np.int64(3), np.uint8(3), np.uint16(3),
                  np.uint32(3), np.uint64(3), np.float16(0.5), np.float32(0.5), np.float64(0.5)):
            st, r = h.call(g, v)
            h.check('%s is accepted' % type(v).__name__, st == 'ok' and r == v)
        for v in (True, False, np.bool_(True), None, '1', [1], (1,), 1j, {}, np.asarray([1.0, 2.0])):
            h.ck_raises('numeric %s' % type(v).__name__, ValueError, g, v)
    elif m == 'boolean':
        g = h.load('convst.utils.checks_utils').check_is_boolean
        h.check('True', g(True) is True)
        h.check('False', g(False) is False)
        for v in (0, 1, 1.0, 0.0, None, 'True', [], [True], np.int64(1), h.int('i', 0, 1), h.real('x', 0, 1)):
            h.ck_raises('boolean %s' % type(v).__name__, ValueError, g, v)
    elif m == 'bounds':
        R = h.load('convst.transformers').R_DST
        a, b, d = h.int('a', 2, 50), h.int('b', 2, 50), h.int('d', 2, 50)
        for v in ([], [a], [a, b, d], [a, b, d, a]):
            h.ck_raises('%d bounds' % len(v), ValueError, R, shapelet_lengths_bounds=v)
        for v in ([a, b], (a, b), [h.real('u', 0, 1), b]):
            e = R(shapelet_lengths_bounds=v)
            h.check('a pair is kept', len(e.shapelet_lengths_bounds) == 2 and
                    h.truth(h.and_(h.eq(e.shapelet_lengths_bounds[0], v[0]), h.eq(e.shapelet_lengths_bounds[1], v[1]))))
        h.check('no bounds', R().shapelet_lengths_bounds is None)
    elif m == 'reduction':
        R = h.load('convst.transformers').R_DST
        for v in (h.real('r', 0, 4), h.int('i', 0, 4)):
            st, e = h.call(R, lengths_bounds_reduction=v)
            if st == 'ok':
                h.check('below one', h.lt(v, 1, exact=True))
                h.check('kept', h.eq(e.lengths_bounds_reduction, v))
            else:
                if type(e).__name__ == 'Unsupported':
                    raise e
                h.check('at least one', h.le(1, v, exact=True))
                h.check('ValueError', isinstance(e, ValueError))
        for v in (True, '0.5', None, [0.5]):
            h.ck_raises('reduction %r' % (v,), ValueError, R, lengths_bounds_reduction=v)
    else:
        percentiles(h, c, h.load('convst.transformers').R_DST)
    h.reach(m)


def percentiles(h, c, R):
    np = h.np
    if c['k'] == 'types':
        for v in ([5], [5, 10, 20], [], ['a', 'b'], None, 5, [[5, 10]], [True, False]):
            h.ck_raises('percentiles %r' % (v,), ValueError, R, percentiles=v)
        return
    for ty in ((None,) if c['k'] != 'array' else (np.int32, np.int64, np.uint8, np.float32, np.float64)):
        p = [h.int('p%d' % i, 0, 100) if c['k'] != 'float' else h.real('p%d' % i, 0, 100) for i in range(2)]
        if ty is not None:
            v = [[5, 10], [10, 5], [7, 7], [0, 100]][h.choose('v', 4)]
            p, v = v, np.asarray(v, dtype=ty)
        else:
            v = list(p)
        st, e = h.call(R, percentiles=v)
        if st == 'exc' and type(e).__name__ == 'Unsupported':
            raise e
        w = 'percentiles %s: ' % (ty.__name__ if ty else c['k'])
        if st == 'ok':
            h.check(w + 'accepted only in increasing order', h.le(p[0], p[1], exact=True))
            h.ck_list(w + 'kept', list(e.percentiles), p)
        else:
            h.check(w + 'rejected only in decreasing order', h.lt(p[1], p[0], exact=True))
            h.check(w + 'ValueError', isinstance(e, ValueError))
