"""Fitting R_DST on symbolic training data: shared by C04, C05, C06."""
import hashlib

from harness.util import batch, semi_series, sym_series, unpack


def cfg(kind, lens, y, k, lengths, nch=1, **p):
    """p: further parameters of R_DST"""
    return {'kind': kind, 'lens': lens, 'y': y, 'k': k, 'lengths': lengths, 'nch': nch, 'p': p}


def data(h, c, dup=False):
    if c.get('semi'):
        return [semi_series(h, 'x%d' % i, n, c['nch'], c['semi']) for i, n in enumerate(c['lens'])]
    return [sym_series(h, 'x%d' % i, n, c['nch']) for i, n in enumerate(c['lens'])]


def script(h, key):
    """one fixed outcome of every random draw (larger fits)"""
    def frac(name):
        return int(hashlib.md5(('%s/%s' % (key, name)).encode()).hexdigest()[:7], 16) / float(1 << 28)

    draw = h.draw_uniform

    def uniform(name, lo, hi):
        if h.is_sym(lo) or h.is_sym(hi) or h.drawn(name):
            return draw(name, lo, hi)       # (a threshold: any value between its bounds)
        return float(lo) + (float(hi) - float(lo)) * frac(name)
    h.draw_index = lambda name, n: int(frac(name) * n)
    h.draw_unit = frac
    h.draw_uniform = uniform


def big(scripts=(0, 1), n_sym=1, w=0):
    """larger training sets: one configuration per kind and script, most of the
    contents and all draws fixed"""
    U, V, M, W = 'univariate', 'univariate_variable', 'multivariate', 'multivariate_variable'
    out = []
    for sc in scripts:
        ph = bool(sc % 2)
        for c in (cfg(U, [14] * 6, [0, 1, 0, 2, 1, 2], 9, [3, 5, 4], phase_invariance=ph, percentiles=[20, 80]),
                  cfg(U, [25] * 4, [0, 1, 0, 1], 8, [3, 7], phase_invariance=ph, percentiles=[20, 80]),
                  cfg(V, [14, 13, 16, 14, 17, 15], [5, 5, 7, 6, 7, 6], 9, [3, 5, 4], phase_invariance=ph,
                      percentiles=[20, 80]),
                  cfg(V, [12, 11, 26, 12, 13], [0, 1, 0, 1, 0], 8, [2, 6], prime_dilations=True, phase_invariance=ph,
                      n_samples=0.8, alpha=0.7),
                  cfg(M, [13] * 5, [1, 0, 1, 0, 1], 9, [3, 4], 4, phase_invariance=ph, percentiles=[20, 80]),
                  cfg(M, [11] * 6, [0, 1, 0, 2, 1, 2], 9, [3, 5, 2], 6, max_channels=3, phase_invariance=ph,
                      percentiles=[20, 80], alpha=0.3),
                  cfg(W, [13, 12, 14, 15, 13], [1, 0, 1, 0, 1], 9, [3, 4], 4, phase_invariance=ph, percentiles=[20, 80]),
                  cfg(W, [11, 14, 11, 12, 15, 13], [2, 4, 3, 4, 2, 3], 9, [2, 5, 3], 5, max_channels=3,
                      phase_invariance=ph, percentiles=[20, 80], prime_dilations=True, n_samples=0.7)):
            out.append(dict(c, semi=n_sym, script=sc))
    return out


def estimator(h, c):
    R = h.load('convst.transformers').R_DST
    p = dict(c['p'])
    p.setdefault('random_state', 0)
    p.setdefault('proba_norm', 0.5)
    ln = c['lengths']
    return R(n_shapelets=c['k'], shapelet_lengths=ln if isinstance(ln, list) else list(ln), **p)


def fit(h, c, series=None, y=None):
    np = h.np
    series = data(h, c) if series is None else series
    if c.get('script') is not None:
        script(h, c['script'])
    X = batch(h, c['kind'], series)
    y = np.asarray(c['y'] if y is None else y)
    est = estimator(h, c)
    est.fit(X, y)
    return series, est, unpack(h, c['kind'], est.shapelets_)


def sources(h, c, series, s, phase):
    """[(sample, start, condition)]: places the values of a shapelet may be from"""
    out = []
    multi = isinstance(s['v'][0], list)
    rows = s['v'] if multi else [s['v']]
    for i, x in enumerate(series):
        cs = [h.cands(x[ch], s['l'], s['d'], phase) for ch in s['ch']]
        for t in range(max(0, len(cs[0]))):
            con = True
            for row, cc in zip(rows, cs):
                z = h.znorm(cc[t]) if s['norm'] else cc[t]
                con = h.and_(con, h.all_eq(row, z) if s['norm'] else h.and_(*[h.ident(a, b) for a, b in zip(row, z)]))
                if con is False:
                    break
            if con is not False:
                out.append((i, t, con))
    return out


def structure(h, c, shps, est, allowed, n, tag=''):
    """C04: the admissible parameters of every shapelet"""
    p = c['p']
    multi = c['kind'].startswith('multi')
    h.check(tag + 'number of shapelets', len(shps) <= c['k'])
    t = est.shapelets_
    N = len(shps)
    for i, nm in ((1, 'lengths'), (2, 'dilations'), (3, 'thresholds'), (4, 'normalisation')) + \
            (((5, 'channel counts'),) if multi else ((0, 'values'),)):
        h.check(tag + 'one row of %s per shapelet' % nm, len(t[i]) == N)
    if multi:
        h.check(tag + 'values packed without gap', len(t[0]) == sum(s['l'] * len(s['ch']) for s in shps))
        h.check(tag + 'channel ids packed without gap', len(t[6]) == sum(len(s['ch']) for s in shps))
        mc = p.get('max_channels') or c['nch']
    for i, s in enumerate(shps):
        w = tag + 'shapelet %d: ' % i
        h.check(w + 'length %d is a requested one' % s['l'], s['l'] in allowed)
        h.check(w + 'dilation %d of length %d' % (s['d'], s['l']), s['d'] >= 1 and (s['l'] - 1) * s['d'] <= n - 1)
        if p.get('prime_dilations'):
            h.check(w + 'dilation %d is 1 or prime' % s['d'], s['d'] == 1 or all(s['d'] % q for q in range(2, s['d'])))
        if multi:
            h.check(w + 'channels %s' % s['ch'], 1 <= len(s['ch']) <= mc and len(set(s['ch'])) == len(s['ch']) and
                    all(0 <= q < c['nch'] for q in s['ch']))
            h.check(w + 'values per channel', all(len(r) == s['l'] for r in s['v']))
        else:
            for j, v in enumerate(s['pad']):
                h.check(w + 'unused value %d' % j, h.eq(v, 0))
        if p.get('proba_norm') == 0.0:
            h.check(w + 'not normalised', not s['norm'])
        if p.get('proba_norm') == 1.0:
            h.check(w + 'normalised', s['norm'])
