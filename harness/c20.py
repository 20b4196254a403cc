"""C20: z-normalisation."""
from harness.util import generic_value

BOUNDS = '1-3 series, 1-3 channels, 1-6 points (3-6 for Z_normalizer), lists of mixed lengths, constant channels, float ' \
         'and (Z_normalizer) integer contents; contents arbitrary. Also 2-12 series, 1-5 channels, 9-130 points of fixed contents ' \
         'but for one arbitrary value per channel'
SCALED = True
OUTSIDE = 'larger arrays; NaN and infinities; z_norm_3D works in place and truncates on integer arrays, which the loader never passes'


def configs(tier):
    out = []
    for f in ('z_norm_3D', 'Z_normalizer'):
        for n, ch, t in ((1, 1, 1), (1, 1, 2), (2, 1, 3), (1, 2, 4), (2, 3, 3), (3, 2, 4), (2, 2, 6), (3, 1, 5)):
            if f == 'Z_normalizer' and t < 3:
                continue
            for const in ([], [(0, ch - 1)], [(n - 1, 0)]):
                out.append({'f': f, 'lens': [t] * n, 'ch': ch, 'const': const})
    for lens, ch in (([3], 1), ([2, 4], 1), ([4, 1, 3], 1), ([3, 5], 2), ([5, 3, 3], 2), ([2, 6], 3)):
        for const in ([], [(0, ch - 1)], [(len(lens) - 1, 0)]):
            out.append({'f': 'z_norm_3D_list', 'lens': lens, 'ch': ch, 'const': const})
    for n, ch, t in ((1, 1, 3), (2, 2, 4)):
        out.append({'f': 'Z_normalizer', 'lens': [t] * n, 'ch': ch, 'const': [], 'int': True})
    # most contents fixed
    for f in ('z_norm_3D', 'Z_normalizer', 'z_norm_3D_list'):
        for lens, ch in (([40] * 4, 2), ([9] * 12, 5), ([130] * 2, 1)):
            if f == 'z_norm_3D_list':
                lens = [max(1, n - 7 * i) for i, n in enumerate(lens)]
            out.append({'f': f, 'lens': lens, 'ch': ch, 'const': [(0, ch - 1)] if len(lens) > 2 else [], 'semi': 1})
    if tier == 'thorough':
        for f in ('z_norm_3D', 'Z_normalizer'):
            out.append({'f': f, 'lens': [12, 12], 'ch': 2, 'const': []})
            out.append({'f': f, 'lens': [4] * 5, 'ch': 4, 'const': [(2, 2)]})
        out.append({'f': 'z_norm_3D_list', 'lens': [10, 3, 7, 12], 'ch': 3, 'const': [(1, 1)]})
    return out


def run(h, c):
    np = h.np
    S = []
    for i, n in enumerate(c['lens']):
        s = []
        for k in range(c['ch']):
            if (i, k) in [tuple(q) for q in c['const']]:
                s.append([h.real('c%d.%d' % (i, k))] * n)
            elif c.get('semi'):
                s.append([h.real('x%d.%d.%d' % (i, k, t)) if t == (5 * i + k) % n else generic_value(i, k, t)
                          for t in range(n)])
            elif c.get('int'):
                s.append([h.int('x%d.%d.%d' % (i, k, t), -1000, 1000) for t in range(n)])
            else:
                s.append([h.real('x%d.%d.%d' % (i, k, t)) for t in range(n)])
        S.append(s)
    dt = int if c.get('int') else float
    if c['f'] == 'z_norm_3D_list':
        X = [np.asarray(s, dtype=dt) for s in S]
    else:
        X = np.asarray(S, dtype=dt)
    if c['f'] == 'Z_normalizer':
        Z = h.load('convst.transformers._input_transformers').Z_normalizer()
        before = h.snapshot(X)
        R = Z.fit(X).transform(X)
        h.check('the input is left unmodified', h.same(before, h.snapshot(X)))
        h.check('a new array', R is not X)
        h.ck_arr('transform again', Z.transform(X), h.elems(R), tuple(R.shape))
        h.check('the input is left unmodified by a second call', h.same(before, h.snapshot(X)))
    else:
        R = getattr(h.load('convst.utils.dataset_utils'), c['f'])(X)
    h.check('number of series', len(R) == len(S))
    for i, s in enumerate(S):
        h.check('series %d: shape' % i, tuple(R[i].shape) == (c['ch'], len(s[0])))
        for k, ch in enumerate(s):
            if (i, k) in [tuple(q) for q in c['const']]:
                h.ck_list('series %d channel %d: zeros' % (i, k), R[i][k], [0.0] * len(ch))
            else:
                h.ck_list('series %d channel %d' % (i, k), R[i][k], h.znorm(ch))
    if c['f'] != 'z_norm_3D_list':
        h.out('R', R)
    h.reach(c['f'])
