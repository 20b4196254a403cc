"""C05: provenance of shapelet values."""
from harness.fitlib import big, cfg, fit, sources

BOUNDS = 'training sets of 1-3 series of 3-6 points, 1-2 channels, 1-2 shapelets of length 2-3, every dilation, every ' \
         'draw of lengths, dilations, samples, positions, channels and normalisation; contents arbitrary reals'
SCALED = True
NARROW = True
OUTSIDE = 'larger training sets; NaN and infinities'


def configs(tier):
    U, V, M, W = 'univariate', 'univariate_variable', 'multivariate', 'multivariate_variable'
    out = []
    for ph in (False, True):
        out += [
            cfg(U, [4, 4], [0, 1], 1, [2, 3], phase_invariance=ph),
            cfg(V, [3, 5], [0, 1], 1, [2, 3], phase_invariance=ph),
            cfg(M, [4, 4], [0, 0], 1, [2, 3], 2, phase_invariance=ph),
            cfg(W, [5, 3], [0, 1], 1, [2, 3], 2, phase_invariance=ph),
            cfg(V, [5, 3, 4], [0, 1, 0], 1, [3], n_samples=0.67, proba_norm=0.0, phase_invariance=ph),
            cfg(W, [4, 3], [0, 1], 1, [3], 2, n_samples=0.5, proba_norm=0.0, phase_invariance=ph),
            cfg(V, [3, 4], [0, 1], 1, [2], n_samples=1.5, proba_norm=0.0, phase_invariance=ph),
            cfg(U, [3, 3, 3], [0, 1, 0], 1, [2], n_samples=0.67, proba_norm=1.0, phase_invariance=ph),
            cfg(U, [3, 3] if not ph else [3], [0, 1] if not ph else [0], 2, [2], proba_norm=0.0, phase_invariance=ph),
            cfg(W, [3, 4], [0, 1], 1, [2], 3, proba_norm=0.0, phase_invariance=ph),
            # longer series: larger dilations
            cfg(U, [9], [0], 1, [3], proba_norm=0.0, phase_invariance=ph),
            cfg(U, [8], [0], 1, [4], proba_norm=1.0, phase_invariance=ph),
            cfg(V, [7, 9], [0, 1], 1, [3], proba_norm=0.0, phase_invariance=ph),
            cfg(M, [7], [0], 1, [3], 2, proba_norm=1.0, phase_invariance=ph),
            cfg(W, [5, 8], [0, 1], 1, [3], 2, proba_norm=0.0, max_channels=1, phase_invariance=ph),
            # several shapelets of different lengths, some of them dropped
            cfg(W, [3], [0], 3, [2, 3], 1, transform_type=W, alpha=1.0, proba_norm=0.0, phase_invariance=ph),
        ]
    out += [
        cfg(M, [3, 3], [0, 0], 2, [2], 2, proba_norm=0.0, alpha=0.9),
        cfg(M, [3], [0], 3, [2, 3], 1, transform_type=M, alpha=1.0, proba_norm=0.0),
    ]
    out += big((0, 1, 2, 3) if tier == 'quick' else range(10))
    if tier == 'thorough':
        for ph in (False, True):
            out += [
                cfg(U, [3, 3], [0, 1], 2, [2], proba_norm=0.0, phase_invariance=ph),
                cfg(M, [3], [0], 3, [2, 3], 1, transform_type=M, alpha=1.0, proba_norm=0.0, phase_invariance=ph),
                cfg(M, [3, 3], [0, 0], 2, [2], 2, proba_norm=0.0, alpha=0.9, phase_invariance=ph),
                cfg(U, [6, 6, 6], [0, 1, 0], 1, [2, 3, 4], phase_invariance=ph),
                cfg(V, [4, 8, 6], [0, 1, 0], 1, [3, 4], phase_invariance=ph),
                cfg(M, [5, 5], [0, 0], 1, [2, 3], 3, phase_invariance=ph),
                cfg(W, [4, 6, 5], [0, 1, 0], 1, [3, 4], 2, phase_invariance=ph),
                cfg(W, [3, 4], [0, 1], 2, [2, 3], 2, proba_norm=0.0, phase_invariance=ph),
                cfg(V, [3, 4], [0, 1], 2, [2, 3], proba_norm=0.0, phase_invariance=ph),
                cfg(U, [13], [0], 1, [3], proba_norm=0.0, phase_invariance=ph),
            ]
    return out


def run(h, c):
    ph = bool(c['p'].get('phase_invariance'))
    series, est, shps = fit(h, c)
    for i, s in enumerate(shps):
        src = sources(h, c, series, s, ph)
        h.check('shapelet %d: values of a training series' % i, h.or_(*[q for _, _, q in src]) if src else False)
    if shps:
        h.reach('kept')
    if c['p'].get('proba_norm') == 0.0:
        h.out('values', est.shapelets_[0])
