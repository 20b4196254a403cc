"""C04: admissible shapelet parameters, packing."""
from harness.fitlib import big, cfg, data, fit, structure

BOUNDS = 'training sets of 1-3 series of 3-31 points, 1-3 channels, 1-3 shapelets of length 2-11, prime and plain ' \
         'dilations, every draw of lengths, dilations (including the end points of the interval), channels, samples and ' \
         'positions; contents arbitrary reals in the small sets, fixed in the long ones (no check depends on them)'
BUDGET = {'quick': 150, 'thorough': 900}
OUTSIDE = 'more than 3 shapelets at once; floating point rounding inside log2/power beyond exact powers of two'


def configs(tier):
    U, V, M, W = 'univariate', 'univariate_variable', 'multivariate', 'multivariate_variable'
    out = []
    for ph in (False, True):
        out += [
            cfg(U, [4, 4], [0, 1], 1, [2, 3], phase_invariance=ph),
            cfg(V, [3, 5], [0, 1], 1, [2, 3], phase_invariance=ph),
            cfg(W, [5, 3], [0, 1], 1, [2, 3], 3, proba_norm=0.0, max_channels=2, phase_invariance=ph),
            cfg(M, [4], [0], 1, [3, 2], 3, proba_norm=0.0, max_channels=3, phase_invariance=ph),
            cfg(M, [4, 4], [0, 1], 1, [2, 3], 2, proba_norm=0.0, max_channels=1, phase_invariance=ph),
            cfg(W, [4, 3], [0, 1], 1, [3, 2], 3, proba_norm=0.0, max_channels=1, phase_invariance=ph),
            cfg(W, [3, 4], [0, 1], 1, [3, 2], 3, proba_norm=0.0, phase_invariance=ph),
            dict(cfg(U, [3], [0], 2, [2, 3], proba_norm=1.0, phase_invariance=ph), _w=1),
            cfg(W, [3], [0], 3, [2, 3], 1, transform_type=W, alpha=1.0, proba_norm=0.0, phase_invariance=ph),
        ]
    for pr in (False, True):
        for n, ls in ((12, [2]), (31, [4, 5]), (9, [9, 2]), (23, [11]), (17, [2, 3])):
            for kind in (U, V, M, W):
                lens = [n] if kind in (U, M) else [n, n + 3]
                out.append(dict(cfg(kind, lens, [0] * len(lens), 1, ls, 2 if kind in (M, W) else 1, proba_norm=0.0,
                                    prime_dilations=pr), pin=True))
    # several shapelets of different lengths: the bound of each one is its own
    for kind in (U, V, M, W):
        lens = [9] if kind in (U, M) else [9, 11]
        for pr, ls in ((True, [2, 9]), (True, [2, 3]), (False, [2, 9])):
            out.append(dict(cfg(kind, lens, [0] * len(lens), 2, ls, 1, proba_norm=0.0, prime_dilations=pr,
                                transform_type=kind), pin=True))
    out += [
        cfg(V, [5, 3, 4], [0, 1, 0], 1, [3], n_samples=0.67, proba_norm=0.0),
        cfg(V, [6, 5], [0, 1], 1, [2], min_len=4, proba_norm=0.0),
        cfg(W, [6, 5], [0, 1], 1, [2], 1, transform_type=W, min_len=4, proba_norm=0.0),
        cfg(M, [3, 3], [0, 0], 2, [2], 2, proba_norm=0.0, alpha=0.9),
        cfg(M, [3], [0], 3, [2, 3], 1, transform_type=M, alpha=1.0, proba_norm=0.0),
        cfg(U, [3], [0], 3, [2, 3], alpha=1.0, proba_norm=0.0),
        cfg(V, [3, 3], [0, 0], 2, [3], alpha=1.0, proba_norm=0.5),
    ]
    out += big((0, 1, 2, 3) if tier == 'quick' else range(10))
    if tier == 'thorough':
        for ph in (False, True):
            out += [
                cfg(U, [4, 4], [0, 1], 2, [2, 3], alpha=0.2, phase_invariance=ph),
                cfg(M, [4], [0], 2, [2, 3], 2, proba_norm=0.0, phase_invariance=ph),
                cfg(W, [4, 3], [0, 1], 2, [2, 3], 2, proba_norm=0.0, alpha=1.0, phase_invariance=ph),
                cfg(V, [4, 3], [0, 1], 2, [2, 3], phase_invariance=ph),
                cfg(M, [3], [0], 3, [2, 3], 1, transform_type=M, alpha=1.0, proba_norm=0.0, phase_invariance=ph),
            ]
        for pr in (False, True):
            for n, ls in ((60, [3, 5]), (43, [7]), (64, [2])):
                for kind in (U, V, M, W):
                    lens = [n] if kind in (U, M) else [n, n + 3]
                    out.append(dict(cfg(kind, lens, [0] * len(lens), 1, ls, 2 if kind in (M, W) else 1, proba_norm=0.0,
                                        prime_dilations=pr), pin=True))
    return out


def pin_positions(h):
    """sample and position draws inside the generation loops: all first or
    all last; channel draws stay free"""
    draw = h.draw_index
    last = h.choose('last', 2)

    def f(name, m):
        if h.w.iters and '.' not in name.split('#')[-1]:
            return m - 1 if last else 0
        return draw(name, m)
    h.draw_index = f


def run(h, c):
    n = c['p'].get('min_len') or min(c['lens'])
    if c.get('pin'):
        # long series: fixed contents, few positions; lengths, dilations and
        # channels free
        series = [[[float((3 * i + 5 * k + t * t + 2 * t) % 17) + 0.25 * t for t in range(m)] for k in range(c['nch'])]
                  for i, m in enumerate(c['lens'])]
        pin_positions(h)
        series, est, shps = fit(h, c, series)
    else:
        series, est, shps = fit(h, c)
    structure(h, c, shps, est, c['lengths'], n)
    if shps:
        h.reach('kept')
    if len(shps) < c['k']:
        h.reach('dropped')
    if c['p'].get('proba_norm') == 0.0:
        # (whether a normalised shapelet is exactly zero is a matter of rounding)
        h.out('lengths', est.shapelets_[1])
        h.out('dilations', est.shapelets_[2])
