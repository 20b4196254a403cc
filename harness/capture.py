"""Observing the arguments with which shapelets are generated / applied."""
import inspect

MODS = {'univariate': ('_univariate_same_length', 'U_SL'), 'univariate_variable': ('_univariate_variable_length', 'U_VL'),
        'multivariate': ('_multivariate_same_length', 'M_SL'),
        'multivariate_variable': ('_multivariate_variable_length', 'M_VL')}


def _mods(h):
    import sys
    d = h.w.mods if h.mode == 'sym' else sys.modules
    return [m for n, m in list(d.items()) if (n == 'convst' or n.startswith('convst.')) and m is not None]


def patch(h, wrap):
    """replace the generation and transform functions of the four kinds by
    wrap(kind, 'fit'/'transform', original); the fit calls a stand-in"""
    h.load('convst.transformers')
    for kind, (mod, pre) in MODS.items():
        m = h.load('convst.transformers.' + mod)
        for what, name in (('fit', pre + '_generate_shapelet'), ('transform', pre + '_apply_all_shapelets')):
            f = getattr(m, name, None)
            if f is None:
                h.unsupported('no function %s' % name)
            g = wrap(kind, what, f)
            if g is f:
                continue
            for k in _mods(h):
                for n, v in list(vars(k).items()):
                    if v is f:
                        setattr(k, n, g)


def bound(f, a, k):
    """argument name -> value"""
    s = inspect.signature(getattr(f, '__wrapped__', f)).bind(*a, **k)
    s.apply_defaults()
    return dict(s.arguments)


def get(h, call, *names):
    for n in names:
        if n in call['args']:
            return call['args'][n]
    h.unsupported('no argument named %s' % (names,))


def dummy(h, kind):
    np = h.np
    o = np.asarray([1], dtype=np.int64)
    t = (np.asarray([2], dtype=np.int64), o, np.asarray([1.0]), np.asarray([False]))
    if kind.startswith('multi'):
        return (np.asarray([1.0, 2.0]),) + t + (o, np.asarray([0], dtype=np.int64))
    return (np.asarray([[1.0, 2.0]]),) + t


def record(h, features=None):
    """record all calls; generation returns a dummy shapelet set, transform the
    features given by features(args) (default: the real function)"""
    calls = []

    def wrap(kind, what, f):
        if what == 'transform' and features is None:
            return f

        def g(*a, **k):
            c = {'kind': kind, 'what': what, 'args': bound(f, a, k)}
            calls.append(c)
            if what == 'fit':
                c['out'] = dummy(h, kind)
            else:
                c['out'] = features(c)
            return c['out']
        return g
    patch(h, wrap)
    return calls
