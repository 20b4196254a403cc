"""math look-alike"""
import math
import types
from . import terms as T
from . import symnp


def make_module():
    m = types.ModuleType('math')
    m.__dict__.update({k: v for k, v in math.__dict__.items() if not k.startswith('__')})

    def un(name, f):
        nat = getattr(math, name)

        def g(x, *a):
            if hasattr(x, 'd') and hasattr(x, 'dt') and x.size == 1:
                x = next(iter(x.d.flat))
            if T.is_sym(x) or any(T.is_sym(y) for y in a):
                return f(x, *a)
            return nat(x, *a)
        setattr(m, name, g)
    un('sqrt', lambda x: symnp.sqrt(x))
    un('floor', lambda x: T.cast(T.sfloor(T.lift(x)), 'i8'))
    un('ceil', lambda x: -T.cast(T.sfloor(-T.lift(x)), 'i8'))
    un('trunc', lambda x: T.strunc(x))
    un('fabs', lambda x: T.cast(T.sabs(x), 'f8'))
    un('pow', lambda x, y: T.spow(x, y))
    un('log2', lambda x: symnp.log2(x))
    un('log', lambda x, *a: symnp.log(x, *a))
    un('exp', lambda x: symnp.exp(x))
    un('isnan', lambda x: False)
    un('isinf', lambda x: False)
    un('isfinite', lambda x: True)
    un('isclose', lambda a, b, **k: symnp.isclose(a, b, **k))

    def fsum(xs):
        s = 0
        for x in xs:
            s = s + x
        return s

    def prod(xs, start=1):
        for x in xs:
            start = start * x
        return start
    m.fsum = fsum
    m.prod = prod
    return m
