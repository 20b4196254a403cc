"""Symbolic terms: canonical polynomials over interned atoms, and booleans.

Numbers are exact rationals (floats of the implementation are idealised as
reals; see DESIGN.md).  Every arithmetic value is a polynomial (dict
monomial -> coefficient) over atoms; an atom is an input variable or the
result of a non polynomial operation (abs, ite, sqrt, 1/p, floor, 2**u, an
uninterpreted function).  Atoms are interned by a canonical key, so equal
computations become the same term.
"""
from fractions import Fraction
import math
import numpy as np


class EngineSignal(BaseException):
    """Base of the engine's own control flow (never caught by the code
    under test, which may catch Exception)."""


class Unsupported(EngineSignal):
    pass


class PathAbort(EngineSignal):
    pass


class SpecAbort(EngineSignal):
    """speculative evaluation of a branch has to be given up"""


# set by engine
ENGINE = None


def engine():
    return ENGINE


def set_engine(e):
    global ENGINE
    ENGINE = e


_ATOMS = []
_ATOM_BY_KEY = {}


class Atom(object):
    __slots__ = ('id', 'kind', 'args', 'is_int', 'nonneg', 'lo', 'hi', 'deps')

    def __init__(self, id, kind, args, is_int, nonneg):
        self.id = id
        self.kind = kind
        self.args = args
        self.is_int = is_int
        self.nonneg = nonneg
        self.lo = None
        self.hi = None
        self.deps = None


def mk_atom(kind, key, args, is_int, nonneg=False):
    k = (kind, key)
    a = _ATOM_BY_KEY.get(k)
    if a is None:
        a = Atom(len(_ATOMS), kind, args, is_int, nonneg)
        _ATOMS.append(a)
        _ATOM_BY_KEY[k] = a
    return a


def reset_atoms():
    _ATOMS.clear()
    _ATOM_BY_KEY.clear()
    _BOOLS.clear()
    _FCACHE.clear()
    _VARIANCES.clear()


_FCACHE = {}
_VARIANCES = {}     # normalised polynomial of a variance -> (its values, sign of the leading term)


def note_variance(es, p):
    key = p_key(p)
    if p_const(p) is None:
        lead = key[-1][1]
        _VARIANCES[p_key(p_scale(p, Fraction(1) / lead))] = (list(es), 1 if lead > 0 else -1)


def _variance_rel(op, p, key, lead):
    """c * variance op 0 and c * std op 0: a variance is never negative and is
    zero exactly when its values are all equal"""
    if not _VARIANCES:
        return None
    sg = 1 if lead > 0 else -1
    if len(key) == 1 and len(key[0][0]) == 1:
        a = _ATOMS[key[0][0][0]]
        if a.kind == 'sqrt':
            q = a.args[0].p
            k2 = p_key(q)
            r = _VARIANCES.get(p_key(p_scale(q, Fraction(1) / k2[-1][1])))
            if r is not None and r[1] * k2[-1][1] > 0:
                return _all_equal(op, sg, r[0])
            return None
    r = _VARIANCES.get(p_key(p_scale(p, Fraction(1) / lead)))
    if r is not None:
        return _all_equal(op, sg * r[1], r[0])
    return None


def _all_equal(op, sg, es):
    if op == 'le' and sg < 0:
        return True
    if op == 'lt' and sg > 0:
        return False
    z = s_and(*[eq(e, es[0]) for e in es[1:]])
    return s_not(z) if op == 'lt' else z


def to_frac(v):
    """Exact rational of a concrete number.  A float that is the closest
    double of a rational with a small denominator is read as that rational."""
    if isinstance(v, (bool, np.bool_)):
        return int(v)
    if isinstance(v, (int, np.integer)):
        return int(v)
    if isinstance(v, Fraction):
        return v.numerator if v.denominator == 1 else v
    f = float(v)
    r = _FCACHE.get(f)
    if r is not None:
        return r
    if f != f or f in (math.inf, -math.inf):
        raise Unsupported('nan/inf in symbolic arithmetic')
    if f == int(f):
        r = int(f)
    else:
        q = Fraction(f).limit_denominator(10 ** 9)
        if float(q) != f:
            q = Fraction(f)
        r = q
    _FCACHE[f] = r
    return r


def nfrac(q):
    if type(q) is Fraction and q.denominator == 1:
        return q.numerator
    return q


CONCRETE = (int, float, bool, np.number, np.bool_, Fraction)


def is_sym(x):
    t = type(x)
    return t is Sym or t is SBool


# ---------------------------------------------------------------- polynomials
# poly: dict {monomial: coef}; monomial: tuple of atom ids, sorted, repeated

def p_add(a, b, sb=1):
    r = dict(a)
    for m, c in b.items():
        c2 = r.get(m)
        if c2 is None:
            r[m] = c * sb if sb != 1 else c
        else:
            s = nfrac(c2 + c * sb)
            if s == 0:
                del r[m]
            else:
                r[m] = s
    return r


def p_scale(a, k):
    if k == 0:
        return {}
    if k == 1:
        return a
    return {m: nfrac(c * k) for m, c in a.items()}


def _mono_mul(m1, m2):
    """returns (monomial, extra polynomial or None)"""
    m = tuple(sorted(m1 + m2))
    # sqrt(p)*sqrt(p) = p ; ite01*ite01 = ite01
    i = 0
    while i + 1 < len(m):
        if m[i] == m[i + 1]:
            at = _ATOMS[m[i]]
            if at.kind == 'sqrt':
                return m[:i] + m[i + 2:], at.args[0].p
            if at.kind == 'ite01':
                m = m[:i] + m[i + 1:]
                continue
        i += 1
    return m, None


def p_mul(a, b):
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            if not m1 or not m2:
                m, ex = m1 or m2, None
            else:
                m, ex = _mono_mul(m1, m2)
            c = c1 * c2
            if ex is None:
                s = nfrac(r.get(m, 0) + c)
                if s == 0:
                    r.pop(m, None)
                else:
                    r[m] = s
            else:
                r = p_add(r, p_mul({m: c}, ex))
    return r


def p_const(a):
    """constant value if the polynomial is constant, else None"""
    if not a:
        return 0
    if len(a) == 1 and () in a:
        return a[()]
    return None


def p_key(a):
    return tuple(sorted(a.items()))


def p_is_int(a):
    for m, c in a.items():
        if type(c) is Fraction:
            return False
        for i in m:
            if not _ATOMS[i].is_int:
                return False
    return True


def p_lower(a):
    """cheap lower bound (or None)"""
    lo = 0
    for m, c in a.items():
        if not m:
            lo = lo + c
            continue
        if c > 0:
            b = 1
            for i in m:
                at = _ATOMS[i]
                if at.lo is not None and at.lo >= 0:
                    b = b * at.lo
                elif at.nonneg:
                    b = 0
                elif len(m) == 1 and at.lo is not None:
                    b = at.lo
                elif len(m) == 2 and m[0] == m[1]:
                    b = 0
                    break
                else:
                    return None
            lo = lo + c * b
        else:
            if len(m) == 1 and _ATOMS[m[0]].hi is not None:
                lo = lo + c * _ATOMS[m[0]].hi
            else:
                return None
    return lo


PRINTED = []


def printed(x):
    """a mark for a symbolic value in a text; h.numbers() finds the value again"""
    if ENGINE is None:
        return '<sym>'
    PRINTED.append(x)
    return '<sym %d>' % (len(PRINTED) - 1)


class Sym(object):
    __slots__ = ('p', 'k', '_key')
    __array_ufunc__ = None
    __array_priority__ = 1000

    def __init__(self, p, k):
        self.p = p
        self.k = k
        self._key = None

    @property
    def key(self):
        if self._key is None:
            self._key = p_key(self.p)
        return self._key

    # ---- numpy scalar look-alike
    @property
    def dtype(self):
        return np.dtype(np.int64 if self.k == 'i' else np.float64)

    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    @property
    def size(self):
        return 1

    @property
    def real(self):
        return self

    def item(self):
        return self

    def copy(self):
        return self

    def astype(self, dt, **kw):
        return cast(self, np.dtype(dt))

    def mean(self, *a, **k):
        return self

    def min(self, *a, **k):
        return self
    max = min
    sum = min

    def any(self, *a, **k):
        return ne(self, 0)
    all = any

    # ---- arithmetic
    def __add__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        return mk(p_add(self.p, o.p), _k2(self, o))
    __radd__ = __add__

    def __sub__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        return mk(p_add(self.p, o.p, -1), _k2(self, o))

    def __rsub__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        return mk(p_add(o.p, self.p, -1), _k2(self, o))

    def __mul__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        return mk(p_mul(self.p, o.p), _k2(self, o))
    __rmul__ = __mul__

    def __neg__(self):
        return mk(p_scale(self.p, -1), self.k)

    def __pos__(self):
        return self

    def __abs__(self):
        return sabs(self)

    def __truediv__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        return sdiv(self, o)

    def __rtruediv__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        return sdiv(o, self)

    def __floordiv__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        return sfloordiv(self, o)

    def __rfloordiv__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        return sfloordiv(o, self)

    def __mod__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        return smod(self, o)

    def __rmod__(self, o):
        if isinstance(o, str):
            return NotImplemented
        o = lift(o)
        if o is NotImplemented:
            return o
        return smod(o, self)

    def __divmod__(self, o):
        return self // o, self % o

    def __pow__(self, o):
        return spow(self, o)

    def __rpow__(self, o):
        return spow(o, self)

    # ---- comparisons
    def __lt__(self, o):
        return lt(self, o)

    def __le__(self, o):
        return le(self, o)

    def __gt__(self, o):
        return lt(o, self)

    def __ge__(self, o):
        return le(o, self)

    def __eq__(self, o):
        return eq(self, o)

    def __ne__(self, o):
        return ne(self, o)

    # ---- concretisation
    def __bool__(self):
        return bool(ne(self, 0))

    def __index__(self):
        if self.k != 'i':
            raise TypeError('only integer scalar arrays can be converted to a scalar index')
        return ENGINE.concretize(self)

    def __int__(self):
        t = strunc(self)
        if type(t) is Sym:
            return ENGINE.concretize(t)
        return int(t)

    def __float__(self):
        c = p_const(self.p)
        if c is not None:
            return float(c)
        if self.k == 'i':
            return float(ENGINE.concretize(self))
        raise Unsupported('float() of a symbolic real')

    def __hash__(self):
        if self.k == 'i':
            return hash(ENGINE.concretize(self))
        raise Unsupported('hash of a symbolic real')

    def __round__(self, n=None):
        if n is None or n == 0:
            r = srint(self)
            return cast(r, np.dtype(np.int64)) if n is None else r
        return srint(self * (10 ** n)) / (10 ** n)

    def __floor__(self):
        return cast(sfloor(self), np.dtype(np.int64))

    def __ceil__(self):
        return cast(-sfloor(-self), np.dtype(np.int64))

    def __trunc__(self):
        return strunc(self)

    def sqrt(self):
        return ssqrt(self)

    def floor(self):
        return sfloor(self)

    def is_integer(self):
        return eq(self, sfloor(self))

    def __repr__(self):
        return '<sym>'

    def __str__(self):
        return printed(self)

    def __format__(self, spec):
        return printed(self)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


def _k2(a, b):
    return 'i' if (a.k == 'i' and b.k == 'i') else 'f'


def mk(p, k):
    """Sym, or a numpy scalar when the value is constant"""
    c = p_const(p)
    if c is not None:
        if k == 'i':
            return np.int64(int(c))
        return np.float64(c)
    return Sym(p, k)


def lift(o):
    t = type(o)
    if t is Sym:
        return o
    if t is SBool:
        return lift(b2i(o))
    if isinstance(o, (bool, np.bool_)):
        return Sym({(): 1} if o else {}, 'i')
    if isinstance(o, (int, np.integer)):
        o = int(o)
        return Sym({(): o} if o else {}, 'i')
    if isinstance(o, (float, np.floating, Fraction)):
        f = to_frac(o)
        return Sym({(): f} if f else {}, 'f')
    return NotImplemented


def const_of(x):
    """exact constant value of a lifted Sym / number, or None"""
    if type(x) is Sym:
        return p_const(x.p)
    if type(x) is SBool:
        return None
    return to_frac(x)


def var(name, is_int=False, lo=None, hi=None):
    lo = None if lo is None else to_frac(lo)
    hi = None if hi is None else to_frac(hi)
    # the bounds are part of the identity: the same script name may be drawn
    # with different bounds on different paths
    zname = '%s|%s|%s|%d' % (name, lo, hi, is_int)
    a = mk_atom('var', zname, (name, zname), is_int, lo is not None and lo >= 0)
    a.lo = lo
    a.hi = hi
    return Sym({(a.id,): 1}, 'i' if is_int else 'f')


def from_atom(a, k):
    return Sym({(a.id,): 1}, k)


def sabs(x):
    if not is_sym(x):
        return abs(x)
    x = lift(x)
    # sign-canonical
    key = x.key
    lead = key[-1][1]
    p = x.p
    if lead < 0:
        p = p_scale(p, -1)
    lo = p_lower(p)
    if lo is not None and lo >= 0:
        return Sym(p, x.k)
    if lead < 0:
        pass
    lo2 = p_lower(p_scale(p, -1))
    if lo2 is not None and lo2 >= 0:
        return Sym(p_scale(p, -1), x.k)
    # pull out a positive constant factor
    g = abs(lead)
    if g != 1:
        p = p_scale(p, Fraction(1) / g)
    s = Sym(p, x.k)
    a = mk_atom('abs', s.key, (s,), p_is_int(p), True)
    return Sym({(a.id,): g}, x.k)


def ssqrt(x):
    if not is_sym(x):
        return np.sqrt(x)
    x = lift(x)
    lo = p_lower(x.p)
    if lo is None or lo < 0:
        # squared terms with arbitrary sign: variance-like polynomials are
        # non negative although the cheap bound does not see it; the engine
        # checks it when asked to
        if not ENGINE.entails_nonneg(x):
            raise Unsupported('sqrt of a possibly negative symbolic value')
    a = mk_atom('sqrt', x.key, (Sym(x.p, 'f'),), False, True)
    return from_atom(a, 'f')


def sdiv(x, y):
    """true division of lifted Syms"""
    c = p_const(y.p)
    if c is not None:
        if c == 0:
            cx = p_const(x.p)
            if cx is not None:
                return np.float64(cx) / np.float64(0)
            raise Unsupported('division of a symbolic value by zero')
        return mk(p_scale(x.p, Fraction(1) / c), 'f')
    if p_const(x.p) == 0:
        z = eq(y, 0)
        if ENGINE.decide(z):
            return np.float64('nan')
        return np.float64(0.)
    if x.key == y.key:
        if not ENGINE.decide(eq(y, 0)):
            return np.float64(1.)
        raise Unsupported('symbolic division by zero')
    lo = p_lower(y.p)
    if lo is None or lo <= 0:
        if ENGINE.decide(eq(y, 0)):
            raise Unsupported('symbolic division by zero')
    lead = y.key[-1][1]
    q = p_scale(y.p, Fraction(1) / lead)
    s = Sym(q, 'f')
    lo = p_lower(q)
    a = mk_atom('inv', s.key, (s,), False, lo is not None and lo >= 0)
    return mk(p_mul(x.p, {(a.id,): nfrac(Fraction(1) / lead)}), 'f')


def sfloor(x):
    """floor, float kind kept"""
    if not is_sym(x):
        return np.floor(x)
    x = lift(x)
    if p_is_int(x.p):
        return x
    # split integral part: floor(i + r) = i + floor(r)
    ip, rp = {}, {}
    for m, c in x.p.items():
        isint = all(_ATOMS[i].is_int for i in m)
        if isint:
            fl = math.floor(c)
            if not m:
                if fl:
                    ip[m] = fl
                if c != fl:
                    rp[m] = nfrac(c - fl)
            elif type(c) is not Fraction:
                ip[m] = c
            else:
                rp[m] = c
        else:
            rp[m] = c
    if p_const(rp) is not None:
        return mk(ip, x.k)
    s = Sym(rp, 'f')
    lo = p_lower(rp)
    a = mk_atom('floor', s.key, (s,), True, lo is not None and lo >= 0)
    if lo is not None:
        a.lo = math.floor(lo)
    return mk(p_add(ip, {(a.id,): 1}), x.k)


def srint(x):
    """round half to even"""
    if not is_sym(x):
        return np.rint(x)
    x = lift(x)
    if p_is_int(x.p):
        return x
    f = sfloor(x)
    d = x - f
    half = eq(d, Fraction(1, 2))
    even = eq(smod(lift(f), lift(2)), 0)
    up = s_or(lt(Fraction(1, 2), d), s_and(half, s_not(even)))
    return ite(up, f + 1, f)


def strunc(x):
    if not is_sym(x):
        return np.int64(np.trunc(x))
    x = lift(x)
    if x.k == 'i':
        return x
    if p_is_int(x.p):
        return Sym(x.p, 'i')
    lo = p_lower(x.p)
    f = sfloor(x)
    if lo is not None and lo >= 0:
        r = f
    else:
        r = ite(le(0, x), f, -sfloor(-x))
    return cast(r, np.dtype(np.int64))


def sfloordiv(x, y):
    c = p_const(y.p)
    k = _k2(x, y)
    if c is None:
        if y.k == 'i':
            y = lift(ENGINE.concretize(y))
            return sfloordiv(x, y)
        r = sfloor(sdiv(x, y))
    elif c == 0:
        raise ZeroDivisionError('integer division or modulo by zero')
    else:
        r = sfloor(mk(p_scale(x.p, Fraction(1) / c), 'f'))
    if type(r) is Sym:
        return Sym(r.p, k)
    return np.int64(r) if k == 'i' else np.float64(r)


def smod(x, y):
    q = sfloordiv(x, y)
    return x - q * y


def spow(x, y):
    cy = const_of(y) if not isinstance(y, SBool) else None
    if cy is not None and is_sym(x):
        if cy == 0:
            return np.int64(1) if lift(x).k == 'i' else np.float64(1.)
        if type(cy) is int and 0 < cy <= 8:
            r = lift(x)
            k = 'f' if (r.k == 'f' or isinstance(y, (float, np.floating))) else 'i'
            p = r.p
            q = p
            for _ in range(cy - 1):
                q = p_mul(q, p)
            return mk(q, k)
        if cy == Fraction(1, 2):
            return ssqrt(x)
        if type(cy) is int and -8 <= cy < 0:
            return sdiv(lift(1.0), lift(spow(x, -cy)))
        raise Unsupported('power with exponent %s' % (cy,))
    cx = const_of(x) if not is_sym(x) else None
    if cx is not None and is_sym(y):
        y = lift(y)
        if cx == 2:
            return spow2(y)
        if y.k == 'i':
            return np.power(np.asarray(x), ENGINE.concretize(y))[()]
        # a**y = 2**(y*log2 a)
        if cx > 0:
            return spow2(lift(y * float(math.log2(cx))))
        raise Unsupported('power of a constant base')
    if is_sym(y) and lift(y).k == 'i':
        return spow(x, ENGINE.concretize(lift(y)))
    raise Unsupported('symbolic power')


def spow2(y):
    """2**y"""
    if not is_sym(y):
        return np.exp2(y)
    y = lift(y)
    if y.k == 'i':
        return np.int64(2) ** np.int64(ENGINE.concretize(y))
    s = Sym(y.p, 'f')
    a = mk_atom('pow2', s.key, (s,), False, True)
    if a.lo is None:
        lo = p_lower(s.p)
        a.lo = to_frac(2.0 ** math.floor(float(lo))) if lo is not None and lo > -30 else 0
        hi = p_lower(p_scale(s.p, -1))
        if hi is not None and -hi < 30:
            a.hi = 2 ** math.ceil(float(-hi))
    return from_atom(a, 'f')


def slog2(x):
    if not is_sym(x):
        return np.log2(x)
    x = lift(x)
    if len(x.p) == 1:
        (m, c), = x.p.items()
        if c == 1 and len(m) == 1 and _ATOMS[m[0]].kind == 'pow2':
            return _ATOMS[m[0]].args[0]
    if x.k == 'i':
        return np.log2(ENGINE.concretize(x))
    return uf('log2', x)


def uf(name, *args):
    args = tuple(lift(a) for a in args)
    a = mk_atom('uf', (name,) + tuple(s.key for s in args), (name,) + args, False)
    return from_atom(a, 'f')


NARROW = {'on': False, 'used': False}


def narrow(x, dt):
    """rounding to a float type of fewer bits: some function of the value"""
    a = x.p if len(x.p) == 1 else None
    nm = 'round_%s' % dt.name
    if a is not None:
        (m, c), = a.items()
        if not m:
            return dt.type(float(c))
        at = _ATOMS[m[0]]
        if len(m) == 1 and c == 1 and at.kind == 'uf' and at.args[0] == nm:
            return x
    NARROW['used'] = True
    return uf(nm, x)


def cast(x, dt):
    """value of scalar x after conversion to dtype dt"""
    dt = np.dtype(dt)
    if not is_sym(x):
        if isinstance(x, Fraction):
            x = float(x)
        if dt == object:
            return x
        return dt.type(x)
    if dt.kind == 'b':
        if type(x) is SBool:
            return x
        return ne(x, 0)
    if dt.kind in 'iu':
        if type(x) is SBool:
            return b2i(x)
        return strunc(x)
    if dt.kind == 'f':
        x = lift(x)
        if NARROW['on'] and dt.itemsize < 8:
            return narrow(x, dt)
        if x.k == 'f':
            return x
        return Sym(x.p, 'f')
    if dt == object:
        return x
    raise Unsupported('cast of a symbolic value to %s' % dt)


# ------------------------------------------------------------------ booleans

_BOOLS = {}


class SBool(object):
    """symbolic boolean; op in le lt eq not and or bvar"""
    __slots__ = ('op', 'args', 'id', 'deps')
    __array_ufunc__ = None
    __array_priority__ = 1000

    @property
    def dtype(self):
        return np.dtype(bool)

    @property
    def shape(self):
        return ()
    ndim = 0
    size = 1

    def item(self):
        return self

    def copy(self):
        return self

    def any(self, *a, **k):
        return self
    all = any

    def sum(self, *a, **k):
        return b2i(self)

    def astype(self, dt, **kw):
        return cast(self, np.dtype(dt))

    def __bool__(self):
        return ENGINE.decide(self)

    def __index__(self):
        return int(ENGINE.decide(self))

    def __int__(self):
        return int(ENGINE.decide(self))

    def __float__(self):
        return float(ENGINE.decide(self))

    def __hash__(self):
        return hash(ENGINE.decide(self))

    def __invert__(self):
        return s_not(self)

    def __and__(self, o):
        if not isboolish(o):
            return NotImplemented if not is_sym(o) else b2i(self) & o
        return s_and(self, o)
    __rand__ = __and__

    def __or__(self, o):
        if not isboolish(o):
            return NotImplemented
        return s_or(self, o)
    __ror__ = __or__

    def __xor__(self, o):
        if not isboolish(o):
            return NotImplemented
        return s_xor(self, o)
    __rxor__ = __xor__

    def __eq__(self, o):
        if isboolish(o):
            return s_not(s_xor(self, o))
        return eq(self, o)

    def __ne__(self, o):
        if isboolish(o):
            return s_xor(self, o)
        return ne(self, o)

    def __lt__(self, o):
        return lt(self, o)

    def __le__(self, o):
        return le(self, o)

    def __gt__(self, o):
        return lt(o, self)

    def __ge__(self, o):
        return le(o, self)

    def __repr__(self):
        return '<symbool>'

    def __format__(self, spec):
        return '<symbool>'

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


def _arith(name):
    def f(self, o):
        return getattr(lift(b2i(self)), name)(o)
    f.__name__ = name
    return f


for _n in ('add radd sub rsub mul rmul truediv rtruediv floordiv rfloordiv '
           'mod rmod pow rpow').split():
    setattr(SBool, '__%s__' % _n, _arith('__%s__' % _n))
SBool.__neg__ = lambda self: -lift(b2i(self))
SBool.__abs__ = lambda self: self


def isboolish(o):
    return type(o) is SBool or isinstance(o, (bool, np.bool_))


def _mkb(op, args):
    k = (op,) + tuple(a.id if type(a) is SBool else a for a in args) \
        if op in ('not', 'and', 'or') else (op, args[0] if op == 'bvar' else args[0].key)
    b = _BOOLS.get(k)
    if b is None:
        b = SBool.__new__(SBool)
        b.op = op
        b.args = args
        b.id = len(_BOOLS)
        b.deps = None
        _BOOLS[k] = b
    return b


def bvar(name):
    return _mkb('bvar', (name,))


def _rel(op, p):
    """p op 0 with op in le, lt, eq"""
    c = p_const(p)
    if c is not None:
        return bool(c <= 0 if op == 'le' else c < 0 if op == 'lt' else c == 0)
    key = p_key(p)
    lead = key[-1][1]
    r = _variance_rel(op, p, key, lead)
    if r is not None:
        return r
    if op == 'eq':
        p = p_scale(p, Fraction(1) / lead)
    elif abs(lead) != 1:
        p = p_scale(p, Fraction(1) / abs(lead))
    if all(all(_ATOMS[i].is_int for i in m) for m in p):
        # integer polynomial: clear denominators
        den = 1
        for c in p.values():
            if type(c) is Fraction:
                den = den * c.denominator // math.gcd(den, c.denominator)
        if den != 1:
            p = p_scale(p, den)
        g = 0
        for m, c in p.items():
            if m:
                g = math.gcd(g, abs(c))
        c0 = p.get((), 0)
        if op == 'lt':
            op = 'le'
            p = p_add(p, {(): 1})
            c0 = p.get((), 0)
        if g > 1:
            if op == 'eq':
                if c0 % g:
                    return False
                p = p_scale(p, Fraction(1, g))
            else:
                # sum <= -c0  ->  sum/g <= floor(-c0/g)
                q = {m: c // g for m, c in p.items() if m}
                k = -((-c0) // g)
                if k:
                    q[()] = k
                p = q
    if op in ('le', 'lt'):
        lo = p_lower(p)
        if lo is not None and (lo > 0 or (op == 'lt' and lo >= 0)):
            return False
        hi = p_lower(p_scale(p, -1))
        if hi is not None and (hi > 0 or (op == 'le' and hi >= 0)):
            return True
    else:
        lo = p_lower(p)
        if lo is not None and lo > 0:
            return False
        hi = p_lower(p_scale(p, -1))
        if hi is not None and hi > 0:
            return False
    return _mkb(op, (Sym(p, 'f'),))


def _inf(x):
    return isinstance(x, (float, np.floating)) and (x != x or x in (math.inf, -math.inf))


def _num(o):
    return is_sym(o) or isinstance(o, CONCRETE)


def le(a, b):
    if not is_sym(a) and not is_sym(b):
        return bool(a <= b)
    if not (_num(a) and _num(b)):
        return NotImplemented
    if _inf(a):
        return bool(a == -math.inf)
    if _inf(b):
        return bool(b == math.inf)
    return _rel('le', p_add(lift(a).p, lift(b).p, -1))


def lt(a, b):
    if not is_sym(a) and not is_sym(b):
        return bool(a < b)
    if not (_num(a) and _num(b)):
        return NotImplemented
    if _inf(a):
        return bool(a == -math.inf)
    if _inf(b):
        return bool(b == math.inf)
    return _rel('lt', p_add(lift(a).p, lift(b).p, -1))


def eq(a, b):
    if not is_sym(a) and not is_sym(b):
        return bool(a == b)
    if not (_num(a) and _num(b)):
        return NotImplemented if not (isinstance(a, str) or isinstance(b, str) or a is None or b is None) else False
    if _inf(a) or _inf(b):
        return False
    if isboolish(a) and isboolish(b):
        return s_not(s_xor(a, b))
    return _rel('eq', p_add(lift(a).p, lift(b).p, -1))


def ne(a, b):
    r = eq(a, b)
    if r is NotImplemented:
        return r
    return s_not(r)


def s_not(a):
    if type(a) is not SBool:
        return not a
    if a.op == 'not':
        return a.args[0]
    if a.op == 'le':
        return _rel('lt', p_scale(a.args[0].p, -1))
    if a.op == 'lt':
        return _rel('le', p_scale(a.args[0].p, -1))
    return _mkb('not', (a,))


def _nary(op, xs, unit):
    flat = []
    seen = set()
    for x in xs:
        if type(x) is not SBool:
            if isinstance(x, Sym):
                x = ne(x, 0)
            if type(x) is not SBool:
                if bool(x) != unit:
                    return not unit
                continue
        ys = x.args if x.op == op else (x,)
        for y in ys:
            if y.id not in seen:
                seen.add(y.id)
                flat.append(y)
    if not flat:
        return unit
    if len(flat) == 1:
        return flat[0]
    for y in flat:
        n = s_not(y)
        if type(n) is SBool and n.id in seen:
            return not unit
    flat.sort(key=lambda b: b.id)
    return _mkb(op, tuple(flat))


def s_and(*xs):
    return _nary('and', xs, True)


def s_or(*xs):
    return _nary('or', xs, False)


def s_xor(a, b):
    if type(a) is not SBool and type(b) is not SBool:
        return bool(a) != bool(b)
    if type(a) is not SBool:
        return s_not(b) if a else b
    if type(b) is not SBool:
        return s_not(a) if b else a
    if a.id == b.id:
        return False
    return s_or(s_and(a, s_not(b)), s_and(s_not(a), b))


def b2i(b):
    if type(b) is not SBool:
        return np.int64(bool(b))
    neg = False
    if b.op == 'not':
        neg, b = True, b.args[0]
    elif b.op == 'le':
        # canonical orientation so that ite01(c) + ite01(not c) = 1 is visible
        n = s_not(b)
        if type(n) is SBool and n.id < b.id:
            neg, b = True, n
    elif b.op == 'lt':
        n = s_not(b)
        if type(n) is SBool and n.id < b.id:
            neg, b = True, n
    a = mk_atom('ite01', b.id, (b,), True, True)
    a.lo, a.hi = 0, 1
    if neg:
        return Sym({(): 1, (a.id,): -1}, 'i')
    return Sym({(a.id,): 1}, 'i')


def ite(c, a, b):
    """if-then-else on numbers or booleans"""
    if type(c) is not SBool:
        if type(c) is Sym:
            c = ne(c, 0)
        if type(c) is not SBool:
            return a if c else b
    if a is b:
        return a
    if isboolish(a) and isboolish(b):
        return s_or(s_and(c, a), s_and(s_not(c), b))
    if not (_num(a) and _num(b)):
        raise SpecAbort()
    if _inf(a) or _inf(b):
        raise SpecAbort()
    la, lb = lift(a), lift(b)
    k = _k2(la, lb)
    d = p_add(la.p, lb.p, -1)
    dc = p_const(d)
    if dc is not None:
        if dc == 0:
            return mk(la.p, k)
        return mk(p_add(lb.p, p_scale(lift(b2i(c)).p, dc)), k)
    if c.op == 'not':
        c, la, lb = c.args[0], lb, la
    elif c.op in ('le', 'lt'):
        n = s_not(c)
        if type(n) is SBool and n.id < c.id:
            c, la, lb = n, lb, la
    isint = p_is_int(la.p) and p_is_int(lb.p)
    l1, l2 = p_lower(la.p), p_lower(lb.p)
    nn = l1 is not None and l2 is not None and l1 >= 0 and l2 >= 0
    at = mk_atom('ite', (c.id, la.key, lb.key), (c, la, lb), isint, nn)
    if l1 is not None and l2 is not None:
        at.lo = min(l1, l2)
    return from_atom(at, k)


def smin(a, b):
    return ite(lt(b, a), b, a)


def smax(a, b):
    return ite(lt(a, b), b, a)


# ------------------------------------------------------------- dependencies

def sym_atoms(s, acc):
    for m in s.p:
        for i in m:
            if i not in acc:
                atom_deps(_ATOMS[i], acc)


def atom_deps(at, acc):
    if at.deps is None:
        d = {at.id}
        k = at.kind
        if k in ('abs', 'sqrt', 'inv', 'floor', 'pow2'):
            sym_atoms(at.args[0], d)
        elif k == 'ite01':
            bool_atoms(at.args[0], d)
        elif k == 'ite':
            bool_atoms(at.args[0], d)
            sym_atoms(at.args[1], d)
            sym_atoms(at.args[2], d)
        elif k == 'uf':
            for s in at.args[1:]:
                sym_atoms(s, d)
        at.deps = frozenset(d)
    acc |= at.deps


def bool_atoms(b, acc):
    if b.deps is None:
        d = set()
        if b.op in ('le', 'lt', 'eq'):
            sym_atoms(b.args[0], d)
        elif b.op != 'bvar':
            for x in b.args:
                bool_atoms(x, d)
        b.deps = frozenset(d)
    acc |= b.deps


# ------------------------------------------- evaluation under fixed atoms

class NotFixed(Exception):
    pass


def fix_ev(x, fixed):
    """exact value of a term all of whose leaves are fixed, or NotFixed"""
    if type(x) is SBool:
        if x.op in ('le', 'lt', 'eq'):
            v = fix_ev(x.args[0], fixed)
            return v <= 0 if x.op == 'le' else v < 0 if x.op == 'lt' else v == 0
        if x.op == 'not':
            return not fix_ev(x.args[0], fixed)
        if x.op == 'and':
            return all(fix_ev(a, fixed) for a in x.args)
        if x.op == 'or':
            return any(fix_ev(a, fixed) for a in x.args)
        raise NotFixed()
    if type(x) is not Sym:
        return to_frac(x)
    r = 0
    for m, c in x.p.items():
        t = c
        for i in m:
            v = fixed.get(i)
            if v is None:
                v = fix_atom(_ATOMS[i], fixed)
            t = t * v
        r = r + t
    return r


def fix_atom(a, fixed):
    k = a.kind
    if k == 'floor':
        v = math.floor(fix_ev(a.args[0], fixed))
    elif k == 'abs':
        v = abs(fix_ev(a.args[0], fixed))
    elif k == 'ite01':
        v = 1 if fix_ev(a.args[0], fixed) else 0
    elif k == 'ite':
        v = fix_ev(a.args[1] if fix_ev(a.args[0], fixed) else a.args[2], fixed)
    elif k == 'inv':
        q = fix_ev(a.args[0], fixed)
        if q == 0:
            raise NotFixed()
        v = Fraction(1) / q
    else:
        raise NotFixed()
    fixed[a.id] = v
    return v


# --------------------------------------------------------------- evaluation

def ev(x, env, memo=None):
    """evaluate a term in floats/exact numbers for an assignment of vars"""
    if memo is None:
        memo = {}
    if type(x) is SBool:
        return ev_b(x, env, memo)
    if type(x) is Sym:
        r = 0
        for m, c in x.p.items():
            t = c
            for i in m:
                t = t * ev_a(_ATOMS[i], env, memo)
            r = r + t
        return r
    return x


def ev_a(a, env, memo):
    v = memo.get(a.id)
    if v is not None:
        return v
    k = a.kind
    if k == 'var':
        v = env.get(a.args[0])
        if v is None:
            v = a.lo if a.lo is not None else 0
    elif k == 'abs':
        v = abs(ev(a.args[0], env, memo))
    elif k == 'sqrt':
        q = ev(a.args[0], env, memo)
        v = math.sqrt(q) if q > 0 else 0
    elif k == 'inv':
        q = ev(a.args[0], env, memo)
        if q == 0:
            raise ZeroDivisionError
        v = Fraction(1) / q if isinstance(q, (int, Fraction)) else 1.0 / q
    elif k == 'floor':
        v = math.floor(ev(a.args[0], env, memo))
    elif k == 'pow2':
        v = 2.0 ** float(ev(a.args[0], env, memo))
    elif k == 'ite01':
        v = 1 if ev_b(a.args[0], env, memo) else 0
    elif k == 'ite':
        v = ev(a.args[1] if ev_b(a.args[0], env, memo) else a.args[2], env, memo)
    elif k == 'uf':
        if a.args[0] == 'log2':
            v = math.log2(float(ev(a.args[1], env, memo)))
        elif a.args[0] == 'log':
            v = math.log(float(ev(a.args[1], env, memo)))
        elif a.args[0] == 'exp':
            v = math.exp(float(ev(a.args[1], env, memo)))
        elif a.args[0].startswith('round_'):
            v = to_frac(float(np.dtype(a.args[0][6:]).type(float(ev(a.args[1], env, memo)))))
        else:
            raise Unsupported('uf evaluation')
    memo[a.id] = v
    return v


def ev_b(b, env, memo):
    if b.op == 'bvar':
        return bool(env.get(b.args[0], False))
    if b.op == 'not':
        return not ev_b(b.args[0], env, memo)
    if b.op == 'and':
        return all(ev_b(x, env, memo) for x in b.args)
    if b.op == 'or':
        return any(ev_b(x, env, memo) for x in b.args)
    v = ev(b.args[0], env, memo)
    if b.op == 'le':
        return v <= 0
    if b.op == 'lt':
        return v < 0
    return v == 0
