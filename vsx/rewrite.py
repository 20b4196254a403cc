"""AST rewriting of the code under test: branches over symbolic conditions are
merged when that is side-effect free, int()/float()/and/or/not become
term-aware.  Line numbers are preserved; nothing else changes."""
import ast
import builtins
from . import terms as T
from .terms import Sym, SBool, is_sym

PURE_CALLS = {'abs', 'min', 'max', 'int', 'float', 'len', 'round', 'float_',
              'int64', 'float64', 'sqrt', 'bool_', 'bool', 'int_', 'minimum',
              'maximum', 'absolute', 'fabs', 'floor', 'manhattan'}


def pure(e):
    if isinstance(e, (ast.Name, ast.Constant)):
        return True
    if isinstance(e, ast.Attribute):
        return pure(e.value)
    if isinstance(e, ast.BinOp):
        return pure(e.left) and pure(e.right)
    if isinstance(e, ast.UnaryOp):
        return pure(e.operand)
    if isinstance(e, ast.Compare):
        return pure(e.left) and all(pure(c) for c in e.comparators)
    if isinstance(e, ast.BoolOp):
        return all(pure(v) for v in e.values)
    if isinstance(e, ast.IfExp):
        return pure(e.test) and pure(e.body) and pure(e.orelse)
    if isinstance(e, ast.Subscript):
        return pure(e.value) and pure(e.slice)
    if isinstance(e, (ast.Tuple, ast.List)):
        return all(pure(x) for x in e.elts)
    if isinstance(e, ast.Slice):
        return all(x is None or pure(x) for x in (e.lower, e.upper, e.step))
    if isinstance(e, ast.Call):
        f = e.func
        ok = (isinstance(f, ast.Name) and f.id in PURE_CALLS) or \
             (isinstance(f, ast.Attribute) and f.attr in PURE_CALLS and pure(f.value))
        return ok and not e.keywords and all(pure(a) for a in e.args)
    return False


def simple_body(stmts, names):
    for s in stmts:
        if isinstance(s, ast.Pass):
            continue
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
            continue
        if isinstance(s, ast.Assign):
            if len(s.targets) != 1 or not pure(s.value):
                return False
            t = s.targets[0]
            if isinstance(t, ast.Name):
                names.add(t.id)
            elif isinstance(t, ast.Tuple) and all(isinstance(x, ast.Name) for x in t.elts) and \
                    isinstance(s.value, ast.Tuple):
                names.update(x.id for x in t.elts)
            else:
                return False
            continue
        if isinstance(s, ast.AugAssign):
            if not isinstance(s.target, ast.Name) or not pure(s.value):
                return False
            names.add(s.target.id)
            continue
        if isinstance(s, ast.If):
            if not pure(s.test) or not simple_body(s.body, names) or not simple_body(s.orelse, names):
                return False
            continue
        return False
    return True


def N(id, ctx=None):
    return ast.Name(id=id, ctx=ctx or ast.Load())


def A(attr):
    return ast.Attribute(value=N('__vsx__'), attr=attr, ctx=ast.Load())


def lam(e):
    return ast.Lambda(args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]), body=e)


class Rewriter(ast.NodeTransformer):
    def __init__(self, rebound):
        self.rebound = rebound
        self.fn = []
        self.n = 0

    def visit_FunctionDef(self, node):
        self.fn.append(node)
        self._globals = [g for s in ast.walk(node) if isinstance(s, (ast.Global, ast.Nonlocal)) for g in s.names]
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.args = self.visit(node.args)
        node.body = self._stmts(node.body)
        self.fn.pop()
        return node

    def visit_ClassDef(self, node):
        self.fn.append(None)
        self.generic_visit(node)
        self.fn.pop()
        return node

    def visit_Lambda(self, node):
        self.generic_visit(node)
        return node

    def _stmts(self, stmts):
        out = []
        for s in stmts:
            r = self.visit(s)
            if isinstance(r, list):
                out += r
            elif r is not None:
                out.append(r)
        return out

    def visit_If(self, node):
        names = set()
        can = bool(self.fn) and self.fn[-1] is not None and \
            simple_body(node.body, names) and simple_body(node.orelse, names) and names and \
            not (names & set(self._globals))
        node.test = self.visit(node.test)
        node.body = self._stmts(node.body)
        node.orelse = self._stmts(node.orelse)
        if not can:
            return node
        self.n += 1
        k = self.n
        names = sorted(names)
        t = '__vsx_t%d' % k
        mk_args = lambda: ast.arguments(posonlyargs=[], args=[ast.arg(arg=n) for n in names], kwonlyargs=[], kw_defaults=[], defaults=[])
        ret = lambda: ast.Return(value=ast.Tuple(elts=[N(n) for n in names], ctx=ast.Load()))
        import copy
        f1 = ast.FunctionDef(name='__vsx_a%d' % k, args=mk_args(), body=copy.deepcopy(node.body) + [ret()], decorator_list=[], type_params=[])
        f2 = ast.FunctionDef(name='__vsx_b%d' % k, args=mk_args(), body=copy.deepcopy(node.orelse) + [ret()], decorator_list=[], type_params=[])
        merge = ast.Assign(
            targets=[ast.Tuple(elts=[N(n, ast.Store()) for n in names], ctx=ast.Store())],
            value=ast.Call(func=A('merge'), args=[
                N(t), N('__vsx_a%d' % k), N('__vsx_b%d' % k),
                ast.Tuple(elts=[ast.Constant(value=n) for n in names], ctx=ast.Load()),
                ast.Call(func=N('locals'), args=[], keywords=[])], keywords=[]))
        asg = ast.Assign(targets=[N(t, ast.Store())], value=node.test)
        inner = ast.If(test=N(t), body=node.body, orelse=node.orelse)
        outer = ast.If(test=ast.Call(func=A('mergeable'), args=[N(t)], keywords=[]),
                       body=[f1, f2, merge], orelse=[inner])
        res = [asg, outer]
        for r in res:
            ast.copy_location(r, node)
            ast.fix_missing_locations(r)
        return res

    def visit_IfExp(self, node):
        p = pure(node.body) and pure(node.orelse)
        self.generic_visit(node)
        if not p or self._bad(node):
            return node
        return self._loc(ast.Call(func=A('ifexp'), args=[node.test, lam(node.body), lam(node.orelse)], keywords=[]), node)

    def _bad(self, node):
        # lambdas cannot see class scope / contain yields or walrus
        if self.fn and self.fn[-1] is None:
            return True
        return any(isinstance(n, (ast.NamedExpr, ast.Yield, ast.YieldFrom, ast.Await)) for n in ast.walk(node))

    def visit_BoolOp(self, node):
        p = all(pure(v) for v in node.values[1:])
        self.generic_visit(node)
        if self._bad(node):
            return node
        return self._loc(ast.Call(func=A('and_' if isinstance(node.op, ast.And) else 'or_'),
                                  args=[ast.Constant(value=p)] + [lam(v) for v in node.values], keywords=[]), node)

    def visit_UnaryOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Not):
            return self._loc(ast.Call(func=A('not_'), args=[node.operand], keywords=[]), node)
        return node

    def visit_Compare(self, node):
        if len(node.ops) > 1 and all(pure(c) for c in node.comparators[:-1]):
            parts = []
            left = node.left
            for op, r in zip(node.ops, node.comparators):
                parts.append(ast.Compare(left=left, ops=[op], comparators=[r]))
                left = r
            b = ast.BoolOp(op=ast.And(), values=parts)
            self._loc(b, node)
            return self.visit_BoolOp(b)
        self.generic_visit(node)
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id in ('int', 'float', 'bool') and \
                node.func.id not in self.rebound:
            node.func = self._loc(A(node.func.id + '_'), node.func)
        return node

    def _loc(self, new, old):
        ast.copy_location(new, old)
        ast.fix_missing_locations(new)
        return new


def transform(src, filename):
    tree = ast.parse(src, filename)
    rebound = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            rebound.add(n.id)
        elif isinstance(n, ast.arg):
            rebound.add(n.arg)
        elif isinstance(n, ast.alias):
            rebound.add((n.asname or n.name).split('.')[0])
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            rebound.add(n.name)
    rw = Rewriter(rebound)
    tree.body = rw._stmts(tree.body)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, 'exec')


class _Undef(object):
    def __repr__(self):
        return '<unbound>'


UNDEF = _Undef()


class Runtime(object):
    """helpers the rewritten code calls (module global __vsx__)"""

    @staticmethod
    def mergeable(t):
        return (type(t) is SBool or type(t) is Sym) and T.ENGINE is not None and T.ENGINE.merge_on

    @staticmethod
    def merge(t, fa, fb, names, loc):
        e = T.ENGINE
        init = [loc.get(n, UNDEF) for n in names]
        if type(t) is Sym:
            t = T.ne(t, 0)
            if type(t) is not SBool:
                return fa(*init) if t else fb(*init)
        if t.id in e.pcset:
            return fa(*init)
        try:
            e.spec_depth += 1
            try:
                ra = fa(*init)
                rb = fb(*init)
                out = tuple(_merge_val(t, x, y) for x, y in zip(ra, rb))
            finally:
                e.spec_depth -= 1
            e.stats['merges'] += 1
            return out
        except T.SpecAbort:
            if e.spec_depth:
                raise
        except (Exception, T.Unsupported):
            if e.spec_depth:
                raise T.SpecAbort()
        if e.decide(t):
            return fa(*init)
        return fb(*init)

    @staticmethod
    def ifexp(c, fa, fb):
        if type(c) is Sym:
            c = T.ne(c, 0)
        if type(c) is SBool:
            e = T.ENGINE
            if e.merge_on and c.id not in e.pcset:
                try:
                    e.spec_depth += 1
                    try:
                        return _merge_val(c, fa(), fb())
                    finally:
                        e.spec_depth -= 1
                except T.SpecAbort:
                    if e.spec_depth:
                        raise
                except (Exception, T.Unsupported):
                    if e.spec_depth:
                        raise T.SpecAbort()
        return fa() if c else fb()

    @staticmethod
    def _bool(p, isand, ths):
        v = ths[0]()
        for th in ths[1:]:
            if is_sym(v):
                if p:
                    e = T.ENGINE
                    try:
                        e.spec_depth += 1
                        try:
                            w = th()
                        finally:
                            e.spec_depth -= 1
                        if is_sym(w) or isinstance(w, (builtins.bool,)) or T.isboolish(w):
                            v = (T.s_and if isand else T.s_or)(v, w)
                            continue
                    except T.SpecAbort:
                        if e.spec_depth:
                            raise
                    except (Exception, T.Unsupported):
                        if e.spec_depth:
                            raise T.SpecAbort()
                b = bool(v)
                if b != isand:
                    return b
                v = th()
            else:
                if bool(v) != isand:
                    return v
                v = th()
        return v

    @staticmethod
    def and_(p, *ths):
        return Runtime._bool(p, True, ths)

    @staticmethod
    def or_(p, *ths):
        return Runtime._bool(p, False, ths)

    @staticmethod
    def not_(x):
        if type(x) is SBool:
            return T.s_not(x)
        if type(x) is Sym:
            return T.eq(x, 0)
        return not x

    @staticmethod
    def int_(*a):
        if len(a) == 1:
            x = a[0]
            if hasattr(x, 'd') and hasattr(x, 'dt') and x.size == 1:
                x = next(iter(x.d.flat))
            if type(x) is SBool:
                return T.b2i(x)
            if type(x) is Sym:
                return T.strunc(x)
        return int(*a)

    @staticmethod
    def float_(*a):
        if len(a) == 1:
            x = a[0]
            if hasattr(x, 'd') and hasattr(x, 'dt') and x.size == 1:
                x = next(iter(x.d.flat))
            if is_sym(x):
                return T.cast(x, 'f8')
        return float(*a)

    @staticmethod
    def bool_(*a):
        if len(a) == 1 and type(a[0]) is SBool:
            return a[0]
        return bool(*a)


def _merge_val(c, x, y):
    if x is y:
        return x
    if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
        return tuple(_merge_val(c, p, q) for p, q in zip(x, y))
    if x is UNDEF or y is UNDEF:
        raise T.SpecAbort()
    if T._num(x) and T._num(y):
        if T._inf(x) or T._inf(y):
            raise T.SpecAbort()
        return T.ite(c, x, y)
    if type(x) is type(y) and isinstance(x, str) and x == y:
        return x
    raise T.SpecAbort()


# builtins replaced in the code under test

def b_min(*a, **k):
    if k or not a:
        return builtins.min(*a, **k)
    xs = list(a[0]) if len(a) == 1 else list(a)
    if not builtins.any(is_sym(x) for x in xs):
        return builtins.min(xs)
    r = xs[0]
    for x in xs[1:]:
        r = T.smin(r, x)
    return r


def b_max(*a, **k):
    if k or not a:
        return builtins.max(*a, **k)
    xs = list(a[0]) if len(a) == 1 else list(a)
    if not builtins.any(is_sym(x) for x in xs):
        return builtins.max(xs)
    r = xs[0]
    for x in xs[1:]:
        r = T.smax(r, x)
    return r


def b_any(it):
    xs = []
    for x in it:
        if is_sym(x):
            xs.append(x)
        elif x:
            return True
    return T.s_or(*xs) if xs else False


def b_all(it):
    xs = []
    for x in it:
        if is_sym(x):
            xs.append(x)
        elif not x:
            return False
    return T.s_and(*xs) if xs else True


def b_isinstance(x, c):
    if is_sym(x):
        cs = c if isinstance(c, tuple) else (c,)
        flat = []
        for y in cs:
            flat += list(y) if isinstance(y, tuple) else [y]
        for y in flat:
            if type(x) is SBool:
                if y is builtins.bool or y is builtins.int and False:
                    return True
            elif x.k == 'i' and y is builtins.int:
                return True
            elif x.k == 'f' and y is builtins.float:
                return True
            if getattr(y, '_real', None) is not None and builtins.isinstance(x, y):
                return True
            if y is object:
                return True
        return False
    return builtins.isinstance(x, c)
