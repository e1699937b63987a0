"""Loads the real sources of a package for symbolic execution.

What is executed is the text of the file. The mechanical changes are: a float literal becomes the decimal number that
was written, '/' and '**' between numbers are exact, a for-loop announces its iterations and the names it carries from
one iteration to the next (so that a loop over a symbolic range is executed once for an arbitrary iteration), numpy,
scipy and a few builtins are the ones of npshim, numba.jit is the identity, and print does nothing. Nothing else is
dropped: docstrings, asserts, branches and exceptions stay."""
import ast
import builtins
import os
import types
from fractions import Fraction

from . import eng, npshim
from .eng import LoopRT, Arr, SInt, SBool, Poison
from .ints import OutOfReach


def _lit(s):
    return Fraction(s)


def _isnum(x):
    return isinstance(x, (int, Fraction)) and not isinstance(x, bool)


def _div(a, b):
    if _isnum(a) and _isnum(b):
        if b == 0:
            raise ZeroDivisionError('division by zero')
        r = Fraction(a) / Fraction(b)
        return r
    return a / b


def _pow(a, b):
    if _isnum(a) and _isnum(b):
        if Fraction(b).denominator == 1:
            r = Fraction(a) ** int(b)
            return int(r) if isinstance(a, int) and r.denominator == 1 and b >= 0 else r
        return eng.op_arr('**', eng.as_arr(a), eng.as_arr(b))
    return a ** b


class _Names(ast.NodeVisitor):
    """events of a block: which names are read before they are certainly set, and how they are set"""

    def __init__(self):
        self.carried, self.stored, self.rebound = set(), set(), set()

    def block(self, body, defd):
        for s in body:
            defd = self.stmt(s, defd)
        return defd

    def reads(self, e, defd):
        if e is None:
            return
        for n in ast.walk(e):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id not in defd:
                self.carried.add(n.id)

    def sets(self, t, defd):
        new = set()
        for n in ast.walk(t):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                new.add(n.id)
                self.stored.add(n.id)
                self.rebound.add(n.id)
        self.reads(t, defd)
        return new

    def stmt(self, s, defd):
        if isinstance(s, ast.Assign):
            self.reads(s.value, defd)
            new = set()
            for t in s.targets:
                new |= self.sets(t, defd)
            return defd | new
        if isinstance(s, ast.AnnAssign):
            self.reads(s.value, defd)
            return defd | (self.sets(s.target, defd) if s.value else set())
        if isinstance(s, ast.AugAssign):
            self.reads(s.value, defd)
            if isinstance(s.target, ast.Name):
                if s.target.id not in defd:
                    self.carried.add(s.target.id)
                self.stored.add(s.target.id)
            else:
                self.reads(s.target, defd)
            return defd
        if isinstance(s, ast.If):
            self.reads(s.test, defd)
            a = self.block(s.body, set(defd))
            b = self.block(s.orelse, set(defd))
            ja = _jumps(s.body)
            jb = _jumps(s.orelse)
            return b if ja else (a if jb else a & b)
        if isinstance(s, ast.For):
            self.reads(s.iter, defd)
            t = self.sets(s.target, defd)
            self.block(s.body, defd | t)
            self.block(s.orelse, set(defd))
            return defd
        if isinstance(s, ast.While):
            self.reads(s.test, defd)
            self.block(s.body, set(defd))
            return defd
        if isinstance(s, ast.With):
            for i in s.items:
                self.reads(i.context_expr, defd)
                if i.optional_vars is not None:
                    defd = defd | self.sets(i.optional_vars, defd)
            return self.block(s.body, defd)
        if isinstance(s, ast.Try):
            self.block(s.body, set(defd))
            for h in s.handlers:
                self.block(h.body, set(defd))
            self.block(s.orelse, set(defd))
            return self.block(s.finalbody, set(defd))
        for n in ast.iter_child_nodes(s):
            if isinstance(n, ast.expr):
                self.reads(n, defd)
        return defd


def _jumps(body):
    return bool(body) and isinstance(body[-1], (ast.Continue, ast.Break, ast.Return, ast.Raise))


class Tr(ast.NodeTransformer):
    def __init__(self):
        self.n = 0
        self.stack = []

    def _name(self, s, ctx=None):
        return ast.Name(id=s, ctx=ctx or ast.Load())

    def _call(self, f, *a):
        return ast.Call(func=f, args=list(a), keywords=[])

    def _meth(self, k, m, *a):
        return self._call(ast.Attribute(value=self._name(k), attr=m, ctx=ast.Load()), *a)

    def visit_Constant(self, n):
        if isinstance(n.value, float):
            return ast.copy_location(self._call(self._name('__lit__'), ast.Constant(repr(n.value))), n)
        return n

    def visit_JoinedStr(self, n):
        return n          # messages

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, (ast.Div, ast.Pow)):
            return ast.copy_location(self._call(self._name('__div__' if isinstance(n.op, ast.Div) else '__pow__'), n.left, n.right), n)
        return n

    def visit_AugAssign(self, n):
        self.generic_visit(n)
        if isinstance(n.op, (ast.Div, ast.Pow)) and isinstance(n.target, ast.Name):
            f = '__idiv__' if isinstance(n.op, ast.Div) else '__ipow__'
            return ast.copy_location(ast.Assign(targets=[n.target], value=self._call(
                self._name(f), self._name(n.target.id), n.value)), n)
        return n

    def visit_FunctionDef(self, n):
        old, self.stack = self.stack, []
        self.generic_visit(n)
        self.stack = old
        return n
    visit_Lambda = visit_FunctionDef

    def visit_Return(self, n):
        self.generic_visit(n)
        pre = [ast.Expr(self._meth(k, 'jump')) for k, _, _ in self.stack if k]
        return pre + [n]

    def visit_Break(self, n):
        k = self.stack[-1][0] if self.stack else None
        return [ast.Expr(self._meth(k, 'jump')), n] if k else n

    def visit_Continue(self, n):
        if self.stack and self.stack[-1][0]:
            return self._backs(self.stack[-1]) + [n]
        return n

    def _backs(self, fr):
        k, car, _ = fr
        return [ast.Assign(targets=[self._name(c, ast.Store())], value=self._meth(k, 'back', ast.Constant(c), self._name(c)))
                for c in car]

    def _comp(self, n):
        self.generic_visit(n)
        g = n.generators
        if len(g) != 1 or g[0].ifs or g[0].is_async:
            return n
        t = g[0].target
        ns = [t] if isinstance(t, ast.Name) else (t.elts if isinstance(t, ast.Tuple) else [None])
        if any(not isinstance(x, ast.Name) for x in ns) or len({x.id for x in ns}) != len(ns):
            return n
        f = ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=x.id) for x in ns], kwonlyargs=[], kw_defaults=[], defaults=[]),
                       body=n.elt)
        return ast.copy_location(self._call(self._name('__comp__'), g[0].iter, f, ast.Constant(isinstance(t, ast.Tuple)),
                                            ast.Constant(isinstance(n, ast.GeneratorExp))), n)
    visit_ListComp = visit_GeneratorExp = _comp

    def visit_Try(self, n):
        self.generic_visit(n)
        # what the verifier raises passes through the handlers of the code
        n.handlers.insert(0, ast.ExceptHandler(type=self._name('__engine_exc__'), name=None, body=[ast.Raise(exc=None, cause=None)]))
        return n

    def visit_While(self, n):
        self.stack.append((None, [], []))
        self.generic_visit(n)
        self.stack.pop()
        return n

    def visit_For(self, n):
        nm = _Names()
        tg = {x.id for x in ast.walk(n.target) if isinstance(x, ast.Name)}
        nm.block(n.body, set(tg))
        car = sorted((nm.stored & nm.carried) - tg)
        tmp = sorted((nm.stored - nm.carried) | tg)
        self.n += 1
        k = f'__k{self.n}__'
        it = self.visit(n.iter)
        fr = (k, car, tmp)
        self.stack.append(fr)
        body = []
        for s in n.body:
            r = self.visit(s)
            body += r if isinstance(r, list) else [r]
        body += self._backs(fr)
        self.stack.pop()
        orelse = []
        for s in n.orelse:
            r = self.visit(s)
            orelse += r if isinstance(r, list) else [r]
        out = [ast.Assign(targets=[self._name(k, ast.Store())], value=self._call(self._name('__rt_loop__'), it))]

        def guarded(c, m, *a):
            return ast.Try(body=[ast.Assign(targets=[self._name(c, ast.Store())],
                                            value=self._meth(k, m, ast.Constant(c), self._name(c), *a))],
                           handlers=[ast.ExceptHandler(type=self._name('NameError'), name=None, body=[ast.Pass()])],
                           orelse=[], finalbody=[])
        for c in car:
            out.append(guarded(c, 'carry', ast.Constant('rebind' if c in nm.rebound else 'aug')))
        inner = ast.With(items=[ast.withitem(context_expr=ast.Attribute(value=self._name(k), attr='body', ctx=ast.Load()),
                                             optional_vars=None)], body=body)
        out.append(ast.For(target=n.target, iter=self._name(k), body=[inner], orelse=orelse))
        for c in car:
            out.append(guarded(c, 'after'))
        for c in tmp:
            out.append(guarded(c, 'leak'))
        for s in out:
            ast.copy_location(s, n)
        return out


def _sint(x=0):
    if isinstance(x, SInt):
        return x
    if isinstance(x, SBool):
        return Arr((), lambda i, e: eng.subst_b(x, e).term(), 'f')
    if isinstance(x, Arr):
        if x.dtype == 'i' and not x.shape_:
            return eng.si(x.fn((), {}))
        if x.frac is not None:
            # quotient of integers, both positive: rounded down
            a, b = x.frac
            qr = eng.pc().radix(a, b)
            if qr is None:
                raise eng.NeedRadix(eng.pc().norm(a), eng.pc().norm(b))
            return eng.si(qr[0])
        raise OutOfReach('int of a symbolic value')
    return int(x)


def _sfloat(x=0):
    if isinstance(x, (SInt, SBool, Arr)):
        return eng.as_arr(x)
    if isinstance(x, Fraction) or isinstance(x, int):
        return Fraction(x)
    return float(x)


def _slen(x):
    if isinstance(x, Arr):
        return eng.si(eng.pc().norm(x.shape_[0]))
    if isinstance(x, eng.SRange):
        return eng.si(x.hi - x.lo)
    return len(x)


def _sisinstance(x, c):
    cs = c if isinstance(c, tuple) else (c,)
    for k in cs:
        if k is int and isinstance(x, SInt):
            return True
        if k is float or k is _sfloat:
            if isinstance(x, Fraction) or (isinstance(x, Arr) and not x.shape_ and x.dtype == 'f'):
                return True
            k = float
        if k is _sint:
            if isinstance(x, SInt):
                return True
            k = int
        if isinstance(x, k):
            return True
    return False


def _senumerate(x, start=0):
    if isinstance(x, eng.SRange):
        return eng.SEnum(x, eng.SRange(eng.ip(0), x.hi - x.lo))
    if isinstance(x, Arr) and eng.pc().norm(x.shape_[0]).const() is None:
        return eng.SEnum(x, eng.SRange(eng.ip(0), x.shape_[0]))
    return enumerate(x, start)


def _fold(kind, a, k):
    if len(a) == 1 and isinstance(a[0], Arr):
        return (npshim.np_max if kind == 'max' else npshim.np_min)(eng.as_arr(a[0]))
    xs = list(a[0]) if len(a) == 1 and isinstance(a[0], (tuple, list)) else list(a)
    if k or not xs or not any(isinstance(x, (Arr, SInt)) for x in xs):
        return (max if kind == 'max' else min)(*a, **k)
    r = xs[0]
    for x in xs[1:]:
        if not isinstance(r, Arr) and not isinstance(x, Arr):
            if (x > r) if kind == 'max' else (x < r):
                r = x
        elif not npshim.isnan1(r) and not npshim.isnan1(x):       # a comparison with nan is false
            r = (npshim.maximum if kind == 'max' else npshim.minimum)(r, x)
    return r


def _smax(*a, **k):
    return _fold('max', a, k)


def _smin(*a, **k):
    return _fold('min', a, k)


def _ssum(x, *a):
    if isinstance(x, Arr):
        r = npshim.np_sum(eng.as_arr(x), axis=0)
        return r + a[0] if a else r
    return sum(x, *a)


def _idiv(a, b):
    if isinstance(a, Arr):
        return a.__itruediv__(b)
    return _div(a, b)


def _ipow(a, b):
    if isinstance(a, Arr):
        return a.__ipow__(b)
    return _pow(a, b)


def _sround(*a):
    raise OutOfReach('round')


class Shadow:
    """the package, loaded for symbolic execution"""

    def __init__(self, repo, pkg='gpgradpy'):
        self.repo, self.pkg = repo, pkg
        self.mods = {}
        self.sources = {}
        b = dict(vars(builtins))
        b.update(int=_sint, float=_sfloat, len=_slen, isinstance=_sisinstance, enumerate=_senumerate, max=_smax, min=_smin,
                 sum=_ssum, range=eng.rng, abs=lambda x: abs(x), print=lambda *a, **k: None, round=_sround,
                 __import__=self._import, __lit__=_lit, __div__=_div, __pow__=_pow, __idiv__=_idiv, __ipow__=_ipow, __rt_loop__=LoopRT, __comp__=eng.comp, zip=eng.zipped,
                 __engine_exc__=(OutOfReach, eng.NeedSplit, eng.NeedRadix, eng._Dead, RecursionError, MemoryError, eng.Timeout_))
        self.builtins = b

    def _path(self, name):
        p = os.path.join(self.repo, *name.split('.'))
        if os.path.isdir(p):
            return os.path.join(p, '__init__.py'), True
        return p + '.py', False

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        path, ispkg = self._path(name)
        if not os.path.exists(path):
            if ispkg:
                src = ''
            else:
                raise ModuleNotFoundError(name)
        else:
            src = open(path).read()
        self.sources[path] = src
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name if ispkg else name.rpartition('.')[0]
        if ispkg:
            m.__path__ = [os.path.dirname(path)]
        m.__dict__['__builtins__'] = self.builtins
        self.mods[name] = m
        tree = ast.parse(src, path)
        tree = ast.fix_missing_locations(Tr().visit(tree))
        exec(compile(tree, path, 'exec'), m.__dict__)
        parent, _, last = name.rpartition('.')
        if parent and parent in self.mods and not hasattr(self.mods[parent], last):
            setattr(self.mods[parent], last, m)
        return m

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            base = globals['__package__'].split('.')
            base = base[:len(base) - (level - 1)]
            name = '.'.join(base + ([name] if name else []))
        top = name.split('.')[0]
        if top == self.pkg:
            parts = name.split('.')
            for k in range(1, len(parts) + 1):
                self.load('.'.join(parts[:k]))
            m = self.mods[name]
            for f in fromlist or ():
                if not hasattr(m, f) and f != '*':
                    self.load(name + '.' + f)
            return m if fromlist else self.mods[top]
        s = npshim.module(name, fromlist)
        if s is not None:
            return s
        return __import__(name, None, None, fromlist or (), 0)
