"""Symbolic execution of the real functions with arrays of symbolic sizes.

Arrays are functions from indices to terms. Writes into an array are recorded as a chain of versions. A loop over a
symbolic range is executed once with an index symbol for the iteration; the value of a cell after the loop is computed
from the effect of one (arbitrary) iteration on that cell: a cell that is hit at one iteration gets that value, a cell
that every iteration adds to gets the sum over the range (the loop invariant 'after t iterations: initial value + sum
over the first t' is read off the body, and is refused if the effect is not of one of these forms)."""
from fractions import Fraction

from . import ints, terms
from .ints import IP, ip, sym, Cond, NeedSplit, OutOfReach, PC, sel
from .terms import Term, T, S, pc, fresh, CTX, ZERO, ONE


class Timeout_(BaseException):
    """time limit of an obligation (nothing that handles exceptions catches it)"""


class NeedRadix(Exception):
    piece = None

    def __init__(self, t, g):
        self.t, self.g = t, g
        super().__init__(f'{t.key} div {g.key}')


class RealCond:
    """t op 0 for a real term, op in '>', '>=', '=='"""

    def __init__(self, op, t):
        self.op, self.t = op, t

    def __repr__(self):
        return f'{self.t.key[:200]} {self.op} 0'

    def syms(self):
        return self.t.fv


WEAK = set()     # symbols that are not negative, and may be zero


def sure(a):
    """an atom that is positive"""
    return a.pos and a.kind in ('s', 'num', 'exp', 'int') and not (a.kind == 's' and a.name in WEAK)


def _rkey(t):
    if len(t.d) > 1:
        c = abs(Fraction(t.d[min(t.d, key=terms.mkey)]))
        if c != 1:
            t = Term({k: terms._q(v / c) for k, v in t.d.items()})
    k, l = t.key, (-t).key
    return (k, 1) if k <= l else (l, -1)


def _reduce(t):
    """a term with the same sign: without strictly positive factors, and without the root of a single one"""
    if len(t.d) != 1:
        return t
    (m, c), = t.d.items()
    rest = [(a, e) for a, e in m if not (sure(a))]
    if len(rest) == len(m) and not (len(m) == 1 and m[0][0].kind == 'pow'):
        return t
    if len(rest) == 1 and rest[0][0].kind == 'pow' and not isinstance(rest[0][1], Term) and rest[0][1] > 0:
        u = rest[0][0].args[0]
        return u if c > 0 else -u
    if not rest:
        return t
    return Term({tuple(rest): 1 if c > 0 else -1})


SIGNS = {'>': {1}, '>=': {0, 1}, '==': {0}}


def real_signs(t):
    """possible signs of a real term"""
    t = _reduce(t)
    c = t.const()
    if c is not None:
        return {(c > 0) - (c < 0)}
    r = {-1, 0, 1}
    if terms._ispos(t):
        r = {0, 1} if not _strict(t) else {1}
    elif terms._ispos(-t):
        r = {0, -1} if not _strict(-t) else {-1}
    if 0 in r and len(r) == 2 and len(t.d) == 1:
        # roots of positive terms
        (m, c), = t.d.items()
        if all((sure(a)) or (a.kind == 'pow' and real_signs(a.args[0]) == {1}) for a, e in m):
            r = r - {0}
    k, s = _rkey(t)
    f = pc().real.get(k)
    return r if f is None else r & {s * x for x in f}


RTERM = {}      # key of a real condition -> its term


def _strict(t):
    """positive, not only non-negative"""
    return any(all(sure(a) for a, e in m) for m in t.d)


def is_zero(t):
    """is the term zero, with the equations between reals that are known here"""
    t = terms.settle(t)
    if not t.d or terms.is_zero(t):
        return True
    for k, sg in pc().real.items():
        if sg != {0} or k not in RTERM:
            continue
        r = terms.settle(RTERM[k])
        for m, c in r.d.items():
            # solved for one of its factors, where the other ones are not zero
            xs = [x for x, e in m if e == 1 and x.kind in ('s', 'fn', 'num', 'sum') and all(sure(y) or y.kind == 'pow' and real_signs(y.args[0]) == {1} for y, f in m if y is not x)]
            rest = Term({n: v for n, v in r.d.items() if n != m})
            xs = [x for x in xs if any(terms._has(y, x) for n in t.d for y, _ in n) and not any(terms._has(y, x) for n in rest.d for y, _ in n)]
            if not xs:
                continue
            x = xs[0]
            v = rest * terms._q(Fraction(-1) / Fraction(c))
            for y, f in m:
                if y is not x:
                    v = v * terms.mono_term(y, -f)
            t = terms.settle(terms.replace(t, x, v))
            if not t.d or terms.is_zero(t):
                return True
            break
    return False


def decide(c):
    if isinstance(c, RealCond):
        sg = real_signs(c.t)
        ok = SIGNS[c.op]
        if sg <= ok:
            return True
        if not (sg & ok):
            return False
        return None
    return pc().decide(c)


def assume(c, v):
    """add to the current context; False if contradictory"""
    if isinstance(c, RealCond):
        sg = real_signs(c.t)
        n = sg & SIGNS[c.op] if v else sg - SIGNS[c.op]
        t = _reduce(c.t)
        k, s = _rkey(t)
        RTERM[k] = t if s == 1 else -t
        pc().real[k] = {s * x for x in n}
        pc().memo_clear()
        return bool(n) and _settle_extrema()
    return pc().assume(c) if v else pc().assume_neg(c)


def _settle_extrema():
    """facts about the larger of two numbers, restated for the number itself where it is decided"""
    for k in list(pc().real):
        t = RTERM.get(k)
        if t is None:
            continue
        for m in t.d:
            for a, _ in m:
                if a.kind == 'fn' and a.name in ('max', 'min') and len(a.args) == 2:
                    x, y = a.args
                    r = decide(RealCond('>=', x - y))
                    if r is None:
                        continue
                    u = _reduce(terms.replace(t, a, x if r == (a.name == 'max') else y))
                    if len(u.d) == 0:
                        continue
                    k2, s2 = _rkey(u)
                    if k2 == k:
                        continue
                    new = {s2 * q for q in pc().real[k]}
                    old = pc().real.get(k2)
                    both = new if old is None else new & old
                    if both != old:
                        RTERM[k2] = u if s2 == 1 else -u
                        pc().real[k2] = both
                        pc().memo_clear()
                        if not both:
                            return False
    return True


def must(c):
    r = decide(c)
    if r is None:
        if isinstance(c, Cond):
            c = Cond(c.op, pc().norm(c.p))
        raise NeedSplit(c)
    return r


# ---------------------------------------------------------------- engine state
class Loop:
    def __init__(self, b, lo, hi):
        self.b, self.lo, self.hi = b, lo, hi
        self.bufs = {}
        self.path, self.pos = [], 0
        self.guard = []
        self.ic = {}      # integer carries: symbol -> (init, step)
        self.names = {}


class Engine:
    def __init__(self):
        self.loops = []
        self.trace, self.pos = [], 0
        self.frames = []
        self.in_run = False
        self.notes = []
        self.log = []        # what was called or written, in order (contracts of callees may use it)


ENG = Engine()


def test(c):
    """truth of a condition during the execution: decided, or the execution forks"""
    r = decide(c)
    if r is not None:
        return r
    if isinstance(c, Cond):
        c = Cond(c.op, pc().norm(c.p))
    if ENG.loops:
        if isinstance(c, RealCond):
            raise OutOfReach('branch on a real condition in a loop over a symbolic range')
        L = ENG.loops[-1]
        if L.pos < len(L.path):
            v = L.path[L.pos][0]
        else:
            v = True
            L.path.append([v, False])
        L.pos += 1
        L.guard.append((c, v))
        if not assume(c, v):
            raise _Dead()
        return v
    if not ENG.in_run:
        raise NeedSplit(c)
    if ENG.pos < len(ENG.trace):
        v = ENG.trace[ENG.pos][0]
    else:
        v = True
        ENG.trace.append([v, False])
    ENG.pos += 1
    if not assume(c, v) or not (isinstance(c, RealCond) or pc().consistent()):
        raise _Dead()
    return v


def decided(f, bound=()):
    """f(), where the execution forks on conditions that do not depend on the indices `bound`"""
    while True:
        try:
            return f()
        except NeedSplit as e:
            if not ENG.in_run or set(bound) & set(e.cond.syms() if isinstance(e.cond, RealCond) else e.cond.p.syms()):
                raise
            test(e.cond)


class _Dead(Exception):
    """the path is contradictory"""


def paths(f, base=None, limit=400):
    """run f() on all its paths: yields (PC at the end, result, exception)"""
    ENG.trace = []
    base = base or pc()
    n = 0
    while True:
        ENG.pos = 0
        ENG.loops = []
        ENG.frames = []
        ENG.log = []
        ENG.in_run = True
        CTX.append(base.copy())
        res = exc = None
        dead = False
        try:
            try:
                res = f()
            except _Dead:
                dead = True
            except (OutOfReach, NeedSplit, NeedRadix, RecursionError):
                raise
            except Exception as e:
                exc = e
            finally:
                ENG.in_run = False
            q = CTX[-1]
        finally:
            CTX.pop()
        n += 1
        if n > limit:
            raise OutOfReach('too many paths')
        if not dead:
            CTX.append(q)
            try:
                tr = [list(t) for t in ENG.trace]
                yield q, res, exc
                ENG.trace = tr
            finally:
                CTX.pop()
        while ENG.trace and ENG.trace[-1][1]:
            ENG.trace.pop()
        if not ENG.trace:
            return
        ENG.trace[-1] = [not ENG.trace[-1][0], True]


class CtxPush:
    def __init__(self, q):
        self.q = q

    def __enter__(self):
        CTX.append(self.q)
        return self.q

    def __exit__(self, *a):
        CTX.pop()


def cases(f, limit=600):
    """run f() in all cases of the undecided conditions: yields (PC, result)"""
    work = [pc().copy()]
    n = 0
    while work:
        q = work.pop()
        n += 1
        if n > limit:
            raise OutOfReach('too many cases')
        CTX.append(q)
        try:
            try:
                ENG.frames = []
                r = f()
            except NeedSplit as e:
                for v in (True, False):
                    q2 = q.copy()
                    with CtxPush(q2):
                        ok = assume(e.cond, v) and (isinstance(e.cond, RealCond) or q2.consistent())
                    if ok:
                        work.append(q2)
                continue
            yield q, r
        finally:
            CTX.pop()


# ---------------------------------------------------------------- integers
def si(p):
    p = ip(p)
    c = p.const()
    return c if c is not None else SInt(p)


def toip(x):
    if isinstance(x, SInt):
        return x.p
    if isinstance(x, bool):
        return ip(int(x))
    if isinstance(x, int):
        return ip(x)
    if isinstance(x, IP):
        return x
    if isinstance(x, SBool) or isinstance(x, float):
        return None
    if isinstance(x, Arr) and x.dtype == 'i' and not x.shape_:
        return x.fn((), {})
    if hasattr(x, '__index__') and not isinstance(x, Arr):
        return ip(x.__index__())
    return None


class SInt:
    __slots__ = ('p',)

    def __init__(self, p):
        self.p = p

    def __repr__(self):
        return f'<{pc().norm(self.p).key}>'

    def __hash__(self):
        return hash(self.p)

    def _bin(self, o, op, rop=False):
        q = toip(o)
        if q is None:
            if isinstance(o, (list, tuple)) and not isinstance(o, str):
                if op == '*' and len(o) == 1 and isinstance(o, list):
                    x = as_arr(o[0])
                    f = x.fn
                    return LArr((self.p,) + x.shape_, lambda i, e: f(i[1:], e), x.dtype)
                raise OutOfReach('a list repeated')
            a, b = as_arr(self), as_arr(o) if not isinstance(o, (str, type(None))) else None
            if b is None:
                return NotImplemented
            return op_arr(op, b, a) if rop else op_arr(op, a, b)
        a, b = (q, self.p) if rop else (self.p, q)
        if op == '+':
            return si(a + b)
        if op == '-':
            return si(a - b)
        if op == '*':
            return si(a * b)
        if op == '/':
            r = op_arr('/', as_arr(si(a)), as_arr(si(b)))
            r.frac = (a, b)
            return r
        if op == '//':
            qr = pc().radix(a, b)
            if qr is None:
                raise NeedRadix(pc().norm(a), pc().norm(b))
            return si(qr[0])
        if op == '%':
            qr = pc().radix(a, b)
            if qr is None:
                raise NeedRadix(pc().norm(a), pc().norm(b))
            return si(qr[1])
        if op == '**':
            c = b.const()
            if c is not None and 0 <= c <= 4:
                r = ip(1)
                for _ in range(c):
                    r = r * a
                return si(r)
            return op_arr('**', as_arr(si(a)), as_arr(si(b)))
        raise OutOfReach(op)

    def __add__(self, o): return self._bin(o, '+')
    def __radd__(self, o): return self._bin(o, '+', True)
    def __sub__(self, o): return self._bin(o, '-')
    def __rsub__(self, o): return self._bin(o, '-', True)
    def __mul__(self, o): return self._bin(o, '*')
    def __rmul__(self, o): return self._bin(o, '*', True)
    def __truediv__(self, o): return self._bin(o, '/')
    def __rtruediv__(self, o): return self._bin(o, '/', True)
    def __floordiv__(self, o): return self._bin(o, '//')
    def __rfloordiv__(self, o): return self._bin(o, '//', True)
    def __mod__(self, o): return self._bin(o, '%')
    def __pow__(self, o): return self._bin(o, '**')
    def __rpow__(self, o): return self._bin(o, '**', True)
    def __neg__(self): return si(-self.p)
    def __pos__(self): return self

    def _cmp(self, o, op):
        q = toip(o)
        if q is None:
            if isinstance(o, (Arr, float)):
                return cmp_arr(op, as_arr(self), as_arr(o))
            return NotImplemented
        d = self.p - q
        return mkbool({'==': ('==', d, True), '!=': ('==', d, False), '>=': ('>=', d, True), '<': ('>=', d, False),
                       '>': ('>=', d - 1, True), '<=': ('>=', -d, True)}[op])

    def __eq__(self, o): return self._cmp(o, '==')
    def __ne__(self, o): return self._cmp(o, '!=')
    def __ge__(self, o): return self._cmp(o, '>=')
    def __gt__(self, o): return self._cmp(o, '>')
    def __le__(self, o): return self._cmp(o, '<=')
    def __lt__(self, o): return self._cmp(o, '<')

    def __bool__(self):
        return not test(Cond('==', self.p))

    def __index__(self):
        c = pc().norm(self.p).const()
        if c is None:
            raise OutOfReach('a symbolic integer where a number is needed')
        return c

    def __format__(self, spec):
        return repr(self)

    ndim = 0
    shape = ()
    size = 1


def mkbool(t):
    op, p, v = t
    c = p.const()
    if c is not None:
        return ((c == 0) if op == '==' else (c >= 0)) == v
    return SBool(Cond(op, p), v)


class SBool:
    __slots__ = ('c', 'v')

    def __init__(self, c, v=True):
        self.c, self.v = c, v

    def __bool__(self):
        return test(self.c) == self.v

    def __invert__(self):
        return SBool(self.c, not self.v)

    def __and__(self, o):
        if o is True:
            return self
        return bool(self) and bool(o)
    __rand__ = __and__

    def __or__(self, o):
        return bool(self) or bool(o)
    __ror__ = __or__

    def __int__(self):
        return int(bool(self))

    def term(self):
        """1 if true else 0"""
        if isinstance(self.c, Cond) and self.c.op == '==':
            d = terms.delta(self.c.p)
            return d if self.v else ONE - d
        return ONE if must(self.c) == self.v else ZERO

    def __mul__(self, o): return Arr((), lambda i, e: subst_b(self, e).term(), 'f') * o
    __rmul__ = __mul__
    def __add__(self, o): return Arr((), lambda i, e: subst_b(self, e).term(), 'f') + o
    __radd__ = __add__
    def __sub__(self, o): return Arr((), lambda i, e: subst_b(self, e).term(), 'f') - o
    def __rsub__(self, o): return o - Arr((), lambda i, e: subst_b(self, e).term(), 'f')
    def __neg__(self): return -Arr((), lambda i, e: subst_b(self, e).term(), 'f')
    def __eq__(self, o):
        if isinstance(o, (bool, SBool)):
            return bool(self) == bool(o)
        return NotImplemented
    __hash__ = object.__hash__
    ndim = 0


def subst_b(sb, env):
    if isinstance(sb, bool) or not env:
        return sb
    if isinstance(sb.c, Cond):
        return SBool(sb.c.subst(env), sb.v)
    return SBool(RealCond(sb.c.op, terms.subst(sb.c.t, env)), sb.v)


# ---------------------------------------------------------------- sums over symbolic ranges
def explore_range(lo, hi, f):
    """pieces of lo <= b < hi on which f(b) has one form: ('range', start, beta, term, excluded) and ('pt', b, term)"""
    lo, hi = pc().norm(lo), pc().norm(hi)
    n = pc().norm(hi - lo)
    c = n.const()
    if c is not None and c <= 0:
        return []
    if c is not None and c <= 12:
        return [('pt', lo + k, f(lo + k)) for k in range(c)]
    if not must(Cond('>=', n)):
        return []
    out = []
    work = [(ip(0), n)]
    while work:
        s, e = work.pop()
        ln = pc().norm(e - s)
        c = ln.const()
        if c is not None and c <= 4:
            for k in range(c):
                out.append(('pt', lo + s + k, f(lo + s + k)))
            continue
        beta = fresh(ln)
        idx = lo + s + sym(beta)
        E, pts = [], []
        extra = []
        for _ in range(60):
            q = pc().copy()
            with CtxPush(q):
                for x in E:
                    q.assume_ne(idx - x)
                for x in extra:
                    q.assume_ne(x)
                fr = len(ENG.frames)
                cond = None
                try:
                    t = f(idx)
                except NeedSplit as ns:
                    cond = ns.cond
                    del ENG.frames[fr:]
                except NeedRadix as r:
                    del ENG.frames[fr:]
                    r.piece = (lo + s, lo + e) if beta in r.t.syms() else None
                    raise
            if cond is None:
                out.append(('range', lo + s, beta, t, E))
                out += pts
                break
            if isinstance(cond, RealCond):
                if beta in cond.syms():
                    raise OutOfReach('real condition in a sum')
                raise NeedSplit(cond)
            p = cond.p
            if beta not in p.syms():
                raise NeedSplit(cond)
            cr = p.coeff(beta)
            if cr is None or cr[0].const() not in (1, -1) or beta in cr[1].syms():
                raise OutOfReach(f'condition on a summation index: {cond}')
            sg = cr[0].const()
            if cond.op == '==':
                root = cr[1] * (-sg)
                if must(Cond('>=', root)) and must(Cond('>=', ln - 1 - root)):
                    if any(must(Cond('==', lo + s + root - x)) for x in E):
                        extra.append(p)
                        continue
                    E.append(lo + s + root)
                    pts.append(('pt', lo + s + root, f(lo + s + root)))
                else:
                    extra.append(p)
            else:
                cut = -cr[1] if sg == 1 else cr[1] + 1
                if not must(Cond('>=', cut)) or not must(Cond('>=', ln - cut)):
                    raise OutOfReach('range of a summation index')
                work += [(s, s + cut), (s + cut, e)]
                break
        else:
            raise OutOfReach('too many exceptional indices')
    return out


def sum_range(lo, hi, f):
    try:
        ps = explore_range(lo, hi, f)
    except NeedRadix as r:
        if r.piece is None:
            raise
        s, e = r.piece
        if pc().norm(s - lo).d or pc().norm(hi - e).d:
            r.piece = None
            return sum_range(lo, s, f) + sum_range(s, e, f) + sum_range(e, hi, f)
        return _sum_radix(lo, hi, f, r)
    out = ZERO
    for p in ps:
        if p[0] == 'pt':
            out = out + p[2]
        else:
            _, start, beta, t, E = p
            out = out + terms.mk_sum(t, beta)
            for x in E:
                out = out - terms.subst(t, {beta: x - start})
    return out


def _sum_radix(lo, hi, f, r):
    g = r.g
    n = pc().norm(hi - lo)
    m = None
    s = g.as_symbol()
    if s is not None:
        cr = n.coeff(s)
        if cr is not None and not cr[1].d:
            m = cr[0]
    if m is None:
        raise r
    return sum_range(ip(0), m, lambda q: sum_range(ip(0), g, lambda k: f(lo + q * g + k)))


# ---------------------------------------------------------------- versions of an array
class Node:
    __slots__ = ()


class Init(Node):
    __slots__ = ('fn',)

    def __init__(self, fn):
        self.fn = fn


class Write(Node):
    __slots__ = ('prev', 'guard', 'dims', 'shape', 'val', 'cond')

    def __init__(self, prev, guard, dims, shape, val, cond=None):
        self.prev, self.guard, self.dims, self.shape, self.val, self.cond = prev, guard, dims, shape, val, cond


class IterStart(Node):
    __slots__ = ('loop', 'prev', 'end', 'buf', 'idle')

    def __init__(self, loop, prev, buf):
        self.loop, self.prev, self.buf = loop, prev, buf
        self.end, self.idle = None, False


class LoopEnd(Node):
    __slots__ = ('loop', 'start', 'end', 'prev', 'buf')

    def __init__(self, loop, start, end, prev, buf):
        self.loop, self.start, self.end, self.prev, self.buf = loop, start, end, prev, buf


_bufs = [0]


class Buf:
    def __init__(self, shape, fn, dtype='f', name=None, frozen=False):
        _bufs[0] += 1
        self.id = _bufs[0]
        self.shape, self.dtype = tuple(shape), dtype
        self.depth = len(ENG.loops)
        self.cur = Init(fn)
        self.name = name            # of an input
        self.frozen = frozen
        self.written = False

    def sync(self):
        """version at this point of the execution, inside of the loops being executed"""
        for k in range(self.depth, len(ENG.loops)):
            L = ENG.loops[k]
            if self not in L.bufs:
                st = IterStart(L, self.cur, self)
                L.bufs[self] = st
                self.cur = st
        return self.cur

    def write(self, dims, shape, val, cond=None):
        self.sync()
        self.written = True
        if self.name is not None:
            ENG.log.append(('write', self.name))
        g = [L.guard for L in ENG.loops[self.depth:]]
        self.cur = Write(self.cur, g, dims, shape, val, cond)


def base_index(dims, idx):
    out = []
    for d in dims:
        if d[0] == 'f':
            out.append(d[1])
        elif d[0] == 'a':
            out.append(d[2] + idx[d[1]])
        else:
            out.append(sel(d[2], idx[d[1]]))
    return tuple(out)


def dims_subst(dims, env):
    return [('f', d[1].subst(env)) if d[0] == 'f' else (('a', d[1], d[2].subst(env)) if d[0] == 'a' else d) for d in dims]


_depth = [0]


def rd(node, idx, env):
    """value of the cell idx in a version"""
    idx = tuple(pc().norm(i) for i in idx)
    key = (id(node), tuple(i.key for i in idx), tuple(sorted((k, v.key) for k, v in env.items())))
    r = pc().memo_get(key)
    if r is not None:
        return r[0]
    _depth[0] += 1
    if _depth[0] > 900:
        _depth[0] = 0
        raise OutOfReach('depth')
    try:
        r = _rd(node, idx, env)
    finally:
        _depth[0] = max(0, _depth[0] - 1)
    if not isinstance(r, Term) or not any(s.startswith('~ph') for s in r.fv):
        pc().memo[key] = (r, node)
    return r


def _rd(node, idx, env):
    while True:
        if isinstance(node, Init):
            return node.fn(idx, env)
        if isinstance(node, Write):
            j = _hit(node, idx, env)
            if j is None:
                node = node.prev
                continue
            return node.val(j, env)
        if isinstance(node, IterStart):
            if node.idle:
                node = node.prev
                continue
            L = node.loop
            for fr in reversed(ENG.frames):
                if fr[0] is node:
                    if fr[1] == tuple(i.key for i in idx) and fr[2] == env[L.b].key:
                        return fr[3]
                    break
            if node.end is None:
                raise OutOfReach('value of an unfinished loop')
            b = env.get(L.b)
            if b is None:
                raise OutOfReach('value inside of a loop used outside of it')
            return loop_value(node, node.end, idx, env, L.lo.subst(env), b)
        if isinstance(node, LoopEnd):
            return loop_value(node.start, node.end, idx, env, node.loop.lo.subst(env), node.loop.hi.subst(env))
        raise OutOfReach('version')


def _hit(w, idx, env):
    """index of the value that is written into cell idx, or None"""
    for g in w.guard:
        for c, v in g:
            if must(c.subst(env)) != v:
                return None
    dims = dims_subst(w.dims, env)
    shape = [s.subst(env) for s in w.shape]
    j = [None] * len(shape)
    und = None
    for d, i in zip(dims, idx):
        if d[0] == 'f':
            r = pc().decide(Cond('==', i - d[1]))
            if r is False:
                return None
            if r is None and und is None:
                und = NeedSplit(Cond('==', pc().norm(i - d[1])))
        elif d[0] == 'a':
            t = pc().norm(i - d[2])
            try:
                if not pc().inside(t, shape[d[1]]):
                    return None
            except NeedSplit as e:
                if und is None or (und.cond.op != '==' and e.cond.op == '=='):
                    und = e
            if j[d[1]] is not None:         # several indices that run together
                r = pc().decide(Cond('==', j[d[1]] - t))
                if r is False:
                    return None
                if r is None and (und is None or und.cond.op != '=='):
                    und = NeedSplit(Cond('==', pc().norm(j[d[1]] - t)))
            j[d[1]] = t
        else:
            s = pc().norm(i).as_symbol()
            if s in ints._SEL and ints._SEL[s][0] == d[2]:
                j[d[1]] = ints._SEL[s][1]
            else:
                raise OutOfReach('write through a mask')
    if und is not None:
        raise und
    j = tuple(ip(0) if x is None else x for x in j)
    if w.cond is not None:
        b = w.cond(j, env)
        if not (b if isinstance(b, bool) else must(b.c) == b.v):
            return None
    return j


_ph = [0]


def loop_value(start, end, idx, env, lo, hi):
    L = start.loop
    _ph[0] += 1
    name = f'~ph{_ph[0]}'
    X = S(name, sym(name))
    xa = next(iter(X.d))[0][0]
    ik = tuple(i.key for i in idx)

    def f(b):
        e2 = dict(env)
        e2[L.b] = b
        for cs, (init, step) in L.ic.items():
            e2[cs] = init.subst(env) + (b - L.lo.subst(env)) * step.subst(env)
        ENG.frames.append((start, ik, b.key, X))
        try:
            return rd(end, idx, e2)
        finally:
            if ENG.frames:
                ENG.frames.pop()

    try:
        ps = explore_range(lo, hi, f)
    except NeedRadix:
        raise OutOfReach('loop over a product range')

    def effect(t):
        s, c = ZERO, {}
        sd = {}
        for m, v in t.d.items():
            hit = [(a, e) for a, e in m if a is xa]
            if hit:
                if hit[0][1] != 1:
                    raise OutOfReach('loop with a non-linear effect')
                sd[tuple((a, e) for a, e in m if a is not xa)] = v
            else:
                if name in terms.mfv(m):
                    raise OutOfReach('loop with a non-linear effect')
                c[m] = v
        s = Term(sd)
        if s.d and name in s.fv:
            raise OutOfReach('loop with a non-linear effect')
        return s, Term(c)

    eff = []
    for p in ps:
        s, c = effect(p[2] if p[0] == 'pt' else p[3])
        k = s.const()
        if k not in (0, 1):
            raise OutOfReach('loop with a multiplicative effect')
        eff.append((p, k, c))
    if not any(k == 0 for _, k, _ in eff):
        out = None
        tot = ZERO
        for p, k, c in eff:
            tot = tot + _piece_sum(p, c)
        return rd(start.prev, idx, env) + tot
    # overwritten: by the pieces in order
    pts = [(p, k, c) for p, k, c in eff if p[0] == 'pt']
    rgs = [(p, k, c) for p, k, c in eff if p[0] == 'range']
    live = [(p, k, c) for p, k, c in rgs if k == 0 or c.d]
    zero = [(p, k, c) for p, k, c in pts if k == 0]
    if not any(k == 0 for _, k, _ in rgs):
        # single iterations overwrite; the last of them counts, and what is added afterwards
        last = zero[0]
        for z in zero[1:]:
            if must(Cond('>=', z[0][1] - last[0][1])):
                last = z
        e = last[0][1]
        out = last[2]
        for p, k, c in pts:
            if p is not last[0] and c.d and must(Cond('>=', p[1] - e - 1)):
                out = out + c
        for p, k, c in rgs:
            if c.d:
                _, s0, beta, t, E = p
                n = pc().norm(ints.RANGE[beta])
                # iterations after e
                if must(Cond('>=', s0 - e - 1)):
                    out = out + _piece_sum(p, c)
                elif must(Cond('>=', e - (s0 + n))):
                    pass
                else:
                    lo2 = e + 1
                    out = out + sum_range(lo2, s0 + n, lambda b: terms.subst(c, {beta: b - s0}))
                    for x in E:
                        if must(Cond('>=', x - e - 1)):
                            out = out - terms.subst(c, {beta: x - s0})
        return out
    # every iteration of the last piece overwrites: the last iteration counts
    last = None
    for z in eff:
        end_ = z[0][1] + 1 if z[0][0] == 'pt' else z[0][1] + ints.RANGE[z[0][2]]
        if pc().decide(Cond('==', end_ - hi)):
            if z[0][0] == 'range' and any(must(Cond('==', x - (hi - 1))) for x in z[0][4]):
                continue
            last = z
    if last is None or last[1] != 0:
        raise OutOfReach('last iteration of an overwriting loop')
    p, k, c = last
    if p[0] == 'pt':
        return c
    if not must(Cond('>=', ints.RANGE[p[2]] - 1)):
        raise OutOfReach('empty loop')
    return terms.subst(c, {p[2]: hi - 1 - p[1]})


def _piece_sum(p, c):
    if p[0] == 'pt':
        return c
    _, start, beta, t, E = p
    out = terms.mk_sum(c, beta)
    for x in E:
        out = out - terms.subst(c, {beta: x - start})
    return out


# ---------------------------------------------------------------- arrays
class Arr:
    __slots__ = ('shape_', 'dtype', 'fn_', 'buf', 'dims', 'mask', 'affine', 'frac', 'tag', 'depth')
    __array_priority__ = 1000

    def __init__(self, shape, fn, dtype='f', mask=None, affine=None):
        self.shape_ = tuple(ip(s) if not isinstance(s, SInt) else s.p for s in shape)
        self.fn_, self.dtype = fn, dtype
        self.buf = self.dims = None
        self.mask, self.affine, self.frac, self.tag = mask, affine, None, None
        self.depth = len(ENG.loops)

    # -- structure
    @property
    def shape(self):
        return tuple(si(pc().norm(s)) for s in self.shape_)

    @property
    def ndim(self):
        return len(self.shape_)

    @property
    def size(self):
        r = ip(1)
        for s in self.shape_:
            r = r * s
        return si(pc().norm(r))

    def __len__(self):
        c = pc().norm(self.shape_[0]).const()
        if c is None:
            raise OutOfReach('len of a symbolic array')
        return c

    def ensure(self):
        if self.buf is None:
            self.buf = Buf(self.shape_, self.fn_, self.dtype)
            self.buf.depth = self.depth
            self.dims = [('a', k, ip(0)) for k in range(len(self.shape_))]
            self.fn_ = None
        return self

    @property
    def fn(self):
        """the value at this point of the execution, as a function of the indices"""
        if self.buf is None:
            return self.fn_
        node = self.buf.sync() if ENG.loops else self.buf.cur
        if isinstance(node, Init):
            f, dims = node.fn, self.dims
            return lambda idx, env: f(base_index(dims_subst(dims, env), idx), env)
        dims = self.dims
        return lambda idx, env: rd(node, base_index(dims_subst(dims, env), idx), env)

    def view(self, dims, shape):
        a = Arr(shape, None, self.dtype)
        a.buf, a.dims = self.buf, dims
        return a

    # -- indexing
    def _key(self, key):
        """(dims, shape, axis of the view per item) of a basic index or selection; None if not basic"""
        if not isinstance(key, tuple):
            key = (key,)
        n = sum(1 for k in key if k is not None and k is not Ellipsis)
        for k in key:
            if isinstance(k, Arr) and k.dtype == 'b' and k.ndim > 1:
                n += k.ndim - 1
        if n > self.ndim:
            raise IndexError('too many indices for array')
        full = []
        seen = False
        for k in key:
            if k is Ellipsis:
                full += [slice(None)] * (self.ndim - n)
                seen = True
            else:
                full.append(k)
        if not seen:
            full += [slice(None)] * (self.ndim - n)
        out, shape, copy = [], [], False
        ax = 0
        adv = [j for j, k in enumerate(full) if isinstance(k, list) or isinstance(k, Arr) and k.ndim]
        if adv:
            ints_ = [j for j, k in enumerate(full) if not isinstance(k, (slice, list)) and k is not None and not (isinstance(k, Arr) and k.ndim)]
            at = sorted(adv + ints_)
            if at[-1] - at[0] + 1 != len(at) or (len(at) > len(adv) and any(isinstance(full[j], Arr) and full[j].dtype == 'b' for j in adv)):
                raise OutOfReach('indices on both sides of a slice')
            if len(adv) > 1:
                return self._paired(full, adv)
        for k in full:
            if k is None:
                shape.append(ip(1))
                continue
            ln = self.shape_[ax]
            if isinstance(k, (list,)):
                k = as_arr(k)
            if isinstance(k, slice):
                lo, hi = _slice(k, ln)
                out.append(('a', len(shape), lo))
                shape.append(pc().norm(hi - lo))
            elif isinstance(k, Arr) and k.ndim > 0:
                copy = True
                if k.mask is not None:
                    cnt, tot = ints.SIZES[k.mask]
                    _same(tot, ln)
                    out.append(('s', len(shape), k.mask))
                    shape.append(cnt)
                elif k.affine is not None:
                    out.append(('a', len(shape), k.affine))
                    shape.append(k.shape_[0])
                elif k.dtype == 'i' and k.ndim == 1 and k.shape_[0].const() == 1:
                    out.append(('f', _wrap(k.fn((ip(0),), {}), ln)))
                    shape.append(ip(1))
                elif k.dtype == 'i' and k.ndim == 1 and k.shape_[0].const() is not None and k.shape_[0].const() <= 12:
                    out.append(('g', len(shape), [_wrap(k.fn((ip(j),), {}), ln) for j in range(k.shape_[0].const())]))
                    shape.append(k.shape_[0])
                else:
                    raise OutOfReach('fancy index')
            else:
                p = toip(k)
                if p is None:
                    raise OutOfReach(f'index of type {type(k).__name__}')
                out.append(('f', _wrap(p, ln)))
            ax += 1
        return out, shape, copy

    def _paired(self, full, adv):
        """several ranges of indices that run together, and slices before and after them"""
        ks = [full[j] for j in adv]
        if any(not isinstance(k, Arr) or k.affine is None for k in ks) or any(k is None or not isinstance(k, slice) for j, k in enumerate(full) if j not in adv):
            raise OutOfReach('several indices that are arrays')
        for k in ks[1:]:
            _same(k.shape_[0], ks[0].shape_[0])
        out, shape, at = [], [], None
        for j, k in enumerate(full):
            if j in adv:
                if at is None:
                    at = len(shape)
                    shape.append(ks[0].shape_[0])
                out.append(('a', at, k.affine))
            else:
                lo, n = _slice(k, self.shape_[j])
                out.append(('a', len(shape), lo))
                shape.append(n)
        return out, shape, True

    def _compose(self, out):
        if any(o[0] == 'g' for o in out):
            return None
        dims = []
        for d in self.dims:
            if d[0] == 'f':
                dims.append(d)
                continue
            o = out[d[1]]
            if d[0] == 'a':
                if o[0] == 'f':
                    dims.append(('f', d[2] + o[1]))
                elif o[0] == 'a':
                    dims.append(('a', o[1], d[2] + o[2]))
                else:
                    if d[2].d:
                        return None
                    dims.append(o)
            else:
                if o[0] == 'f':
                    dims.append(('f', sel(d[2], o[1])))
                elif o[0] == 'a' and not o[2].d:
                    dims.append(('s', o[1], d[2]))
                else:
                    return None
        return dims

    def _pick(self, key):
        """selection with a short vector of conditions, which are decided (or the execution forks)"""
        ks = key if isinstance(key, tuple) else (key,)
        at = [j for j, k in enumerate(ks) if isinstance(k, Arr) and k.dtype == 'b' and k.mask is None and k.ndim == 1]
        if len(at) != 1 or any(k is None or k is Ellipsis for k in ks):
            return None
        ax = at[0]
        k = ks[ax]
        n = pc().norm(k.shape_[0]).const()
        if n is None or n > 6 or ax >= self.ndim:
            return None
        _shape_eq(k.shape_, (self.shape_[ax],))
        pos = []
        for j in range(n):
            b = decided(lambda: k.fn((ip(j),), {}))
            if isinstance(b, SBool):
                b = test(b.c) == b.v
            if b:
                pos.append(j)
        return ax, pos, ks[:ax] + (slice(None),) + ks[ax + 1:]

    def _take(self, ax, pos):
        f = self.fn

        def g(i, e):
            for j, c in enumerate(pos):
                if j == len(pos) - 1 or must(Cond('==', i[ax] - j)):
                    return f(tuple(i[:ax]) + (ip(c),) + tuple(i[ax + 1:]), e)
            raise IndexError('index of an empty selection')
        return Arr(self.shape_[:ax] + (ip(len(pos)),) + self.shape_[ax + 1:], g, self.dtype)

    def _reversed(self, key):
        """the array read backwards along the axes with the slice ::-1, and the key without them"""
        ks = list(key) if isinstance(key, tuple) else [key]
        back = lambda k: isinstance(k, slice) and k.start is None and k.stop is None and k.step is not None and toip(k.step) is not None \
            and toip(k.step).const() == -1
        if not any(back(k) for k in ks):
            return None
        if Ellipsis in [k for k in ks if not isinstance(k, Arr)]:
            raise OutOfReach('slice with a step')
        axs, ax = [], 0
        for j, k in enumerate(ks):
            if k is None:
                continue
            if back(k):
                axs.append(ax)
                ks[j] = slice(None)
            ax += 1
        f, sh = self.fn, self.shape_
        r = Arr(sh, lambda i, e: f(tuple(sh[j].subst(e) - 1 - x if j in axs else x for j, x in enumerate(i)), e), self.dtype)
        return r, tuple(ks)

    def __getitem__(self, key):
        if isinstance(key, (slice, tuple)):
            r = self._reversed(key)
            if r is not None:
                return r[0][r[1]]
        if isinstance(key, (Arr, tuple)):
            p = self._pick(key)
            if p is not None:
                r = self._take(p[0], p[1])
                return r if not isinstance(key, tuple) else r[p[2]]
        if isinstance(key, Arr) and key.dtype == 'b' and key.mask is None:
            if key.ndim != 1 or self.ndim != 1:
                raise OutOfReach('selection by a condition')
            _shape_eq(key.shape_, self.shape_)
            return CArr(key, _real(self))
        out, shape, copy = self._key(key)
        if not shape and self.dtype == 'i':
            f = self.fn
            idx = tuple(d[1] for d in out)
            return si(f(idx, {})) if not ENG.loops or True else None
        if not shape:
            f = self.fn
            idx = [d[1] for d in out]
            r = Arr((), lambda i, env: f(tuple(x.subst(env) for x in idx), env), self.dtype)
            return r if self.dtype != 'b' else self.fn(tuple(idx), {})
        if not copy:
            self.ensure()
            dims = self._compose(out)
            if dims is not None:
                return self.view(dims, shape)
        f = self.fn

        def g(idx, env):
            o = []
            for d in out:
                if d[0] == 'f':
                    o.append(d[1].subst(env))
                elif d[0] == 'a':
                    o.append(d[2].subst(env) + idx[d[1]])
                elif d[0] == 'g':
                    for j, x in enumerate(d[2]):
                        if j == len(d[2]) - 1 or must(Cond('==', idx[d[1]] - j)):
                            o.append(x.subst(env))
                            break
                else:
                    o.append(sel(d[2], idx[d[1]]))
            return f(tuple(o), env)
        return Arr(shape, g, self.dtype)

    def __setitem__(self, key, v):
        if self.ndim == 0:
            raise OutOfReach('assignment into a scalar')
        if v is None and self.dtype == 'f':
            from . import npshim
            v = npshim.NAN          # numpy stores a missing value
        self.ensure()
        p = self._pick(key) if isinstance(key, Arr) and not isinstance(v, CArr) and (self.ndim > 1 or as_arr(v).ndim) else None
        if p is not None and p[0] == 0:
            v = as_arr(v)
            for j, c in enumerate(p[1]):
                self[c] = v if v.ndim < self.ndim else v[j]
            return
        if isinstance(key, Arr) and key.dtype == 'b' and key.mask is None:
            # conditional assignment of a scalar
            _shape_eq(key.shape_, self.shape_)
            dims = self.dims
            if any(d[0] == 's' for d in dims):
                raise OutOfReach('assignment through a condition')
            if isinstance(v, CArr):
                v.same(CArr(key, None))
                kf, vf = key.fn, v.f
                self.buf.write(dims, self.shape_, vf, lambda idx, env: kf(idx, env))
                return
            v = as_arr(v)
            if v.ndim:
                raise OutOfReach('assignment through a condition')
            kf, vf = key.fn, v.fn
            if self.dtype == 'b':
                v0 = vf
                vf = lambda idx, env: tobool(v0(idx, env))
            self.buf.write(dims, self.shape_, lambda idx, env: vf((), env), lambda idx, env: kf(idx, env))
            return
        out, shape, copy = self._key(key)
        dims = self._compose(out)
        if dims is None:
            raise OutOfReach('assignment target')
        if isinstance(v, Arr) and v.buf is self.buf and v.dims == dims and v.shape_ == tuple(shape):
            return                  # the result of an in-place operation on this very view
        v = as_arr(v)
        vb = broadcast_to(v, tuple(shape), self.dtype == 'b')
        self.buf.write(dims, tuple(shape), vb)

    # -- in-place
    def _iop(self, op, o):
        if self.ndim == 0:
            return op_arr(op, self, as_arr(o))
        self.ensure()
        r = op_arr(op, self, as_arr(o))
        f = broadcast_to(r, self.shape_)
        if len(r.shape_) > len(self.shape_):
            raise ValueError('non-broadcastable output operand')
        self.buf.write(self.dims, self.shape_, f)
        return self

    def __iadd__(self, o): return self._iop('+', o)
    def __isub__(self, o): return self._iop('-', o)
    def __imul__(self, o): return self._iop('*', o)
    def __itruediv__(self, o): return self._iop('/', o)
    def __ipow__(self, o): return self._iop('**', o)

    # -- arithmetic
    def __add__(self, o): return _op('+', self, o)
    def __radd__(self, o): return _op('+', o, self)
    def __sub__(self, o): return _op('-', self, o)
    def __rsub__(self, o): return _op('-', o, self)
    def __mul__(self, o): return NotImplemented if hasattr(o, '__array_arr__') else _op('*', self, o)
    def __rmul__(self, o): return _op('*', o, self)
    def __truediv__(self, o): return _op('/', self, o)
    def __rtruediv__(self, o): return _op('/', o, self)
    def __pow__(self, o): return _op('**', self, o)
    def __rpow__(self, o): return _op('**', o, self)
    def __neg__(self): return _op('-', 0, self)
    def __pos__(self): return self
    def __abs__(self):
        f = self.fn
        return Arr(self.shape_, lambda i, e: terms.fn('abs', f(i, e)))

    def __matmul__(self, o): return NotImplemented if hasattr(o, '__array_arr__') else matmul(self, o)
    def __rmatmul__(self, o): return matmul(o, self)

    def __eq__(self, o): return _cmp('==', self, o)
    def __ne__(self, o): return _cmp('!=', self, o)
    def __ge__(self, o): return _cmp('>=', self, o)
    def __gt__(self, o): return _cmp('>', self, o)
    def __le__(self, o): return _cmp('<=', self, o)
    def __lt__(self, o): return _cmp('<', self, o)
    __hash__ = object.__hash__

    def __invert__(self):
        if self.dtype != 'b':
            raise OutOfReach('~')
        f = self.fn
        return Arr(self.shape_, lambda i, e: _not(f(i, e)), 'b')

    def _logic(self, o, h):
        o = as_arr(o)
        if self.dtype != 'b' or o.dtype != 'b' or self.mask is not None or o.mask is not None:
            raise OutOfReach('& or | of arrays')
        out = bshape(self.shape_, o.shape_)
        f, g, ma, mb = self.fn, o.fn, _bidx(self.shape_, out), _bidx(o.shape_, out)
        r = Arr(out, lambda i, e: h(lambda: f(ma(i), e), lambda: g(mb(i), e)), 'b')
        return r if out else r.fn((), {})

    def __and__(self, o):
        return self._logic(o, _and)

    def __or__(self, o):
        return self._logic(o, lambda a, b: _not(_and(lambda: _not(a()), lambda: _not(b()))))
    __rand__, __ror__ = __and__, __or__

    def __bool__(self):
        if self.ndim:
            if not all(test(Cond('==', n - 1)) for n in self.shape_):
                raise ValueError('The truth value of an array with more than one element is ambiguous')
            return bool(self[(0,) * self.ndim])
        if self.dtype == 'b':
            return bool(self.fn((), {}))
        return not test(RealCond('==', self.fn((), {})))

    def __float__(self):
        raise OutOfReach('float of a symbolic value')

    def __int__(self):
        raise OutOfReach('int of a symbolic value')

    def __index__(self):
        raise OutOfReach('index of a symbolic value')

    def __format__(self, spec):
        return repr(self)

    def __repr__(self):
        return f'<array {[pc().norm(s).key for s in self.shape_]}>'

    def __iter__(self):
        n = len(self)
        for k in range(n):
            yield self[k]

    # -- methods
    @property
    def T(self):
        if self.ndim < 2:
            return self
        self.ensure()
        n = self.ndim
        dims = [d if d[0] == 'f' else (d[0], n - 1 - d[1], d[2]) for d in self.dims]
        return self.view(dims, self.shape_[::-1])

    def copy(self):
        return Arr(self.shape_, self.fn, self.dtype, self.mask, self.affine)

    def astype(self, t):
        return self.copy()

    def reshape(self, *shape, order='C'):
        from . import npshim
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        return npshim.reshape(self, shape, order=order)

    def flatten(self, order='C'):
        from . import npshim
        return npshim.reshape(self, (self.size,), order=order)
    ravel = flatten

    def sum(self, axis=None):
        from . import npshim
        return npshim.np_sum(self, axis=axis)

    def mean(self, axis=None):
        from . import npshim
        return npshim.mean(self, axis=axis)

    def dot(self, o):
        return matmul(self, o)

    def __getattr__(self, name):
        if name in METHODS:
            from . import npshim
            f = getattr(npshim.NUMPY, name)
            return lambda *a, **k: f(self, *a, **k)
        raise AttributeError(name)

    def fill(self, v):
        self[(slice(None),) * self.ndim] = v

    def item(self, *a):
        if a:
            return self[a if len(a) > 1 else a[0]]
        if not all(test(Cond('==', n - 1)) for n in self.shape_):
            raise ValueError('can only convert an array of size 1 to a Python scalar')
        return self[(0,) * self.ndim] if self.ndim else self

    def tolist(self):
        return list(self)

    def transpose(self, *axes):
        from . import npshim
        if len(axes) == 1 and isinstance(axes[0], (tuple, list)):
            axes = axes[0]
        return npshim.transpose(self, axes or None)

    def conj(self):
        return self
    conjugate = conj


METHODS = ('max', 'min', 'argmax', 'argmin', 'any', 'all', 'std', 'var', 'prod', 'trace', 'diagonal', 'squeeze', 'repeat', 'swapaxes', 'clip',
           'round', 'ptp', 'take')


class LArr(Arr):
    """a list of symbolic length whose entries are numbers or arrays of one shape"""
    __slots__ = ()

    def plain(self):
        a = Arr(self.shape_, self.fn, self.dtype)
        return a

    def _bad(self, *a, **k):
        raise OutOfReach('operation on a list')
    __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = __pow__ = __rpow__ = __neg__ = __abs__ = _bad
    __matmul__ = __rmatmul__ = __eq__ = __ne__ = __ge__ = __gt__ = __le__ = __lt__ = __invert__ = __and__ = __or__ = _bad
    __iadd__ = __isub__ = __imul__ = __itruediv__ = __ipow__ = __setitem__ = _bad
    __hash__ = object.__hash__

    def __bool__(self):
        return bool(si(self.shape_[0]) > 0)

    def _more(self, xs):
        from . import npshim
        xs = [as_arr(x) for x in xs]
        if any(x.dtype != self.dtype for x in xs):
            raise OutOfReach('list of different things')
        return npshim.concatenate([self.plain()] + [Arr((1,) + x.shape_, lambda i, e, f=x.fn: f(i[1:], e), x.dtype) for x in xs])

    def append(self, x):
        self.extend([x])

    def extend(self, xs):
        if ENG.loops or self.buf is not None:
            raise OutOfReach('a list that grows')
        a = self._more(list(xs))
        self.shape_, self.fn_ = a.shape_, a.fn

    def __add__(self, xs):
        if not isinstance(xs, list):
            raise OutOfReach('lists')
        a = self._more(xs)
        return LArr(a.shape_, a.fn, a.dtype)

    def __getitem__(self, key):
        if toip(key) is None:
            raise OutOfReach('part of a list')
        return self.plain()[key]


def _and(a, b):
    """both of two conditions"""
    x = a()
    if x is False:
        return False
    if x is True:
        return b()
    try:
        r = must(x.c) == x.v
    except NeedSplit:
        if b() is False:
            return False
        raise
    return b() if r else False


def _not(b):
    return (not b) if isinstance(b, bool) else SBool(b.c, not b.v)


def _wrap(p, ln):
    """an index, negative ones from the end; it must be known to be inside"""
    p = pc().norm(p)
    c = p.const()
    if c is not None and c < 0:
        p = ln + p
    if not test(Cond('>=', p)):
        p = ln + p
        if not test(Cond('>=', p)):
            raise IndexError('index out of bounds')
    if not test(Cond('>=', ln - 1 - p)):
        raise IndexError('index out of bounds')
    return p


def _slice(k, ln):
    if k.step is not None and toip(k.step).const() != 1:
        raise OutOfReach('slice with a step')
    lo = ip(0) if k.start is None else toip(k.start)
    hi = ln if k.stop is None else toip(k.stop)
    if lo is None or hi is None:
        raise OutOfReach('slice bounds')
    lo, hi = pc().norm(lo), pc().norm(hi)
    for _ in range(2):
        if lo.const() is not None and lo.const() < 0:
            lo = ln + lo
        if hi.const() is not None and hi.const() < 0:
            hi = ln + hi
    # clipping of numpy
    if lo.d and not test(Cond('>=', lo)):
        raise OutOfReach('negative slice bound')
    if hi.key != ln.key:
        if not test(Cond('>=', ln - hi)):
            hi = ln
        if hi.d and not test(Cond('>=', hi)):
            raise OutOfReach('negative slice bound')
    if lo.d and not test(Cond('>=', hi - lo)):
        lo = hi
    return lo, hi


def _same(a, b):
    if a.key == b.key:
        return
    if not test(Cond('==', a - b)):
        raise ValueError(f'shapes do not match: {a.key} and {b.key}')


def _shape_eq(s, t):
    if len(s) != len(t):
        raise ValueError('shapes do not match')
    for a, b in zip(s, t):
        _same(a, b)


def as_arr(x):
    if isinstance(x, Arr):
        return x if type(x) is Arr else x.plain()
    if hasattr(x, '__array_arr__'):
        return x.__array_arr__()
    if isinstance(x, (SInt,)):
        p = x.p
        return Arr((), lambda i, e: p.subst(e), 'i')
    if isinstance(x, SBool):
        return Arr((), lambda i, e: subst_b(x, e), 'b')
    if isinstance(x, bool):
        return Arr((), lambda i, e: x, 'b')
    if isinstance(x, int):
        return Arr((), lambda i, e: ip(x), 'i')
    if isinstance(x, float):
        t = T(x)
        return Arr((), lambda i, e: t)
    if isinstance(x, Fraction):
        t = T(x)
        return Arr((), lambda i, e: t)
    if isinstance(x, Term):
        return Arr((), lambda i, e: terms.subst(x, e) if e else x)
    if isinstance(x, (list, tuple)):
        xs = [as_arr(y) for y in x]
        if not xs:
            return Arr((0,), lambda i, e: ZERO)
        for y in xs[1:]:
            _shape_eq(y.shape_, xs[0].shape_)
        fs = [y.fn for y in xs]
        dt = 'i' if all(y.dtype == 'i' for y in xs) else ('b' if all(y.dtype == 'b' for y in xs) else 'f')
        if dt == 'f':
            fs = [_real(y) for y in xs]

        def g(idx, env):
            c = pc().norm(idx[0]).const()
            if c is None:
                for k in range(len(fs) - 1):
                    if must(Cond('==', idx[0] - k)):
                        return fs[k](idx[1:], env)
                return fs[-1](idx[1:], env)
            return fs[c](idx[1:], env)
        return Arr((len(xs),) + xs[0].shape_, g, dt)
    import numpy as np
    if isinstance(x, np.ndarray):
        return as_arr(x.tolist())
    if isinstance(x, np.generic):
        return as_arr(x.item())
    raise OutOfReach(f'{type(x).__name__} as an array')


def _real(a):
    f = a.fn
    if a.dtype == 'f':
        return f
    if a.dtype == 'i':
        return lambda i, e: T(f(i, e))
    return lambda i, e: _bterm(f(i, e))


def _bterm(b):
    return (ONE if b else ZERO) if isinstance(b, bool) else b.term()


def bshape(s, t):
    n = max(len(s), len(t))
    s = (ip(1),) * (n - len(s)) + tuple(s)
    t = (ip(1),) * (n - len(t)) + tuple(t)
    out = []
    for a, b in zip(s, t):
        if a.const() == 1:
            out.append(b)
        elif b.const() == 1 or a.key == b.key:
            out.append(a)
        elif pc().decide(Cond('==', a - b)):
            out.append(a)
        elif test(Cond('==', a - b)):
            out.append(a)
        elif test(Cond('==', a - 1)):
            out.append(b)
        elif test(Cond('==', b - 1)):
            out.append(a)
        else:
            raise ValueError(f'operands could not be broadcast together: {a.key} and {b.key}')
    return tuple(out)


def _bidx(shape, out):
    """how to index an operand of the given shape in a result of shape out"""
    k = len(out) - len(shape)
    m = []
    for j, s in enumerate(shape):
        o = out[k + j]
        m.append(None if (pc().norm(s).const() == 1 and pc().norm(o).const() != 1) else k + j)
    z = ip(0)
    return lambda idx: tuple(z if x is None else idx[x] for x in m)


def tobool(x):
    if isinstance(x, (bool, SBool)):
        return x
    if isinstance(x, IP):
        x = T(x)
    c = x.const()
    if c is not None:
        return c != 0
    raise OutOfReach('truth of a number')


def broadcast_to(v, shape, asbool=False):
    """function of indices of shape"""
    s = v.shape_
    while len(s) > len(shape) and pc().norm(s[0]).const() == 1:
        v = v[0]
        v = as_arr(v)
        s = v.shape_
    if len(s) > len(shape):
        raise ValueError('could not broadcast input array')
    out = bshape(s, shape)
    for a, b in zip(out, shape):
        _same(a, b)
    m = _bidx(s, shape)
    f = _real(v) if v.dtype != 'f' and not asbool else v.fn
    if asbool:
        return lambda idx, env: tobool(f(m(idx), env))
    return lambda idx, env: f(m(idx), env)


OPS = {'+': lambda a, b: a + b, '-': lambda a, b: a - b, '*': lambda a, b: a * b, '/': lambda a, b: a / b,
       '**': lambda a, b: terms.power(a, b)}


def _op(op, a, b):
    for x in (a, b):
        if x is None or isinstance(x, (str, dict)):
            return NotImplemented
    if isinstance(b, CArr):
        return b._op(op, a, True)
    return op_arr(op, as_arr(a), as_arr(b))


def op_arr(op, a, b):
    out = bshape(a.shape_, b.shape_)
    if a.dtype == 'i' and b.dtype == 'i' and op in '+-*':
        f, g = a.fn, b.fn
        ma, mb = _bidx(a.shape_, out), _bidx(b.shape_, out)
        o = OPS[op]
        r = Arr(out, lambda i, e: o(f(ma(i), e), g(mb(i), e)), 'i')
        if op in '+-' and a.affine is not None and not b.shape_ and not ENG.loops:
            r.affine = o(a.affine, g((), {}))
        if op == '+' and b.affine is not None and not a.shape_ and not ENG.loops:
            r.affine = o(f((), {}), b.affine)
        return r
    f, g = _real(a), _real(b)
    ma, mb = _bidx(a.shape_, out), _bidx(b.shape_, out)
    o = OPS[op]
    return Arr(out, lambda i, e: o(f(ma(i), e), g(mb(i), e)))


def _cmp(op, a, b):
    if b is None or isinstance(b, str):
        return op == '!='
    return cmp_arr(op, as_arr(a), as_arr(b))


def _real_cmp(op, x, y):
    from . import npshim
    nx, ny = npshim._isnan(x), npshim._isnan(y)
    if nx or ny:
        return op == '!='
    d = x - y
    o, t, v = {'==': ('==', d, True), '!=': ('==', d, False), '>': ('>', d, True), '>=': ('>=', d, True),
               '<': ('>=', d, False), '<=': ('>', d, False)}[op]
    c = RealCond(o, t)
    r = decide(c)
    return (r == v) if r is not None else SBool(c, v)


def cmp_arr(op, a, b):
    out = bshape(a.shape_, b.shape_)
    f, g = _real(a), _real(b)
    ma, mb = _bidx(a.shape_, out), _bidx(b.shape_, out)
    if not out:
        if ENG.in_run and not ENG.loops:
            return _real_cmp(op, *decided(lambda: (f((), {}), g((), {}))))
        return _real_cmp(op, f((), {}), g((), {}))
    return Arr(out, lambda i, e: _real_cmp(op, f(ma(i), e), g(mb(i), e)), 'b')


def map_arr(h, *xs):
    if any(isinstance(x, CArr) for x in xs):
        c = [x for x in xs if isinstance(x, CArr)]
        for x in c[1:]:
            c[0].same(x)
        fs = [x.f if isinstance(x, CArr) else _scalar(x) for x in xs]
        return CArr(c[0].mask_arr, lambda i, e: h(*[f(i, e) for f in fs]))
    xs = [as_arr(x) for x in xs]
    out = ()
    for x in xs:
        out = bshape(out, x.shape_)
    fs = [_real(x) for x in xs]
    ms = [_bidx(x.shape_, out) for x in xs]
    return Arr(out, lambda i, e: h(*[f(m(i), e) for f, m in zip(fs, ms)]))


def matmul(a, b):
    a, b = as_arr(a), as_arr(b)
    if a.ndim == 0 or b.ndim == 0:
        return op_arr('*', a, b)
    f, g = _real(a), _real(b)
    K = a.shape_[-1]
    if b.ndim == 1:
        _same(K, b.shape_[0])
        return Arr(a.shape_[:-1], lambda i, e: sum_range(ip(0), K.subst(e), lambda k: f(i + (k,), e) * g((k,), e)))
    _same(K, b.shape_[-2])
    if a.ndim == 1:
        return Arr(b.shape_[:-2] + b.shape_[-1:],
                   lambda i, e: sum_range(ip(0), K.subst(e), lambda k: f((k,), e) * g(i[:-1] + (k,) + i[-1:], e)))
    lead = bshape(a.shape_[:-2], b.shape_[:-2])
    ma, mb = _bidx(a.shape_[:-2], lead), _bidx(b.shape_[:-2], lead)
    n = len(lead)
    return Arr(lead + (a.shape_[-2], b.shape_[-1]),
               lambda i, e: sum_range(ip(0), K.subst(e), lambda k: f(ma(i[:n]) + (i[n], k), e) * g(mb(i[:n]) + (k, i[n + 1]), e)))


def _scalar(x):
    x = as_arr(x)
    if x.ndim:
        raise OutOfReach('an array with a selection by a condition')
    f = _real(x)
    return lambda i, e: f((), e)


class CArr:
    """entries of an array that are selected by a condition: f is indexed as the array"""
    __array_priority__ = 2000
    dtype, ndim = 'f', 1

    def __init__(self, mask, f):
        self.mask_arr, self.f = mask, f

    def same(self, o):
        a, b = self.mask_arr, o.mask_arr
        if a is b:
            return
        _shape_eq(a.shape_, b.shape_)
        i = sym(fresh(a.shape_[0]))
        fa, fb = a.fn, b.fn
        for q, r in cases(lambda: bool_key(fa((i,), {})) == bool_key(fb((i,), {}))):
            if not r:
                raise OutOfReach('selections by different conditions')

    def _op(self, op, o, rev=False):
        if isinstance(o, CArr):
            self.same(o)
            g = o.f
        else:
            if o is None or isinstance(o, (str, dict)):
                return NotImplemented
            g = _scalar(o)
        f, h = self.f, OPS[op]
        if rev:
            return CArr(self.mask_arr, lambda i, e: h(g(i, e), f(i, e)))
        return CArr(self.mask_arr, lambda i, e: h(f(i, e), g(i, e)))

    def __add__(self, o): return self._op('+', o)
    def __radd__(self, o): return self._op('+', o, True)
    def __sub__(self, o): return self._op('-', o)
    def __rsub__(self, o): return self._op('-', o, True)
    def __mul__(self, o): return self._op('*', o)
    def __rmul__(self, o): return self._op('*', o, True)
    def __truediv__(self, o): return self._op('/', o)
    def __rtruediv__(self, o): return self._op('/', o, True)
    def __pow__(self, o): return self._op('**', o)
    def __rpow__(self, o): return self._op('**', o, True)
    def __neg__(self): return self._op('-', 0, True)


def bool_key(b):
    return b if isinstance(b, bool) else (repr(b.c), b.v)


# ---------------------------------------------------------------- loops
class SRange:
    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi

    def __iter__(self):
        raise OutOfReach('iteration over a symbolic range')

    def __len__(self):
        raise OutOfReach('len of a symbolic range')


class SEnum:
    def __init__(self, seq, rng):
        self.seq, self.rng = seq, rng

    def __iter__(self):
        raise OutOfReach('iteration over a symbolic range')


class SZip:
    def __init__(self, seqs, rng):
        self.seqs, self.rng = seqs, rng

    def __iter__(self):
        raise OutOfReach('iteration over a symbolic range')


def zipped(*xs, **k):
    n = None
    for x in xs:
        if isinstance(x, SRange):
            m = x.hi - x.lo
        elif isinstance(x, SEnum):
            m = x.rng.hi - x.rng.lo
        elif isinstance(x, Arr) and pc().norm(x.shape_[0]).const() is None:
            m = x.shape_[0]
        else:
            continue
        if n is not None and not test(Cond('==', m - n)):
            raise OutOfReach('zip of different lengths')
        n = m
    if n is None:
        return zip(*xs, **k)
    if any(not isinstance(x, (SRange, Arr)) for x in xs):
        raise OutOfReach('zip')
    return SZip(xs, SRange(ip(0), pc().norm(n)))


def comp(it, f, star, lazy):
    """the list [f(x) for x in it]"""
    k = LoopRT(it)
    if not k.sym:
        r = (f(*x) if star else f(x) for x in it)
        return r if lazy else list(r)
    out = None
    for x in k:
        with k.body:
            v = as_arr(f(*x) if star else f(x))
            if v.dtype == 'b':
                raise OutOfReach('list of conditions')
            sh = (pc().norm(k.hi - k.lo),) + tuple(pc().norm(n) for n in v.shape_)
            if any(k.L.b in n.syms() for n in sh):
                raise OutOfReach('list of arrays of different sizes')
            if out is None:
                out = LArr(sh, lambda i, e: ZERO)
                out.depth = k.depth
                out.ensure()
            elif [n.key for n in sh] != [n.key for n in out.shape_]:
                raise OutOfReach('list of arrays of different sizes')
            Arr.__setitem__(out, (si(sym(k.L.b) - k.lo),), v)
    if out is None:
        raise OutOfReach('list of unknown length')
    return out


class Poison:
    def __init__(self, why):
        object.__setattr__(self, 'why', why)

    def _bad(self, *a, **k):
        raise OutOfReach(object.__getattribute__(self, 'why'))

    def __getattr__(self, n):
        self._bad()
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = __getitem__ = __setitem__ = _bad
    __bool__ = __iter__ = __len__ = __call__ = __eq__ = __ne__ = __lt__ = __gt__ = __le__ = __ge__ = __neg__ = __pow__ = _bad
    __iadd__ = __isub__ = __imul__ = __matmul__ = __rmatmul__ = __index__ = __hash__ = _bad


def rng(*a):
    ps = [toip(x) for x in a]
    if any(p is None for p in ps):
        raise TypeError('range of something that is not an integer')
    if len(ps) == 3:
        cs = [pc().norm(p).const() for p in ps]
        if any(c is None for c in cs):
            raise OutOfReach('range with a step')
        return range(*cs)
    lo, hi = (ip(0), ps[0]) if len(ps) == 1 else ps
    lo, hi = pc().norm(lo), pc().norm(hi)
    if lo.const() is not None and hi.const() is not None:
        return range(lo.const(), hi.const())
    return SRange(lo, hi)


class _Body:
    def __init__(self, sym_):
        self.sym = sym_

    def __enter__(self):
        pass

    def __exit__(self, t, v, tb):
        return t is _Dead and self.sym


_BODY = {True: _Body(True), False: _Body(False)}


class LoopRT:
    """for-loop over anything; symbolic ranges are executed once per path through the body"""

    def __init__(self, it):
        self.it = it
        self.sym = False
        r = it
        self.item = lambda b: si(b)
        if isinstance(it, Arr):
            if pc().norm(it.shape_[0]).const() is None:
                r = SRange(ip(0), pc().norm(it.shape_[0]))
                self.item = lambda b: it[si(b)]
        elif isinstance(it, SZip):
            r = it.rng
            self.item = lambda b: tuple(x[si(b)] if isinstance(x, Arr) else si(x.lo + b) for x in it.seqs)
        elif isinstance(it, SEnum):
            r = it.rng
            seq = it.seq
            self.item = (lambda b: (si(b), seq[si(b)])) if isinstance(seq, Arr) else (lambda b: (si(b), si(seq.lo + b)))
        if isinstance(r, SRange):
            self.sym = True
            self.lo, self.hi = r.lo, r.hi
            if not test(Cond('>=', self.lo)):
                raise OutOfReach('range from a negative number')
            b = fresh(self.hi, '@L')
            self.L = Loop(b, self.lo, self.hi)
            self.depth = len(ENG.loops)

    def carry(self, name, v, kind):
        if not self.sym:
            return v
        L = self.L
        if isinstance(v, Poison):
            return v
        p = toip(v) if not isinstance(v, (bool, SBool)) else None
        if p is not None:
            c = fresh(ip(1), '@c')
            del ints.RANGE[c]
            L.names[name] = ('int', c, p)
            return SInt(sym(c))
        if isinstance(v, Arr) and v.ndim and kind == 'aug':
            return v
        if isinstance(v, (float, Arr)):
            a = as_arr(v)
            f = _real(a)
            b = Buf(a.shape_, f, a.dtype)
            L.names[name] = ('buf', b, a.shape_)
            h = Arr(a.shape_, None, 'f')
            h.buf, h.dims = b, [('a', k, ip(0)) for k in range(len(a.shape_))]
            return h
        L.names[name] = ('bad', None, None)
        return Poison(f'{name} is carried through a loop')

    def back(self, name, v):
        if not self.sym or name not in self.L.names:
            return v
        k, x, y = self.L.names[name]
        if k == 'int':
            p = toip(v)
            if p is None:
                raise OutOfReach('integer carried through a loop becomes real')
            d = pc().norm(p) - sym(x)
            if x in d.syms() or self.L.b in d.syms():
                raise OutOfReach('integer carried through a loop')
            if x in self.L.ic and self.L.ic[x][1].key != d.key:
                raise OutOfReach('integer carried through a loop')
            self.L.ic[x] = (y, d)
            return SInt(sym(x))
        if k == 'buf':
            if isinstance(v, Arr) and v.buf is x and v.shape_ == tuple(y):
                return v
            a = as_arr(v)
            _shape_eq(a.shape_, y)
            dims = [('a', j, ip(0)) for j in range(len(y))]
            x.write(dims, y, _real(a))
            h = Arr(y, None, 'f')
            h.buf, h.dims = x, dims
            return h
        return v

    def after(self, name, v):
        if not self.sym or name not in self.L.names:
            return v
        k, x, y = self.L.names[name]
        if k == 'int':
            if x not in self.L.ic:
                return si(y)
            return si(y + (self.hi - self.lo) * self.L.ic[x][1])
        if k == 'buf':
            h = Arr(y, None, 'f')
            h.buf, h.dims = x, [('a', j, ip(0)) for j in range(len(y))]
            return h
        return Poison(f'{name} after a loop')

    def leak(self, name, v):
        return v if not self.sym else Poison(f'{name} is used after the loop that sets it')

    def jump(self):
        if self.sym:
            raise OutOfReach('left a loop over a symbolic range')

    @property
    def body(self):
        return _BODY[self.sym]

    def __iter__(self):
        if not self.sym:
            yield from self.it
            return
        L = self.L
        if self.lo.const() is not None and not test(Cond('>=', self.hi - self.lo)):
            return
        ENG.loops.append(L)
        ok = False
        try:
            L.path = []
            while True:
                L.pos, L.guard = 0, []
                q = pc().copy()
                CTX.append(q)
                try:
                    q.assume(Cond('>=', sym(L.b) - self.lo))
                    q.assume(Cond('>=', self.hi - 1 - sym(L.b)))
                    yield self.item(sym(L.b))
                finally:
                    CTX.remove(q) if CTX[-1] is not q else CTX.pop()
                while L.path and L.path[-1][1]:
                    L.path.pop()
                if not L.path:
                    break
                L.path[-1] = [not L.path[-1][0], True]
            ok = True
        finally:
            ENG.loops.pop()
            if ok:
                for buf, st in L.bufs.items():
                    if buf.cur is st:
                        st.idle = True
                        buf.cur = st.prev
                    else:
                        st.end = buf.cur
                        buf.cur = LoopEnd(L, st, buf.cur, st.prev, buf)
            else:
                ENG.notes.append('left a loop over a symbolic range')
        if not ok:
            raise OutOfReach('left a loop over a symbolic range')
