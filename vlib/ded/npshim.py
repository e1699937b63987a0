"""Meaning of the numpy and scipy operations that are used, on arrays of symbolic sizes (exact real arithmetic)."""
from fractions import Fraction
import types

from . import eng, terms, ints
from .ints import IP, ip, sym, Cond, OutOfReach, NeedSplit
from .terms import T, S, ZERO, ONE, pc, fresh, Term
from .eng import Arr, SInt, SBool, as_arr, op_arr, map_arr, matmul, toip, si, sum_range, NeedRadix, RealCond, Buf

HALF = Fraction(1, 2)


def _dims(shape):
    if isinstance(shape, (tuple, list)):
        ps = [toip(x) for x in shape]
    elif isinstance(shape, Arr) and shape.ndim == 1:
        ps = [toip(x) for x in shape]
    else:
        ps = [toip(shape)]
    if any(p is None for p in ps):
        raise TypeError('shape')
    return tuple(pc().norm(p) for p in ps)


def _chk(dtype):
    if dtype not in (None, float, 'float', 'float64') and getattr(dtype, '__name__', '') != '_sfloat':
        raise OutOfReach('dtype')


def zeros(shape, dtype=None):
    if dtype is bool or dtype == 'bool':
        return Arr(_dims(shape), lambda i, e: False, 'b')
    _chk(dtype)
    return Arr(_dims(shape), lambda i, e: ZERO)


def ones(shape, dtype=None):
    if dtype is bool or dtype == 'bool':
        return Arr(_dims(shape), lambda i, e: True, 'b')
    _chk(dtype)
    return Arr(_dims(shape), lambda i, e: ONE)


def full(shape, v, dtype=None):
    v = as_arr(v)
    sh = _dims(shape)
    if v.dtype == 'b':
        f = v.fn
        return Arr(sh, lambda i, e: f((), e), 'b')
    f = eng.broadcast_to(v, sh)
    return Arr(sh, f)


def zeros_like(a, dtype=None):
    return Arr(as_arr(a).shape_, lambda i, e: ZERO)


def ones_like(a, dtype=None):
    return Arr(as_arr(a).shape_, lambda i, e: ONE)


def full_like(a, v, dtype=None):
    return full(tuple(si(x) for x in as_arr(a).shape_), v)


def empty(shape, dtype=None):
    def f(i, e):
        raise OutOfReach('uninitialised value')
    return Arr(_dims(shape), f)


def empty_like(a):
    return empty(a.shape)


def eye(n, m=None):
    n = toip(n)
    m = n if m is None else toip(m)
    return Arr((n, m), lambda i, e: terms.delta(i[0] - i[1]))


identity = eye


def _kind(dtype):
    n = getattr(dtype, '__name__', str(dtype))
    return 'i' if 'int' in n else 'b' if 'bool' in n else 'f' if 'float' in n else None


def _typed(a, dtype):
    """the array, if it has this type (or any type of numbers becomes a float)"""
    k = a.dtype if dtype is None else _kind(dtype)
    if k is None or k != a.dtype and k != 'f':
        raise OutOfReach('conversion to another type')
    return a


def array(x, dtype=None, copy=True, ndmin=0):
    if ndmin:
        raise OutOfReach('ndmin')
    if isinstance(x, Arr):
        return _typed(as_arr(x).copy() if copy else as_arr(x), dtype)
    if isinstance(x, (list, tuple)) and not x:
        k = 'f' if dtype is None else _kind(dtype)
        return Arr((0,), (lambda i, e: ip(0)) if k == 'i' else (lambda i, e: False) if k == 'b' else (lambda i, e: ZERO), k)
    return _typed(as_arr(x), dtype)


def asarray(x, dtype=None):
    return array(x, dtype, copy=False)


def copy(x):
    return as_arr(x).copy()


def atleast_1d(x):
    a = as_arr(x)
    if a.ndim:
        return a
    f = a.fn
    return Arr((1,), lambda i, e: f((), e), a.dtype)


def atleast_2d(x):
    a = as_arr(x)
    if a.ndim >= 2:
        return a
    if a.ndim == 1:
        return a[None, :]
    f = a.fn
    return Arr((1, 1), lambda i, e: f((), e), a.dtype)


def squeeze(x):
    a = as_arr(x)
    k = [j for j, s in enumerate(a.shape_) if pc().norm(s).const() != 1]
    f = eng._real(a)
    n = a.ndim
    return Arr([a.shape_[j] for j in k], lambda i, e: f(tuple(i[k.index(j)] if j in k else ip(0) for j in range(n)), e))


def diag(a):
    if isinstance(a, Chol):
        return chol_diag(a.A)
    a = as_arr(a)
    f = eng._real(a)
    if a.ndim == 1:
        n = a.shape_[0]

        def g(i, e):
            d = terms.delta(i[0] - i[1])
            return d * f((i[0],), e) if d.d else ZERO
        r = Arr((n, n), g)
        r.tag = ('diag', a)
        return r
    if a.ndim == 2:
        eng._same(*a.shape_)
        return Arr((a.shape_[0],), lambda i, e: f((i[0], i[0]), e))
    raise OutOfReach('diag')


def transpose(a, axes=None):
    a = as_arr(a)
    if axes is None:
        return a.T
    f, dt = a.fn, a.dtype
    inv = [list(axes).index(k) for k in range(a.ndim)]
    return Arr([a.shape_[k] for k in axes], lambda i, e: f(tuple(i[inv[k]] for k in range(len(i))), e), dt)


def swapaxes(a, x, y):
    ax = list(range(as_arr(a).ndim))
    ax[x], ax[y] = ax[y], ax[x]
    return transpose(a, ax)


# ---------------------------------------------------------------- putting together and taking apart
def concatenate(xs, axis=0):
    if isinstance(xs, Arr):
        a = as_arr(xs)
        n = a.ndim - 1
        axis = axis % n
        a = moveaxis(a, 0, axis)
        return reshape(a, [si(x) for x in a.shape_[:axis]] + [si(a.shape_[axis] * a.shape_[axis + 1])] + [si(x) for x in a.shape_[axis + 2:]])
    xs = [as_arr(x) for x in xs]
    nd = xs[0].ndim
    axis = axis % nd
    for x in xs[1:]:
        if x.ndim != nd:
            raise ValueError('all the input array dimensions must match')
        for k in range(nd):
            if k != axis:
                eng._same(x.shape_[k], xs[0].shape_[k])
    tot = ip(0)
    offs = []
    for x in xs:
        offs.append(tot)
        tot = tot + x.shape_[axis]
    kind = xs[0].dtype if all(x.dtype == xs[0].dtype for x in xs) else 'f'
    fs = [x.fn if kind != 'f' else eng._real(x) for x in xs]
    lens = [x.shape_[axis] for x in xs]

    def g(i, e):
        t = i[axis]
        for k in range(len(fs) - 1):
            end = (offs[k] + lens[k]).subst(e)
            if eng.must(Cond('>=', end - 1 - t)):
                break
        else:
            k = len(fs) - 1
        return fs[k](i[:axis] + (t - offs[k].subst(e),) + i[axis + 1:], e)
    sh = list(xs[0].shape_)
    sh[axis] = pc().norm(tot)
    return Arr(sh, g, kind)


def hstack(xs):
    if isinstance(xs, Arr):
        return as_arr(xs).copy() if as_arr(xs).ndim == 1 else concatenate(xs, 0 if as_arr(xs).ndim == 2 else 1)
    xs = [atleast_1d(x) for x in xs]
    return concatenate(xs, 0 if xs[0].ndim == 1 else 1)


def vstack(xs):
    if isinstance(xs, Arr):
        return as_arr(xs).copy() if as_arr(xs).ndim == 2 else concatenate(xs, 0)
    return concatenate([atleast_2d(x) for x in xs], 0)


def append(a, b):
    return concatenate([atleast_1d(a), atleast_1d(b)], 0)


def stack(xs, axis=0):
    a = as_arr(xs if isinstance(xs, Arr) else list(xs))
    axis = axis % a.ndim
    return moveaxis(a, 0, axis) if axis else a


def column_stack(xs):
    if isinstance(xs, Arr):
        return as_arr(xs).T.copy() if as_arr(xs).ndim == 2 else concatenate(xs, 1)
    return concatenate([as_arr(x)[:, None] if as_arr(x).ndim == 1 else x for x in xs], 1)


def _split(t, g):
    """t = q * g + r"""
    qr = pc().radix(t, g)
    if qr is None:
        raise NeedRadix(pc().norm(t), pc().norm(g))
    return qr


def kron(a, b):
    a, b = as_arr(a), as_arr(b)
    f, h = eng._real(a), eng._real(b)
    if a.ndim == b.ndim == 1:
        n = b.shape_[0]

        def g(i, e):
            q, r = _split(i[0], n.subst(e))
            return f((q,), e) * h((r,), e)
        return Arr((a.shape_[0] * n,), g)
    if a.ndim == b.ndim == 2:
        n, m = b.shape_

        def g(i, e):
            q, r = _split(i[0], n.subst(e))
            s, t = _split(i[1], m.subst(e))
            return f((q, s), e) * h((r, t), e)
        return Arr((a.shape_[0] * n, a.shape_[1] * m), g)
    raise OutOfReach('kron')


def repeat(a, n, axis=None):
    a = as_arr(a)
    if a.ndim != 1:
        raise OutOfReach('repeat')
    f, n = a.fn, toip(n)
    return Arr((a.shape_[0] * n,), lambda i, e: f((_split(i[0], n.subst(e))[0],), e), a.dtype)


def tile(a, n):
    a = as_arr(a)
    ns = [toip(x) for x in n] if isinstance(n, (tuple, list)) else [toip(n)]
    if any(x is None for x in ns):
        raise OutOfReach('tile')
    sh = list(a.shape_)
    while len(sh) < len(ns):
        sh.insert(0, ip(1))
    while len(ns) < len(sh):
        ns.insert(0, ip(1))
    off, f = len(sh) - a.ndim, a.fn

    def g(i, e):
        out = []
        for k in range(off, len(sh)):
            L = sh[k].subst(e)
            out.append(i[k] if ns[k].const() == 1 else ip(0) if L.const() == 1 else _split(i[k], L)[1])
        return f(tuple(out), e)
    return Arr(tuple(s * m for s, m in zip(sh, ns)), g, a.dtype)


def reshape(a, shape, order='C'):
    a = as_arr(a)
    shape = list(_dims(shape))
    order = order.upper()
    size = ip(1)
    for s in a.shape_:
        size = size * s
    size = pc().norm(size)
    neg = [k for k, s in enumerate(shape) if s.const() == -1]
    if neg:
        rest = ip(1)
        for k, s in enumerate(shape):
            if k != neg[0]:
                rest = rest * s
        if rest.const() == 1:
            shape[neg[0]] = size
        else:
            qr = pc().radix(size, rest)
            if qr is None or qr[1].d:
                raise OutOfReach('reshape with -1')
            shape[neg[0]] = qr[0]
    tot = ip(1)
    for s in shape:
        tot = tot * s
    tot = pc().norm(tot)
    if tot.key != size.key and not eng.test(Cond('==', tot - size)):
        raise ValueError('cannot reshape array')
    old = a.shape_
    f, dt = a.fn, a.dtype
    shape = tuple(shape)

    def g(i, e):
        so = [s.subst(e) for s in old]
        sn = [s.subst(e) for s in shape]
        if [s.key for s in so] == [s.key for s in sn]:
            return f(i, e)
        # dimensions of length one carry nothing
        t = ip(0)
        rng_ = range(len(sn)) if order == 'C' else range(len(sn) - 1, -1, -1)
        for k in rng_:
            t = t * sn[k] + i[k]
        j = [None] * len(so)
        live = [k for k in (range(len(so) - 1, -1, -1) if order == 'C' else range(len(so))) if pc().norm(so[k]).const() != 1]
        for k in range(len(so)):
            if k not in live:
                j[k] = ip(0)
        for k in live[:-1]:
            t, r = _split(t, so[k])
            j[k] = r
        if live:
            j[live[-1]] = t
        return f(tuple(j), e)
    return Arr(shape, g, dt)


def ravel(a, order='C'):
    a = as_arr(a)
    return reshape(a, (a.size,), order)


def arange(*a, dtype=None):
    if dtype is not None and getattr(dtype, '__name__', '') not in ('int', '_sint'):
        raise OutOfReach('dtype')
    r = eng.rng(*a)
    if isinstance(r, range):
        return as_arr(list(r))
    lo = r.lo
    return Arr((pc().norm(r.hi - r.lo),), lambda i, e: lo.subst(e) + i[0], 'i', affine=lo)


def linspace(lo, hi, num=50):
    n = toip(num)
    if n is None:
        raise OutOfReach('linspace')
    lo, hi = as_arr(lo), as_arr(hi)
    if lo.ndim or hi.ndim:
        raise OutOfReach('linspace of arrays')
    f, g = eng._real(lo), eng._real(hi)
    if not eng.test(Cond('>=', n - 2)):
        raise OutOfReach('linspace of one point')

    def h(i, e):
        a, b = f((), e), g((), e)
        return a + (b - a) * T(i[0]) * terms.power(T(n.subst(e) - 1), -1)
    return Arr((n,), h)


# ---------------------------------------------------------------- elementwise
def _ew(h):
    def f(x):
        return map_arr(h, x)
    return f


exp = _ew(terms.exp)
log = _ew(terms.log)
sqrt = _ew(lambda t: terms.power(t, HALF))
square = _ew(lambda t: t * t)
absolute = _ew(lambda t: terms.fn('abs', t))
fabs = absolute


def np_abs(x):
    return absolute(x)


def sign(x):
    return map_arr(lambda t: terms.fn('sign', t), x)


log10 = _ew(lambda t: terms.log(t) * terms.power(terms.LN10, -1))


def power(a, b):
    return op_arr('**', as_arr(a), as_arr(b))


def add(a, b): return op_arr('+', as_arr(a), as_arr(b))
def subtract(a, b): return op_arr('-', as_arr(a), as_arr(b))
def multiply(a, b): return op_arr('*', as_arr(a), as_arr(b))
def negative(a): return -as_arr(a)


def divide(a, b, out=None, where=None):
    a, b = as_arr(a), as_arr(b)
    if where is None:
        if out is not None:
            raise OutOfReach('divide')
        return op_arr('/', a, b)
    w, o = as_arr(where), as_arr(out)
    sh = eng.bshape(eng.bshape(a.shape_, b.shape_), w.shape_)
    fa, fb, fo, fw = [eng.broadcast_to(x, sh) for x in (a, b, o)] + [None]
    m = eng._bidx(w.shape_, sh)
    wf = w.fn

    def g(i, e):
        c = wf(m(i), e)
        if c if isinstance(c, bool) else eng.must(c.c) == c.v:
            return fa(i, e) / fb(i, e)
        return fo(i, e)
    return Arr(sh, g)


true_divide = divide


def where(c, a=None, b=None):
    if a is None:
        raise OutOfReach('where')
    c, a, b = as_arr(c), as_arr(a), as_arr(b)
    sh = eng.bshape(eng.bshape(a.shape_, b.shape_), c.shape_)
    fa, fb = eng.broadcast_to(a, sh), eng.broadcast_to(b, sh)
    m = eng._bidx(c.shape_, sh)
    wf = c.fn

    def g(i, e):
        x = wf(m(i), e)
        return fa(i, e) if (x if isinstance(x, bool) else eng.must(x.c) == x.v) else fb(i, e)
    return Arr(sh, g)


def _maxterm(name, ignore=False):
    def h(x, y):
        if x == y:
            return x
        nx, ny = _isnan(x), _isnan(y)
        if nx or ny:
            return (y if nx else x) if ignore else NAN
        d = x - y
        r = eng.decide(RealCond('>=', d))
        if r is None:
            cx, cy = x.const(), y.const()
            if cx is not None or cy is not None:
                r = eng.must(RealCond('>=', d))
            else:
                return terms.fn(name, x, y)
        return (x if r else y) if name == 'max' else (y if r else x)
    return h


def maximum(a, b):
    return map_arr(_maxterm('max'), a, b)


def minimum(a, b):
    return map_arr(_maxterm('min'), a, b)


def fmax(a, b):
    return map_arr(_maxterm('max', True), a, b)


def fmin(a, b):
    return map_arr(_maxterm('min', True), a, b)


def clip(a, lo, hi):
    r = as_arr(a)
    if lo is not None:
        r = maximum(r, lo)
    return r if hi is None else minimum(r, hi)


def _isnan(t):
    if any(y is NANA for m in t.d for y, _ in m):
        if t == NAN:
            return True
        raise OutOfReach('a term that may be missing')
    return False


def isnan(a):
    """inputs hold no missing values unless they are that constant"""
    a = as_arr(a)
    f = eng._real(a)
    if not a.ndim:
        return _isnan(f((), {}))
    return Arr(a.shape_, lambda i, e: _isnan(f(i, e)), 'b')


def isfinite(a):
    a = as_arr(a)
    f = eng._real(a)
    if not a.ndim:
        return _finite(f((), {}))
    return Arr(a.shape_, lambda i, e: _finite(f(i, e)), 'b')


def _finite(t):
    if any(y.key == 'inf' for m in t.d for y, _ in m):
        raise OutOfReach('infinity')
    return not _isnan(t)


def isinf(a):
    raise OutOfReach('isinf')


NAN = S('nan')
NANA = next(iter(NAN.d))[0][0]
nan = NAN
inf = S('inf')
pi = S('pi')
terms.POS.add('pi')
terms.POS.add('inf')


# ---------------------------------------------------------------- sums and reductions
def _axes(a, axis):
    if axis is None:
        return list(range(a.ndim))
    if isinstance(axis, tuple):
        return sorted(k % a.ndim for k in axis)
    return [axis % a.ndim]


def _sumfn(f, shape, axs):
    """sum of f over the axes, a function of the others"""
    n = len(shape)
    keep = [k for k in range(n) if k not in axs]

    def g(i, e):
        def rec(j, idx):
            if j == len(axs):
                return f(tuple(idx), e)
            return sum_range(ip(0), shape[axs[j]].subst(e), lambda b: rec(j + 1, idx[:axs[j]] + [b] + idx[axs[j] + 1:]))
        idx = [None] * n
        for k, v in zip(keep, i):
            idx[k] = v
        return rec(0, idx)
    return [shape[k] for k in keep], g


def np_sum(a, axis=None, keepdims=False):
    a = as_arr(a)
    if a.mask is not None:
        return si(ints.SIZES[a.mask][0])
    if a.dtype == 'b' and axis is None:
        return _count(a)
    sh, g = _sumfn(eng._real(a), a.shape_, _axes(a, axis))
    r = Arr(sh, g)
    if keepdims:
        k = _axes(a, axis)
        full_ = [ip(1) if j in k else s for j, s in enumerate(a.shape_)]
        return Arr(full_, lambda i, e: g(tuple(x for j, x in enumerate(i) if j not in k), e))
    return r


nansum = np_sum


def mean(a, axis=None):
    a = as_arr(a)
    n = ip(1)
    for k in _axes(a, axis):
        n = n * a.shape_[k]
    r = np_sum(a, axis)
    if isinstance(r, int):
        r = as_arr(r)
        r = Arr((), lambda i, e, f=eng._real(r): f(i, e))
    return r / si(pc().norm(n))


def var(a, axis=None):
    a = as_arr(a)
    return mean((a - mean(a)) ** 2) if axis is None else mean((a - expand_dims(mean(a, axis), axis)) ** 2, axis)


def std(a, axis=None):
    return sqrt(var(a, axis))


def prod(a, axis=None):
    a = as_arr(a)
    n = pc().norm(a.shape_[0]).const()
    if a.ndim != 1 or n is None:
        raise OutOfReach('prod')
    r = 1
    for x in a:
        r = x * r
    return r


def _count(a):
    """number of true entries"""
    def one(b, idx):
        if isinstance(b, bool):
            return ONE if b else ZERO
        if isinstance(b, SBool) and isinstance(b.c, Cond):
            return b.term()
        if isinstance(b, SBool) and not set(b.c.syms()) & {y for x in idx for y in x.syms()}:
            return ONE if eng.must(b.c) == b.v else ZERO
        raise OutOfReach('number of entries that satisfy a real condition')

    def rec(k, idx):
        if k == a.ndim:
            return one(a.fn(tuple(idx), {}), idx)
        return sum_range(ip(0), a.shape_[k], lambda b: rec(k + 1, idx + [b]))
    t = eng.decided(lambda: rec(0, []))
    c = t.const()
    if c is not None:
        return int(c)
    return Arr((), lambda i, e: terms.subst(t, e))


def count_nonzero(a):
    a = as_arr(a)
    if a.dtype != 'b':
        raise OutOfReach('count_nonzero')
    return np_sum(a)


def np_any(a, axis=None):
    if axis is not None and as_arr(a).ndim != 1:
        raise OutOfReach('any along an axis')
    return _all(a, False)


def np_all(a, axis=None):
    if axis is not None and as_arr(a).ndim != 1:
        raise OutOfReach('all along an axis')
    return _all(a, True)


def _pieces(a):
    """the parts of a vector of conditions; None if they are conditions on the indices"""
    try:
        ps = eng.explore_range(ip(0), a.shape_[0], lambda b: a.fn((b,), {}))
    except OutOfReach:
        return None
    out = []
    for p in ps:
        if p[0] == 'pt':
            out.append(p[2])
        else:
            rs = [(p[1], p[1] + ints.RANGE[p[2]])]
            for x in p[4]:
                rs = [r for lo, hi in rs for r in ([(lo, x), (x + 1, hi)] if eng.test(Cond('>=', x - lo)) and eng.test(Cond('>=', hi - 1 - x)) else [(lo, hi)])]
            for lo, hi in rs:
                if eng.test(Cond('>=', hi - lo - 1)):
                    out.append(Arr((pc().norm(hi - lo),), lambda i, e, s=lo: a.fn((s + i[0],), e), 'b'))
    if any(isinstance(x, SBool) and not isinstance(x.c, RealCond) for x in out):
        return None
    return out


def _all(a, v):
    """v: are all entries true; not v: is any entry true"""
    if isinstance(a, (bool, SBool)):
        return a
    a = as_arr(a)
    if a.dtype != 'b':
        raise OutOfReach('any or all of numbers')
    if a.mask is not None:
        k = ints.SIZES[a.mask]
        return eng.mkbool(('==', k[0] - k[1], True)) if v else eng.mkbool(('>=', k[0] - 1, True))
    if not a.ndim:
        return a.fn((), {})
    idx = tuple(sym(fresh(n)) for n in a.shape_)
    try:
        b = a.fn(idx, {})
    except NeedSplit:
        b = None
    if b is None and a.ndim == 1:
        ps = eng.decided(lambda: _pieces(a))
        if ps is not None:
            for x in ps:
                if bool(_all(x, v) if isinstance(x, Arr) else x) != v:
                    return not v
            return v
    if isinstance(b, bool):
        return b
    if isinstance(b, SBool) and isinstance(b.c, RealCond):
        # all t > 0: the smallest t is
        op, neg = b.c.op, b.v != v
        if op == '==':
            raise OutOfReach('all entries equal')

        def entry(i, e):
            c = a.fn(i, e)
            if not isinstance(c, SBool) or not isinstance(c.c, RealCond) or c.c.op != op or c.v != b.v:
                raise OutOfReach('entries with different conditions')
            return -c.c.t if neg else c.c.t
        m = _extreme('min', Arr(a.shape_, entry)).fn((), {})
        c = RealCond({'>': '>=', '>=': '>'}[op] if neg else op, m)
        return SBool(c, v)
    n = _count(a)
    tot = ip(1)
    for s_ in a.shape_:
        tot = tot * s_
    return bool(si(n) == si(tot)) if v else bool(n > 0)


EXT = {}     # key of an extremum -> (kind, array function, length)


def isnan1(x):
    x = as_arr(x)
    return not x.ndim and x.dtype not in 'bi' and _isnan(eng._real(x)((), {}))


def _extreme(kind, a, axis=None, ignore=False):
    if isinstance(a, (tuple, list)):
        if a and all(isinstance(x, (int, eng.SInt)) and not isinstance(x, bool) for x in a):
            r = a[0]
            for x in a[1:]:
                if x > r if kind == 'max' else x < r:
                    r = x
            return r
        xs = [as_arr(x) for x in a]
        if not [x for x in xs if x.ndim]:
            r = xs[0]
            for x in xs[1:]:
                r = map_arr(_maxterm(kind, ignore), r, x)
            return r
    a = as_arr(a)
    if not a.ndim:
        return a
    if axis is not None and not (a.ndim == 1 and axis in (0, -1)):
        k, = _axes(a, axis)
        n = pc().norm(a.shape_[k]).const()
        if n is None or n < 1:
            raise OutOfReach('extremum along an axis')
        h = eng._real(a)
        xs = [Arr(a.shape_[:k] + a.shape_[k + 1:], lambda i, e, c=c: h(i[:k] + (ip(c),) + i[k:], e)) for c in range(n)]
        r = xs[0]
        for x in xs[1:]:
            r = map_arr(_maxterm(kind), r, x)
        return r
    f = eng._real(a)
    ns = [pc().norm(s).const() for s in a.shape_]
    if a.ndim == 1 and ns[0] is not None:
        xs = [a[k] for k in range(ns[0])]
        if not xs:
            raise ValueError('extremum of nothing')
        r = xs[0]
        for x in xs[1:]:
            r = map_arr(_maxterm(kind), r, x)
        return r
    if a.ndim == 1 and not any(y.key == 'nan' for m in f((sym(fresh(a.shape_[0])),), {}).d for y, _ in m):
        return a[si(_arg(kind, a))]
    # the extremum over an array: a symbol that stands for it, identified by the entry at arbitrary indices
    bs = [f'%x{k}' for k in range(a.ndim)]
    for b, s in zip(bs, a.shape_):
        ints.RANGE[b] = s
    try:
        t = eng.decided(lambda: terms.canon(f(tuple(sym(b) for b in bs), {})), bs)
    except NeedSplit:
        t = eng.decided(lambda: _offdiag(kind, f, bs), bs) if a.ndim == 2 and a.shape_[0].key == a.shape_[1].key else None
        if t is None:
            raise
    if t.const() is not None or not (t.fv & set(bs)):
        return Arr((), lambda i, e: terms.subst(t, e))
    # without what does not depend on the indices, and with a positive first coefficient
    off = Term({m: v for m, v in t.d.items() if not (Term({m: v}).fv & set(bs))})
    t = t - off
    if not any(y is NANA for m in t.d for y, _ in m) and t.d[min(t.d, key=terms.mkey)] < 0:
        t, kind, sg = -t, {'max': 'min', 'min': 'max'}[kind], -1
    else:
        sg = 1
    # a common positive factor
    nan = lambda m: any(y is NANA for y, _ in m)
    c = terms.common_positive(t, nan, frozenset(bs))
    if c:
        c = Term({c: 1})
        t = Term({m: v for m, v in t.d.items() if nan(m)}) + Term({m: v for m, v in t.d.items() if not nan(m)}) * terms.power(c, -1)
    else:
        c = ONE
    key = f'{kind}⟨{",".join(b + "<" + pc().norm(s).key for b, s in zip(bs, a.shape_))}⟩({t.key})'
    EXT[key] = (kind, t, a.shape_)
    if all(nan(m) or (v > 0 and all(y.pos for y, _ in m)) for m, v in t.d.items()):
        terms.POS.add(key)
        if not all(nan(m) or all(eng.sure(y) for y, _ in m) for m in t.d):
            eng.WEAK.add(key)
    x = S(key) * c * sg + off
    return Arr((), lambda i, e: x)


def _offdiag(kind, f, bs):
    """entry of a matrix whose diagonal is left out of the extremum"""
    d = sym(bs[0]) - sym(bs[1])
    r = []
    for eq in (True, False):
        q = pc().copy()
        with eng.CtxPush(q):
            if eq:
                q.assume(Cond('==', d))
            else:
                q.assume_ne(d)
            r.append(terms.canon(f(tuple(sym(b) for b in bs), {})))
    out = [NAN] + ([inf] if kind == 'min' else [-inf])
    if r[0] not in out or bs[0] not in r[1].fv or bs[1] not in r[1].fv:
        return None
    return terms.canon(r[1] + terms.delta(d) * NAN)


def median(a, axis=None):
    """the median along an axis: a symbol that stands for it, identified by the entry at an arbitrary index"""
    a = as_arr(a)
    if not a.ndim:
        return a
    if axis is None and a.ndim > 1:
        raise OutOfReach('median of a matrix')
    k = 0 if axis is None else _axes(a, axis)[0]
    f = eng._real(a)
    n = pc().norm(a.shape_[k])
    if n.const() == 0:
        return Arr(a.shape_[:k] + a.shape_[k + 1:], lambda i, e: NAN)
    bs = ['%x0'] + [f'%y{j}' for j in range(a.ndim - 1)]
    rest = a.shape_[:k] + a.shape_[k + 1:]
    for b, s in zip(bs, (n,) + rest):
        ints.RANGE[b] = s
    ys = tuple(sym(b) for b in bs[1:])
    t = eng.decided(lambda: terms.canon(f(ys[:k] + (sym('%x0'),) + ys[k:], {})), bs)
    if any(y[0] in '~@' and y not in ARG for y in t.fv):
        raise OutOfReach('median in a loop')
    key = f'median⟨{n.key}⟩({t.key})'
    EXT[key] = ('median', t, (n,))
    if terms._ispos(t):
        terms.POS.add(key)
        if not eng._strict(t):
            eng.WEAK.add(key)
    return Arr(rest, lambda i, e: S(key, *i))


def np_max(a, axis=None):
    return _extreme('max', a, axis)


def np_min(a, axis=None):
    return _extreme('min', a, axis)


amax, amin = np_max, np_min


def nanmax(a, axis=None):
    return _extreme('max', a, axis, True)


def nanmin(a, axis=None):
    return _extreme('min', a, axis, True)


ARG = {}     # integer symbol of the position of an extremum -> (kind, entry at %x0, length)


def _arg(kind, a):
    """position of an extremum: an integer that stands for it, identified by the entry at an arbitrary index"""
    a = as_arr(a)
    if a.ndim != 1:
        raise OutOfReach('position of an extremum')
    n = pc().norm(a.shape_[0])
    if n.const() == 1:
        return ip(0)
    ints.RANGE['%x0'] = n
    t = eng.decided(lambda: terms.canon(eng._real(a)((sym('%x0'),), {})), ('%x0',))
    _isnan(t)
    t = Term({m: v for m, v in t.d.items() if '%x0' in Term({m: v}).fv})
    if not t.d:
        return ip(0)
    c = terms.common_positive(t, lambda m: False, frozenset(('%x0',)))
    if c:
        t = t * terms.power(Term({c: 1}), -1)
    v = t.d[min(t.d, key=terms.mkey)]
    t = Term({m: terms._q(Fraction(x) / abs(v)) for m, x in t.d.items()})
    if v < 0:
        t, kind = -t, {'max': 'min', 'min': 'max'}[kind]
    if any(y[0] in '~%' and y != '%x0' and y not in ARG for y in t.fv):
        raise OutOfReach('extremum in a loop')
    s = f'~arg{kind}⟨{n.key}|{t.key}⟩'
    ARG[s] = (kind, t, n)
    ints.RANGE[s] = n
    return sym(s)


class finfo:
    def __init__(self, t=None):
        self.eps, self.resolution = (Arr((), lambda i, e, t=t: t) for t in (T(Fraction(1, 2 ** 52)), T(Fraction(1, 10 ** 15))))


def argmax(a, axis=None):
    return si(_arg('max', a))


def argmin(a, axis=None):
    return si(_arg('min', a))


def _nanarg(kind, a):
    a = as_arr(a)
    n = pc().norm(a.shape_[0]).const() if a.ndim == 1 else None
    if n is None or n > 6:
        return si(_arg(kind, a))
    f = eng._real(a)
    r = None
    for k in range(n):
        t = eng.decided(lambda: f((ip(k),), {}))
        if _isnan(t):
            continue
        if r is None or eng.test(RealCond('>', t - r[1] if kind == 'max' else r[1] - t)):
            r = k, t
    if r is None:
        raise ValueError('All-NaN slice encountered')
    return r[0]


def nanargmax(a):
    return _nanarg('max', a)


def nanargmin(a):
    return _nanarg('min', a)


# ---------------------------------------------------------------- products
def dot(a, b):
    a, b = as_arr(a), as_arr(b)
    if a.ndim == 0 or b.ndim == 0:
        return a * b
    if b.ndim > 2:
        raise OutOfReach('dot of tensors')
    return matmul(a, b)


def inner(a, b):
    a, b = as_arr(a), as_arr(b)
    if a.ndim == 0 or b.ndim == 0:
        return a * b
    if b.ndim > 2:
        raise OutOfReach('inner product of tensors')
    return matmul(a, b.T)


def vdot(a, b):
    return matmul(a, b)


def outer(a, b):
    a, b = [x if x.ndim == 1 else ravel(x) for x in (as_arr(a), as_arr(b))]
    f, g = eng._real(a), eng._real(b)
    if a.ndim != 1 or b.ndim != 1:
        raise OutOfReach('outer')
    return Arr((a.shape_[0], b.shape_[0]), lambda i, e: f((i[0],), e) * g((i[1],), e))


def trace(a):
    a = as_arr(a)
    f = eng._real(a)
    eng._same(*a.shape_)
    n = a.shape_[0]
    return Arr((), lambda i, e: sum_range(ip(0), n.subst(e), lambda b: f((b, b), e)))


def tensordot(a, b, axes=2):
    a, b = as_arr(a), as_arr(b)
    f, g = eng._real(a), eng._real(b)
    n = toip(axes).const() if not isinstance(axes, (tuple, list)) else None
    if n is None:
        raise OutOfReach('tensordot')
    na = a.ndim - n
    for k in range(n):
        eng._same(a.shape_[na + k], b.shape_[k])
    con = a.shape_[na:]

    def h(i, e):
        def rec(k, idx):
            if k == n:
                return f(i[:na] + tuple(idx), e) * g(tuple(idx) + i[na:], e)
            return sum_range(ip(0), con[k].subst(e), lambda x: rec(k + 1, idx + [x]))
        return rec(0, [])
    return Arr(a.shape_[:na] + b.shape_[n:], h)


def einsum(spec, *ops, **kw):
    spec = spec.replace(' ', '')
    ops = [as_arr(o) for o in ops]
    if '.' in spec:
        raise OutOfReach('einsum')
    if '->' in spec:
        ins, out = spec.split('->')
    else:
        ins = spec
        cs = ins.replace(',', '')
        out = ''.join(sorted(c for c in set(cs) if cs.count(c) == 1))
    ins = ins.split(',')
    size = {}
    for s, o in zip(ins, ops):
        if len(s) != o.ndim:
            raise ValueError('einsum subscripts')
        for c, n in zip(s, o.shape_):
            if c in size:
                eng._same(size[c], n)
            else:
                size[c] = n
    fs = [eng._real(o) for o in ops]
    con = [c for c in dict.fromkeys(''.join(ins)) if c not in out]

    def g(i, e):
        env = dict(zip(out, i))

        def rec(k):
            if k == len(con):
                r = ONE
                for s, f in zip(ins, fs):
                    r = r * f(tuple(env[c] for c in s), e)
                    if not r.d:
                        break
                return r

            def h(b):
                env[con[k]] = b
                return rec(k + 1)
            return sum_range(ip(0), size[con[k]].subst(e), h)
        return rec(0)
    return Arr([size[c] for c in out], g)


def cumsum(a):
    raise OutOfReach('cumsum')


def array_equal(a, b):
    if a is None or b is None:
        return a is b
    a, b = as_arr(a), as_arr(b)
    if a.mask is not None or b.mask is not None:
        raise OutOfReach('array_equal')
    if a.ndim != b.ndim or any(not eng.test(Cond('==', x - y)) for x, y in zip(a.shape_, b.shape_)):
        return False
    idx = tuple(sym(fresh(x)) for x in a.shape_)
    x, y = eng._real(a)(idx, {}), eng._real(b)(idx, {})
    if NAN in (x, y):
        return False
    if x == y:
        return True
    c = RealCond('==', sumsq(a, b))
    r = eng.decide(c)
    return r if r is not None else SBool(c, True)


def sumsq(a, b):
    """sum of the squares of the differences: zero exactly if two arrays are equal"""
    t = np_sum((a - b) ** 2).fn((), {})
    return t


def triu(a, k=0):
    raise OutOfReach('triu')


def cdist(X, Y, metric='euclidean'):
    X, Y = as_arr(X), as_arr(Y)
    f, g = eng._real(X), eng._real(Y)
    if metric != 'euclidean':
        raise OutOfReach('cdist')
    eng._same(X.shape_[1], Y.shape_[1])
    d = X.shape_[1]

    def h(i, e):
        def k(b):
            t = f((i[0], b), e) - g((i[1], b), e)
            return t * t
        return terms.power(sum_range(ip(0), d.subst(e), k), HALF)
    return Arr((X.shape_[0], Y.shape_[0]), h)


def moveaxis(a, src, dst):
    a = as_arr(a)
    axs = list(range(a.ndim))
    k = axs.pop(src % a.ndim)
    axs.insert(dst % a.ndim, k)
    return transpose(a, axs)


newaxis = None
bool_, int64, e = bool, int, S('e')
terms.POS.add('e')


def expand_dims(a, axis):
    a = as_arr(a)
    n = a.ndim + 1
    k = [slice(None)] * a.ndim
    k.insert(axis % n, None)
    return a[tuple(k)]


def broadcast_to(a, shape):
    a = as_arr(a)
    sh = _dims(shape)
    if a.dtype == 'b':
        raise OutOfReach('broadcast of conditions')
    return Arr(sh, eng.broadcast_to(a, sh))


def ascontiguousarray(a, dtype=None):
    return as_arr(a)


asfortranarray = ascontiguousarray


def ndim(a):
    return as_arr(a).ndim


def shape(a):
    return as_arr(a).shape


def size(a, axis=None):
    return as_arr(a).size if axis is None else as_arr(a).shape[axis]


def isscalar(a):
    return not isinstance(a, (list, tuple, str)) and not (isinstance(a, Arr) and a.ndim)


def take(a, idx, axis=None):
    a = as_arr(a)
    if axis is None and a.ndim != 1:
        raise OutOfReach('take')
    ax = 0 if axis is None else axis % a.ndim
    return a[(slice(None),) * ax + (idx,)]


def flip(a, axis=None):
    a = as_arr(a)
    axs = _axes(a, axis)
    return a[tuple(slice(None, None, -1) if k in axs else slice(None) for k in range(a.ndim))].copy()


def flipud(a): return flip(a, 0)
def fliplr(a): return flip(a, 1)


def delete(a, k, axis=None):
    a = as_arr(a)
    k = toip(k)
    if k is None or axis is None and a.ndim != 1:
        raise OutOfReach('delete')
    ax = 0 if axis is None else axis % a.ndim
    p = si(eng._wrap(k, a.shape_[ax]))
    pre = (slice(None),) * ax
    return concatenate([a[pre + (slice(None, p),)], a[pre + (slice(p + 1, None),)]], ax)


def diff(a, axis=-1):
    a = as_arr(a)
    ax = axis % a.ndim
    pre = (slice(None),) * ax
    n = si(a.shape_[ax])
    return a[pre + (slice(1, n),)] - a[pre + (slice(0, n - 1),)]


def reciprocal(a): return 1 / as_arr(a)


def hypot(a, b):
    return sqrt(as_arr(a) ** 2 + as_arr(b) ** 2)


def ptp(a, axis=None):
    return np_max(a, axis) - np_min(a, axis)


float_power = power


def expm1(a): return exp(a) - 1
def log1p(a): return log(1 + as_arr(a))
def greater(a, b): return as_arr(a) > as_arr(b)
def less(a, b): return as_arr(a) < as_arr(b)
def greater_equal(a, b): return as_arr(a) >= as_arr(b)
def less_equal(a, b): return as_arr(a) <= as_arr(b)
def equal(a, b): return as_arr(a) == as_arr(b)
def not_equal(a, b): return as_arr(a) != as_arr(b)
def logical_not(a): return (not a) if isinstance(a, bool) else ~a
def logical_and(a, b): return as_arr(a) & as_arr(b)
def logical_or(a, b): return as_arr(a) | as_arr(b)


def diagonal(a):
    a = as_arr(a)
    if a.ndim != 2:
        raise OutOfReach('diagonal')
    return diag(a)


def diag_indices(n, ndim=2):
    return (arange(n),) * ndim


diag_indices_from = lambda a: diag_indices(a.shape[0], a.ndim)


def fill_diagonal(a, v):
    if a.ndim != 2:
        raise OutOfReach('fill_diagonal')
    eng._same(*a.shape_)
    n = a.shape_[0]
    a.ensure()
    dims = a._compose([('a', 0, ip(0)), ('a', 0, ip(0))])
    v = as_arr(v)
    a.buf.write(dims, (n,), eng.broadcast_to(v, (n,)))


def ix_(*xs):
    raise OutOfReach('ix_')


def average(a, axis=None):
    return mean(a, axis)


def nanmean(a, axis=None):
    return mean(a, axis)


def subtract_outer(a, b): return as_arr(a)[:, None] - as_arr(b)[None, :]
def add_outer(a, b): return as_arr(a)[:, None] + as_arr(b)[None, :]


subtract.outer, add.outer, multiply.outer = subtract_outer, add_outer, outer


def tril(a, k=0):
    raise OutOfReach('tril')


def copyto(a, b, where=None):
    if where is None:
        a[(slice(None),) * a.ndim] = b
    else:
        a[where] = b


def isclose(a, b, rtol=Fraction(1, 10 ** 5), atol=Fraction(1, 10 ** 8)):
    return absolute(as_arr(a) - as_arr(b)) <= atol + rtol * absolute(as_arr(b))


# ---------------------------------------------------------------- linear algebra
LINM = {}     # name of a matrix -> (entry at the indices %x0, %x1; size)
SPDN = {}     # symbols that are symmetric positive definite -> size
LIND = {}     # symbol of something derived from a matrix -> (what, name of the matrix)


class LinAlgError(Exception):
    pass


def _matrix(A):
    """name of a square matrix, identified by its entry at arbitrary indices"""
    A = as_arr(A)
    if A.ndim != 2:
        raise LinAlgError('not a matrix')
    eng._same(*A.shape_)
    n = pc().norm(A.shape_[0])
    for b in ('%x0', '%x1'):
        ints.RANGE[b] = n
    i, j = sym('%x0'), sym('%x1')
    f = eng._real(A)
    try:
        t = terms.canon(f((i, j), {}))
    except NeedSplit as e:
        if isinstance(e.cond, RealCond) and not ({'%x0', '%x1'} & set(e.cond.syms())):
            raise
        if isinstance(e.cond, RealCond) or e.cond.op != '==' or (e.cond.p - (i - j)).d and (e.cond.p + (i - j)).d:
            raise OutOfReach(f'entry of a matrix depends on {e.cond}')
        # the diagonal is written separately
        q = pc().copy()
        with eng.CtxPush(q):
            q.assume_ne(i - j)
            try:
                t = f((i, j), {})
            except NeedSplit as e:
                if isinstance(e.cond, RealCond) and not ({'%x0', '%x1'} & set(e.cond.syms())):
                    raise
                raise OutOfReach(f'entry of a matrix depends on {e.cond}')
        t = terms.canon(t + terms.delta(i - j) * (f((i, i), {}) - terms.subst(t, {'%x1': i})))
    if any(y[0] in '~%' and y not in ('%x0', '%x1') and y not in ARG for y in t.fv):
        raise OutOfReach('matrix of a loop')
    name = None
    if len(t.d) == 1:
        (m, c), = t.d.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].kind == 's' and m[0][0].name in terms.SYMM \
                and [x.key for x in m[0][0].args] == [i.key, j.key]:
            name = m[0][0].name
    if name is None:
        name = f'⟨{n.key}|{t.key}⟩'
    if name in SPDN:
        n = SPDN[name]
    elif name in LINM and name[0] != '⟨' and LINM[name][1].d != n.d and not n.syms():
        n = LINM[name][1]       # a case in which the size is a number
    LINM[name] = (t, n)
    return name


def derived(what, name):
    s = f'{what}{name}'
    LIND[s] = (what, name)
    if what == 'inv':
        terms.SYMM.add(s)
    if what in ('chol', 'eigval') or what.startswith('cond'):
        terms.POS.add(s)
    return s


def inverse_of(A):
    """entries of the inverse of a symmetric matrix"""
    A = as_arr(A)
    s = derived('inv', _matrix(A))
    return Arr(A.shape_, lambda i, e: S(s, *i))


def chol_diag(A):
    s = derived('chol', _matrix(A))
    return Arr(as_arr(A).shape_[:1], lambda i, e: S(s, *i))


class Chol:
    """triangular factor of a symmetric positive definite matrix; the other triangle holds anything"""
    __array_priority__ = 2000
    ndim = 2

    def __init__(self, A, lower):
        self.A, self.lower = A, lower
        self.shape_ = A.shape_

    @property
    def shape(self):
        return self.A.shape

    def __rmatmul__(self, P):
        P = as_arr(P)
        if P.tag is None or P.tag[0] != 'diag' or not self.lower:
            raise OutOfReach('product with a triangular factor')
        p = P.tag[1]
        return Chol(p[:, None] * self.A * p[None, :], True)

    def __matmul__(self, P):
        P = as_arr(P)
        if P.tag is None or P.tag[0] != 'diag' or self.lower:
            raise OutOfReach('product with a triangular factor')
        p = P.tag[1]
        return Chol(p[:, None] * self.A * p[None, :], False)

    def __rmul__(self, c):
        c = as_arr(c)
        n = self.A.shape_[0]
        one = lambda k: c.shape_[k].const() == 1
        if c.ndim == 2 and self.lower and one(1) and not one(0):        # rows of a lower factor
            eng._same(c.shape_[0], n)
            c = c[:, 0]
        elif not self.lower and (c.ndim == 1 or c.ndim == 2 and one(0) and not one(1)):     # columns of an upper one
            c = c if c.ndim == 1 else c[0]
            eng._same(c.shape_[0], n)
        elif c.ndim:
            raise OutOfReach('product with a triangular factor')
        return Chol((c[:, None] * c[None, :] if c.ndim else c * c) * self.A, self.lower)
    __mul__ = __rmul__

    def __truediv__(self, c):
        return self.__rmul__(1 / as_arr(c))

    def __array_arr__(self):
        raise OutOfReach('entries of a triangular factor')


def cho_factor(a, lower=False, overwrite_a=False, check_finite=True):
    a = as_arr(a)
    a = Arr(a.shape_, eng._real(a))
    if not eng.test(RealCond('>', S(derived('is_pd', _matrix(a))))):
        raise LinAlgError('not positive definite')
    return (Chol(a, lower), lower)


def cholesky(a, lower=False):
    a = as_arr(a)
    if not eng.test(RealCond('>', S(derived('is_pd', _matrix(a))))):
        raise LinAlgError('not positive definite')
    return Chol(a, lower)


def cho_solve(cl, b, overwrite_b=False, check_finite=True):
    c, low = cl
    b = as_arr(b)
    if not isinstance(c, Chol) or b.ndim not in (1, 2):
        raise OutOfReach('cho_solve')
    eng._same(c.A.shape_[0], b.shape_[0])
    if bool(low) != bool(c.lower):
        raise OutOfReach('the wrong triangle of a factor')
    return matmul(inverse_of(c.A), b)


def solve(a, b, **k):
    a, b = as_arr(a), as_arr(b)
    if [pc().norm(x).const() for x in a.shape_] == [1, 1]:
        return b / a[0, 0]
    raise OutOfReach('solve')


def cond(a, p=None):
    m = _matrix(a)
    if m in EIGC and p in (None, 2):
        v = eig(a)[0]
        return v[si(_arg('max', v))] / v[si(_arg('min', v))]
    s = derived(f'cond{p}', m)
    return Arr((), lambda i, e: S(s))


EIGC = set()     # matrices whose condition number is written with their eigenvalues


def eig(a):
    """eigenvalues and eigenvectors of a symmetric matrix, in any order"""
    a = as_arr(a)
    m = _matrix(a)
    if m not in SPDN:
        raise OutOfReach('eigenvectors of a matrix that is not known to be symmetric')
    s, v = derived('eigval', m), derived('eigvec', m)
    return Arr(a.shape_[:1], lambda i, e: S(s, *i)), Arr(a.shape_, lambda i, e: S(v, *i))


def norm(a, ord=None, axis=None):
    a = as_arr(a)
    f = eng._real(a)
    if axis is not None or ord == 1 and a.ndim == 1:
        if axis is None:
            axis = 0
        if isinstance(axis, tuple) or ord not in (None, 1, 2):
            raise OutOfReach('norm')
        if ord == 1:
            return np_sum(abs(a), axis=axis)
        return np_sum(a ** 2, axis=axis) ** Fraction(1, 2)
    if not (ord is None or (ord == 'fro' and a.ndim == 2) or (ord == 2 and a.ndim == 1)):
        raise OutOfReach('norm')
    return Arr((), lambda i, e: terms.power(np_sum(Arr(a.shape_, lambda j, g: f(j, g) ** 2)).fn((), e), Fraction(1, 2)))


def eigvalsh(a):
    a = as_arr(a)
    s = derived('eig', _matrix(a))
    return Arr(a.shape_[:1], lambda i, e: S(s, *i))


# ---------------------------------------------------------------- modules
class Mod(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)

        def bad(*a, **k):
            raise OutOfReach(f'{self.__name__}.{n}')
        return bad


ndarray = Arr
float64 = float
LINALG = Mod('numpy.linalg')
NUMPY = Mod('numpy')
for _k, _v in list(globals().items()):
    if not _k.startswith('_') and _k not in ('Mod', 'sumsq', 'types', 'eng', 'terms', 'ints', 'NUMPY', 'LINALG', 'Fraction', 'Chol', 'ARG', 'LINM', 'SPDN', 'LIND', 'derived', 'inverse_of', 'chol_diag', 'cho_factor', 'cho_solve', 'cholesky', 'solve', 'cond', 'eigvalsh', 'eig', 'norm', 'EIGC', 'LinAlgError'):
        setattr(NUMPY, _k[3:] if _k.startswith('np_') else _k, _v)
NUMPY.linalg = LINALG
LINALG.LinAlgError = LinAlgError
LINALG.solve, LINALG.cond, LINALG.eigvalsh, LINALG.eig, LINALG.eigh, LINALG.norm = solve, cond, eigvalsh, eig, eig, norm
SLINALG = Mod('scipy.linalg')
SLINALG.cho_factor, SLINALG.cho_solve, SLINALG.LinAlgError = cho_factor, cho_solve, LinAlgError
SCIPY = Mod('scipy')
SCIPY.linalg = SLINALG
SPATIAL = Mod('scipy.spatial.distance')
SPATIAL.cdist = cdist
SCIPY.optimize = Mod('scipy.optimize')


class Bounds:
    def __init__(self, lb=None, ub=None, keep_feasible=False):
        self.lb, self.ub, self.keep_feasible = lb, ub, keep_feasible


class NonlinearConstraint:
    def __init__(self, fun, lb, ub, jac='2-point', hess=None, keep_feasible=False, finite_diff_rel_step=None, finite_diff_jac_sparsity=None):
        self.fun, self.lb, self.ub, self.jac, self.hess, self.keep_feasible = fun, lb, ub, jac, hess, keep_feasible


SCIPY.optimize.Bounds, SCIPY.optimize.NonlinearConstraint = Bounds, NonlinearConstraint
OTHER = {}


def _jit(*a, **k):
    if a and callable(a[0]):
        return a[0]
    return lambda f: f


NUMBA = Mod('numba')
NUMBA.jit = _jit
NUMBA.njit = _jit


class _Clock(types.ModuleType):
    @staticmethod
    def time():
        return Arr((), lambda i, e: S('clock'))
    perf_counter = time


TIME = _Clock('time')


def module(name, fromlist):
    if name == 'numpy':
        return NUMPY
    if name == 'numpy.linalg':
        return LINALG if fromlist else NUMPY
    if name == 'numba':
        return NUMBA
    if name == 'time':
        return TIME
    if name == 'scipy.spatial.distance':
        return SPATIAL
    if name == 'scipy.linalg':
        return SLINALG if fromlist else SCIPY
    if name == 'scipy':
        return SCIPY
    if name == 'scipy.optimize':
        return SCIPY.optimize
    if name.split('.')[0] in ('smt', 'tabulate', 'matplotlib', 'sklearn', 'pandas', 'scipy'):
        return OTHER.setdefault(name, Mod(name))
    return None
