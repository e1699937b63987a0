"""Real terms in normal form: sums of monomials over interned atoms, with finite sums over symbolic ranges.

Assumed of the inputs (and listed as such): hyperparameters and sizes are positive, matrices that are factorised are
symmetric and invertible, the arithmetic is that of the real numbers."""
from fractions import Fraction
from itertools import permutations, product
import math

from . import ints
from .ints import IP, ip, sym, Cond, NeedSplit, OutOfReach, PC

ATOMS = {}
MIX = set()      # inputs whose entries may be tiny in a run of the real code
POS = set()          # names of symbols that are positive
SYMM = set()         # names of symbols that are symmetric in their last two indices
ANTI = set()         # antisymmetric in the last two indices
CTX = [PC()]         # what is known, on top of the stack
_fresh = [0]


def pc():
    return CTX[-1]


def fresh(L, tag='~'):
    """a new index symbol with 0 <= s < L"""
    _fresh[0] += 1
    s = f'{tag}{_fresh[0]}'
    ints.RANGE[s] = ip(L)
    return s


class Atom:
    __slots__ = ('kind', 'name', 'args', 'key', 'fv', 'h', 'pos', '_h')
    # kind: 's' symbol (args: IPs), 'sum' (args: ((binder, L), ...), mono), 'exp' (mono), 'log' (Term), 'pow' (Term),
    # 'num' (prime), 'fn' (name, Terms), 'int' (name of an integer symbol), 'd' (Kronecker delta: IP == 0)

    def __repr__(self):
        return self.key

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o

    def __lt__(self, o):
        return self.key < o.key


def _atom(kind, name, args, key, fv, h=0, pos=False):
    a = ATOMS.get(key)
    if a is None:
        a = Atom()
        a.kind, a.name, a.args, a.key, a.fv, a.h, a.pos = kind, name, args, key, frozenset(fv), h, pos
        a._h = hash(key)
        ATOMS[key] = a
    return a


# ---------------------------------------------------------------- terms
def _q(c):
    if isinstance(c, Fraction) and c.denominator == 1:
        return c.numerator
    return c


class Term:
    __slots__ = ('d', '_key', '_fv')

    def __init__(self, d):
        self.d = d
        self._key = None
        self._fv = None

    @property
    def key(self):
        if self._key is None:
            self._key = ' + '.join(f'{c}*{mkey(m)}' for m, c in sorted(self.d.items(), key=lambda t: mkey(t[0]))) or '0'
        return self._key

    @property
    def fv(self):
        if self._fv is None:
            s = set()
            for m in self.d:
                s |= mfv(m)
            self._fv = s
        return self._fv

    def __repr__(self):
        return self.key

    def __hash__(self):
        return hash(self.key)

    def __eq__(self, o):
        return isinstance(o, Term) and self.d == o.d

    def __add__(self, o):
        o = T(o)
        if o is None:
            return NotImplemented
        if not self.d:
            return o
        if not o.d:
            return self
        a, b = (self.d, o.d) if len(self.d) >= len(o.d) else (o.d, self.d)
        d = dict(a)
        for k, v in b.items():
            w = d.get(k, 0) + v
            if w:
                d[k] = _q(w)
            else:
                d.pop(k, None)
        return Term(d)
    __radd__ = __add__

    def __neg__(self):
        return Term({k: -v for k, v in self.d.items()})

    def __sub__(self, o):
        return self + (-T(o))

    def __rsub__(self, o):
        return T(o) - self

    def __mul__(self, o):
        o = T(o)
        if o is None:
            return NotImplemented
        if len(self.d) * len(o.d) > 4000000:
            raise OutOfReach('term too large')
        d = {}
        for k, v in self.d.items():
            for l, w in o.d.items():
                m, c = mmul(k, l)
                if m is None:
                    continue
                x = d.get(m, 0) + v * w * c
                if x:
                    d[m] = _q(x)
                else:
                    d.pop(m, None)
        return Term(d)
    __rmul__ = __mul__

    def __truediv__(self, o):
        return self * power(T(o), -1)

    def __rtruediv__(self, o):
        return T(o) * power(self, -1)

    def __pow__(self, e):
        return power(self, e)

    def const(self):
        if not self.d:
            return 0
        if len(self.d) == 1 and () in self.d:
            return self.d[()]
        return None


def T(x):
    if isinstance(x, Term):
        return x
    if isinstance(x, (int, Fraction)):
        return Term({(): _q(x)}) if x else ZERO
    if isinstance(x, float):
        return const(x)
    if isinstance(x, IP):
        return of_int(x)
    return None


def const(x):
    """a float literal as the decimal number that was written"""
    if isinstance(x, (int, Fraction)):
        return T(x)
    if math.isnan(x) or math.isinf(x):
        return mono_term(_atom('s', repr(x), (), repr(x), ()))
    return T(Fraction(repr(float(x))))


ZERO = Term({})
ONE = Term({(): 1})


def of_int(p):
    r = {}
    for k, v in p.d.items():
        m = ()
        c = v
        for y in k:
            m, c2 = mmul(m, ((int_atom(y), 1),))
            c *= c2
        r[m] = r.get(m, 0) + c
    return Term({k: v for k, v in r.items() if v})


def int_atom(y):
    fv = {y}
    if y in ints._SEL:
        fv |= ints._SEL[y][1].syms()
    return _atom('int', y, (), f'#{y}', fv, 0, not (y.startswith('~') or y.startswith('%') or y in ints._SEL))


def mono_term(a, e=1):
    return Term({((a, e),): 1})


def S(name, *idx):
    """symbol with indices"""
    idx = tuple(pc().norm(ip(i)) for i in idx)
    sign = 1
    if name in SYMM and len(idx) >= 2:
        if idx[-1].key < idx[-2].key:
            idx = idx[:-2] + (idx[-1], idx[-2])
    elif name in ANTI:
        if idx[-1].key == idx[-2].key:
            return ZERO
        if idx[-1].key < idx[-2].key:
            idx = idx[:-2] + (idx[-1], idx[-2])
            sign = -1
    key = f'{name}[{",".join(i.key for i in idx)}]' if idx else name
    fv = set()
    for i in idx:
        fv |= i.syms()
    a = _atom('s', name, idx, key, fv, 0, name in POS or (len(idx) == 2 and f'{name}:diag' in POS and idx[0].key == idx[1].key))
    return Term({((a, 1),): sign})


POS.add('ln10')
LN10 = S('ln10')
_MLN10, = LN10.d


def delta(p):
    """1 if p == 0 else 0"""
    p = pc().norm(ip(p))
    c = p.const()
    if c is not None:
        return ONE if c == 0 else ZERO
    if (-p).key < p.key:
        p = -p
    r = pc().cache.get(('==', p.key))
    if r is not None:
        return ONE if r else ZERO
    return mono_term(_atom('d', '', (p,), f'δ({p.key})', p.syms(), 0, False))


# ---------------------------------------------------------------- monomials: tuples of (atom, exponent) sorted by key
def mkey(m):
    return '·'.join(a.key if e == 1 else f'{a.key}^({e if not isinstance(e, Term) else e.key})' for a, e in m) or '1'


def mfv(m):
    s = set()
    for a, e in m:
        s |= a.fv
        if isinstance(e, Term):
            s |= e.fv
    return s


_mcache = {}


def mmul(k, l):
    """(monomial, coefficient)"""
    if not k:
        return l, 1
    if not l:
        return k, 1
    r = _mcache.get((k, l))
    if r is not None:
        return r
    d = {}
    for a, e in k + l:
        if a in d:
            d[a] = _eadd(d[a], e)
        else:
            d[a] = e
    c = 1
    out = []
    for a, e in d.items():
        if isinstance(e, Term):
            out.append((a, e))
            continue
        if e == 0:
            continue
        if a.kind == 'd':
            e = 1
        elif a.kind == 'num':
            f = e.__floor__() if not isinstance(e, int) else e
            c *= Fraction(a.name) ** f
            e = e - f
            if e == 0:
                continue
        elif a.kind == 'fn' and a.name == 'sign' and isinstance(e, int):
            e = e % 2
            if e == 0:
                continue
        out.append((a, e))
    out.sort(key=lambda t: t[0].key)
    r = (tuple(out), _q(c))
    if len(_mcache) > 2000000:
        _mcache.clear()
    _mcache[(k, l)] = r
    return r


def _eadd(e, f):
    if isinstance(e, Term) or isinstance(f, Term):
        t = T(e) + T(f)
        c = t.const()
        return t if c is None else _q(c)
    return _q(e + f)


def _emul(e, f):
    if isinstance(e, Term) or isinstance(f, Term):
        t = T(e) * T(f)
        c = t.const()
        return t if c is None else _q(c)
    return _q(e * f)


def _factor_num(c, p):
    """c^p for a positive rational c and a rational p, as a Term"""
    c = Fraction(c)
    out = ONE
    for n, s in ((c.numerator, 1), (c.denominator, -1)):
        q = 2
        while n > 1:
            if q * q > n:
                q = n
            k = 0
            while n % q == 0:
                n //= q
                k += 1
            if k:
                m, cc = _num_norm(q, Fraction(k * s) * p)
                out = out * Term({m: cc})
            q += 1 if q == 2 else 2
            if q > 200000:
                raise OutOfReach('radical of a large number')
    return out


def _num_norm(q, e):
    a = _atom('num', str(q), (), f'√{q}', (), 0, True)
    f = e.__floor__()
    c = Fraction(q) ** f
    e = e - f
    return (((a, e),) if e else ()), _q(c)


def positive_atom(a, e):
    if a.pos:
        return True
    return isinstance(e, int) and e % 2 == 0


def power(t, e):
    """t ** e"""
    if isinstance(e, float):
        e = Fraction(repr(e))
    if isinstance(e, IP):
        e = T(e)
    if isinstance(e, Term):
        c = e.const()
        if c is not None:
            e = c
        elif t.const() == 10:
            return exp(e * LN10)
    if not isinstance(e, Term):
        e = _q(Fraction(e))
        if e == 0:
            return ONE
        if e == 1:
            return t
        if isinstance(e, int) and 1 < e <= 6:
            r = t
            for _ in range(e - 1):
                r = r * t
            return r
    if not t.d:
        if isinstance(e, Term):
            raise OutOfReach('power of zero')
        if e < 0:
            raise OutOfReach('division by zero')
        return ZERO
    if len(t.d) == 1:
        (m, c), = t.d.items()
        out = ONE
        if isinstance(e, int):
            out = T(Fraction(c) ** e)
        elif c > 0:
            out = _factor_num(c, e) if not isinstance(e, Term) else (
                ONE if c == 1 else mono_term(_pow_atom(T(c)), e))
        else:
            return mono_term(_pow_atom(t), e)
        rest = ()
        for a, x in m:
            if isinstance(e, int) or positive_atom(a, x):
                if not isinstance(e, int) and not a.pos:
                    a, x = abs_atom(a), x
                if a.kind == 'd':
                    out = out * mono_term(a)
                    continue
                y = _emul(x, e)
                if a.kind == 'num':
                    mm, cc = _num_norm(int(a.name), Fraction(y))
                    out = out * Term({mm: cc})
                elif y != 0:
                    out = out * mono_term(a, y)
            else:
                rest = rest + ((a, x),)
        if rest:
            out = out * mono_term(_pow_atom(Term({rest: 1})), e)
        return out
    # take common positive factors out
    if not isinstance(e, (int, Term)):
        g = common_positive(t)
        if g:
            return power(Term({g: 1}), e) * power(t * power(Term({g: 1}), -1), e)
    cs = [Fraction(v) for v in t.d.values()]
    m0 = min(t.d, key=mkey)
    c0 = abs(Fraction(t.d[m0]))
    if not isinstance(e, Term) and c0 != 1:
        u = Term({k: _q(v / c0) for k, v in t.d.items()})
        return (T(c0 ** e) if isinstance(e, int) else _factor_num(c0, e)) * mono_term(_pow_atom(u), e)
    return mono_term(_pow_atom(t), e)


def common_positive(t, skip=None, bound=frozenset()):
    """greatest monomial of positive atoms that divides every monomial of t (numbers excluded)"""
    g = None
    for m in t.d:
        if skip is not None and skip(m):
            continue
        d = {a: e for a, e in m if a.pos and a.kind not in ('d', 'num') and not (a.fv & bound) and not isinstance(e, Term)}
        if g is None:
            g = d
        else:
            for a in list(g):
                if a not in d or (g[a] > 0) != (d[a] > 0):
                    del g[a]
                elif abs(d[a]) < abs(g[a]):
                    g[a] = d[a]
        if not g:
            return ()
    return tuple(sorted(g.items(), key=lambda q: q[0].key)) if g else ()


def _pow_atom(t):
    return _atom('pow', '', (t,), f'({t.key})', t.fv, _height(t), True)


def abs_atom(a):
    return _atom('fn', 'abs', (mono_term(a),), f'abs({a.key})', a.fv, a.h, True)


def _height(t):
    h = 0
    for m in t.d:
        for a, e in m:
            h = max(h, a.h)
            if isinstance(e, Term):
                h = max(h, _height(e))
    return h


def exp(t):
    out = ONE
    for m, c in t.d.items():
        if not m:
            a = _atom('exp', '', ((),), 'e', (), 0, True)
        else:
            # logarithms of positive things: exp(c log u) = u^c
            if len(m) == 1 and m[0][0].kind == 'log' and m[0][1] == 1:
                out = out * power(m[0][0].args[0], c)
                continue
            logs = [a for a, e in m if a.kind == 'log' and e == 1]
            if len(logs) == 1:
                e = Term({tuple((a, x) for a, x in m if a is not logs[0]): c})
                out = out * power(logs[0].args[0], e)
                continue
            if m == _MLN10:
                out = out * power(T(10), c)
                continue
            a = _atom('exp', '', (m,), f'exp({mkey(m)})', mfv(m), _height(Term({m: 1})), True)
        out = out * mono_term(a, c)
    return out


def log(t):
    if len(t.d) == 1:
        (m, c), = t.d.items()
        if c > 0 and all(a.pos for a, e in m):
            out = ZERO
            k = 0
            c = Fraction(c)
            while c.numerator % 10 == 0:
                c, k = c / 10, k + 1
            while c.denominator % 10 == 0:
                c, k = c * 10, k - 1
            if k:
                out = out + LN10 * k
            if c != 1:
                for n, s in ((Fraction(c).numerator, 1), (Fraction(c).denominator, -1)):
                    q = 2
                    while n > 1:
                        if q * q > n:
                            q = n
                        while n % q == 0:
                            n //= q
                            out = out + mono_term(_log_atom(T(q))) * s
                        q += 1
            for a, e in m:
                if a.kind == 'exp':
                    out = out + Term({a.args[0]: 1}) * e
                elif a.kind == 'num':
                    out = out + mono_term(_log_atom(T(int(a.name)))) * e
                else:
                    out = out + (log(a.args[0]) if a.kind == 'pow' else mono_term(_log_atom(mono_term(a)))) * T(e)
            return out
    g = common_positive(t)
    if g:
        return log(Term({g: 1})) + mono_term(_log_atom(t * power(Term({g: 1}), -1)))
    return mono_term(_log_atom(t))


def _log_atom(t):
    return _atom('log', '', (t,), f'log({t.key})', t.fv, _height(t), False)


def canon(t):
    """indices that a delta identifies are written in one way"""
    if not any(a.kind == 'd' for m in t.d for a, e in m):
        return t
    acc = {}
    for m, c in t.d.items():
        out = {m: c}
        for a, e in m:
            if a.kind != 'd':
                continue
            p = a.args[0]
            best = None
            for y in p.syms():
                cr = p.coeff(y)
                if cr is not None and cr[0].const() in (1, -1) and y not in cr[1].syms():
                    k = (y[0] == '~' and '⟨' not in y, y)
                    if best is None or k > best[0]:
                        best = (k, y, cr)
            if best is None or len(m) == 1:
                continue
            _, y, (g, r) = best
            rest = tuple((x, f) for x, f in m if x is not a)
            if y in mfv(rest):
                u = subst(Term({rest: c}), {y: -r if g.const() == 1 else r}) * mono_term(a)
                out = canon(u).d
                break
        for k, v in out.items():
            acc[k] = acc.get(k, 0) + v
    return Term({k: _q(v) for k, v in acc.items() if v})


def fn(name, *args):
    args = tuple(canon(T(a)) for a in args)
    if name == 'abs':
        c = args[0].const()
        if c is not None:
            return T(abs(c))
        if len(args[0].d) == 1:
            (m, c), = args[0].d.items()
            out = T(abs(c))
            for a, e in m:
                if positive_atom(a, e):
                    out = out * mono_term(a, e)
                elif isinstance(e, int):
                    out = out * mono_term(abs_atom(a), e)
                else:
                    break
            else:
                return out
    if name in ('max', 'min'):
        cs = [a.const() for a in args]
        if all(c is not None for c in cs):
            return T(max(cs) if name == 'max' else min(cs))
        flat = []
        for x in args:
            at = x.d and len(x.d) == 1 and next(iter(x.d.items()))
            if at and at[1] == 1 and len(at[0]) == 1 and at[0][0][1] == 1 and at[0][0][0].kind == 'fn' and at[0][0][0].name == name:
                flat += at[0][0][0].args
            else:
                flat.append(x)
        args = tuple(sorted(set(flat), key=lambda a: a.key))
        if len(args) == 1:
            return args[0]
    fv = set()
    h = 0
    for a in args:
        fv |= a.fv
        h = max(h, _height(a))
    return mono_term(_atom('fn', name, args, f'{name}({"; ".join(a.key for a in args)})', fv, h,
                           name in ('abs',) or (name == 'max' and any(_ispos(a) for a in args)) or (name == 'min' and all(_ispos(a) for a in args))))


def _ispos(t):
    return bool(t.d) and all(c > 0 and all(positive_atom(a, e) for a, e in m) for m, c in t.d.items())


# ---------------------------------------------------------------- substitution of indices
def subst(t, env):
    """replace index symbols"""
    if not env or not t.d:
        return t
    if not (t.fv & env.keys()):
        return t
    out = ZERO
    acc = {}
    for m, c in t.d.items():
        if not (mfv(m) & env.keys()):
            x = acc.get(m, 0) + c
            acc[m] = x
            continue
        r = T(c)
        for a, e in m:
            if a.fv & env.keys() or (isinstance(e, Term) and e.fv & env.keys()):
                ee = subst(e, env) if isinstance(e, Term) else e
                r = r * power(subst_atom(a, env), ee) if ee != 1 else r * subst_atom(a, env)
            else:
                r = r * mono_term(a, e)
            if not r.d:
                break
        for k, v in r.d.items():
            acc[k] = acc.get(k, 0) + v
    return Term({k: _q(v) for k, v in acc.items() if v})


def replace(t, a, v):
    """t with the atom a replaced by the term v (not below sums); unchanged parts stay as they are"""
    out = ZERO
    for m, c in t.d.items():
        if not any(_has(x, a) for x, _ in m):
            out = out + Term({m: c})
            continue
        r = T(c)
        for x, e in m:
            if x is a:
                r = r * power(v, e)
            elif _has(x, a):
                if x.kind == 'pow':
                    u = replace(x.args[0], a, v)
                elif x.kind == 'log':
                    u = log(replace(x.args[0], a, v))
                elif x.kind == 'exp':
                    u = exp(replace(Term({x.args[0]: 1}), a, v))
                else:
                    u = fn(x.name, *[replace(y, a, v) for y in x.args])
                r = r * power(u, e)
            else:
                r = r * mono_term(x, e)
        out = out + r
    return out


def _has(x, a):
    if x is a:
        return True
    if x.kind in ('pow', 'log'):
        return any(_has(y, a) for m in x.args[0].d for y, _ in m)
    if x.kind == 'exp':
        return any(_has(y, a) for y, _ in x.args[0])
    if x.kind == 'fn':
        return any(_has(y, a) for z in x.args if isinstance(z, Term) for m in z.d for y, _ in m)
    return False


def subst_atom(a, env):
    if not (a.fv & env.keys()):
        return mono_term(a)
    if a.kind == 's':
        return S(a.name, *[i.subst(env) for i in a.args])
    if a.kind == 'd':
        return delta(a.args[0].subst(env))
    if a.kind == 'int':
        return T(sym(a.name).subst(env))
    if a.kind == 'sum':
        bs, m = a.args
        ren = {}
        nb = []
        for b, L in bs:
            L2 = L.subst(ren).subst(env)
            f = fresh(L2)
            ren[b] = sym(f)
            nb.append(f)
        body = subst(subst(Term({m: 1}), ren), env)
        for f in reversed(nb):
            body = mk_sum(body, f)
        return body
    if a.kind == 'exp':
        return exp(subst(Term({a.args[0]: 1}), env))
    if a.kind == 'log':
        return log(subst(a.args[0], env))
    if a.kind == 'pow':
        u = subst(a.args[0], env)
        return u if len(u.d) != 1 else u
    if a.kind == 'fn':
        return fn(a.name, *[subst(x, env) for x in a.args])
    raise OutOfReach(f'substitution in {a.kind}')


# ---------------------------------------------------------------- finite sums
def open_sum(a):
    """(list of fresh binders, body Term)"""
    bs, m = a.args
    ren = {}
    nb = []
    for b, L in bs:
        L2 = L.subst(ren)
        f = fresh(L2)
        ren[b] = sym(f)
        nb.append(f)
    return nb, subst(Term({m: 1}), ren)


def in_range(p, L):
    """0 <= p < L: True, or False, or NeedSplit"""
    s = p.as_symbol()
    if s is not None and s in ints.RANGE and ints.RANGE[s].key == ip(L).key:
        return True
    return pc().inside(p, L)


def mk_sum(t, b):
    """sum over the index symbol b in its range"""
    L = pc().norm(ints.RANGE[b])
    if L.const() is not None and L.const() <= 12:
        out = ZERO
        for k in range(L.const()):
            out = out + subst(t, {b: ip(k)})
        return out
    out = ZERO
    for m, c in t.d.items():
        free, dep = [], []
        for a, e in m:
            (dep if (b in a.fv or (isinstance(e, Term) and b in e.fv)) else free).append((a, e))
        r = Term({tuple(free): c})
        if not dep:
            out = out + r * T(L)
            continue
        # Kronecker delta with the binder
        done = False
        for a, e in dep:
            if a.kind != 'd':
                continue
            cr = a.args[0].coeff(b)
            if cr is None or cr[0].const() not in (1, -1):
                continue
            v = cr[1] * (-cr[0].const())
            if b in v.syms():
                continue
            if in_range(v, L):
                rest = Term({tuple((x, y) for x, y in dep if x is not a): 1})
                out = out + r * subst(rest, {b: v})
            done = True
            break
        if done:
            continue
        out = out + r * _component(dep, b)
    return out


def _component(dep, b):
    """sum over b of a product of factors that all depend on b (sums among them are opened)"""
    binders = [b]
    flat = []
    work = list(dep)
    while work:
        a, e = work.pop()
        if a.kind == 'sum' and isinstance(e, int) and e >= 1:
            for _ in range(e):
                nb, body = open_sum(a)
                binders += nb
                (m, c), = body.d.items()
                assert c == 1
                work += list(m)
        else:
            flat.append((a, e))
    m = ()
    c = 1
    for x in flat:
        m, c2 = mmul(m, (x,))
        c *= c2
    # opening may produce deltas or cancel factors: go through mk_sum again if something changed
    return sum_atom(binders, m) * T(c) if _connected(binders, m) else _resum(binders, m, c)


def _connected(binders, m):
    if len(binders) == 1:
        return binders[0] in mfv(m)
    adj = {x: set() for x in binders}
    bs = set(binders)
    groups = [a.fv | (e.fv if isinstance(e, Term) else set()) for a, e in m]
    groups += [{x} | ints.RANGE[x].syms() for x in binders]
    for g in groups:
        g = g & bs
        for x in g:
            adj[x] |= g
    seen, st = set(), [binders[0]]
    while st:
        x = st.pop()
        if x not in seen:
            seen.add(x)
            st += list(adj[x])
    return seen == bs and all(any(x in a.fv for a, e in m) for x in binders)


def _resum(binders, m, c):
    t = Term({m: c})
    for x in reversed(binders):
        t = mk_sum(t, x)
    return t


def sum_atom(binders, m):
    h = 1 + max([a.h for a, e in m] + [_height(e) for a, e in m if isinstance(e, Term)] + [0])
    names = [f'%{h}.{i}' for i in range(len(binders))]
    if len(binders) == 1:
        orders = [tuple(binders)]
    else:
        sig = {}
        others = {}
        for x in binders:
            ren = {y: sym('%*') for y in binders if y != x}
            ren[x] = sym('%@')
            ks = []
            for a, e in m:
                if x in a.fv:
                    try:
                        ks.append(_sig(a, ren) + str(e if not isinstance(e, Term) else e.key))
                    except OutOfReach:
                        ks.append('?')
            sig[x] = (ints.RANGE[x].subst(ren).key, tuple(sorted(ks)))
        groups = {}
        for x in binders:
            groups.setdefault(sig[x], []).append(x)
        n = 1
        for g in groups.values():
            n *= math.factorial(len(g))
        if n > 5040:
            raise OutOfReach('too many summation indices of the same form')
        orders = [sum(o, ()) for o in product(*[list(permutations(groups[s])) for s in sorted(groups)])]
    best = {}
    for o in orders:
        ren = {x: sym(y) for x, y in zip(o, names)}
        t = subst(Term({m: 1}), ren)
        if len(t.d) != 1:
            raise OutOfReach('canonical form of a sum')
        (mm, c), = t.d.items()
        Ls = tuple((names[i], ints.RANGE[x].subst(ren)) for i, x in enumerate(o))
        best.setdefault((mkey(mm), tuple(l.key for _, l in Ls)), {})[c] = (mm, Ls)
    k = min(best)
    if len(best[k]) > 1:
        return ZERO              # it equals its negative
    (c, (mm, Ls)), = best[k].items()
    key = 'Σ[' + ','.join(f'{n}<{l.key}' for n, l in Ls) + ']{' + mkey(mm) + '}'
    fv = mfv(mm)
    for n, l in Ls:
        fv = fv | l.syms()
    fv = fv - set(names)
    return Term({((_atom('sum', '', (Ls, mm), key, fv, h, all(positive_atom(a, e) for a, e in mm)), 1),): c})


def _sig(a, ren):
    if a.kind == 's':
        ks = [i.subst(ren).key for i in a.args]
        if a.name in SYMM or a.name in ANTI:
            ks[-2:] = sorted(ks[-2:])
        return a.name + ','.join(ks)
    if a.kind in ('d',):
        return 'd' + a.args[0].subst(ren).key
    return a.kind


# ---------------------------------------------------------------- derivatives
def D(t, datom):
    """derivative; datom(atom) -> Term for symbols ('s', 'fn'), called for each symbol"""
    out = ZERO
    for m, c in t.d.items():
        for i, (a, e) in enumerate(m):
            rest = Term({m[:i] + m[i + 1:]: c})
            da = _datom(a, datom)
            if da is not None and da.d:
                if isinstance(e, Term):
                    out = out + rest * mono_term(a, _eadd(e, -1)) * e * da
                elif e == 1:
                    out = out + rest * da
                else:
                    out = out + rest * mono_term(a, _eadd(e, -1)) * e * da
            if isinstance(e, Term):
                de = D(e, datom)
                if de.d:
                    out = out + Term({m: c}) * de * log(mono_term(a) if a.kind != 'pow' else a.args[0])
    return out


def _datom(a, datom):
    if a.kind == 's':
        return datom(a)
    if a.kind in ('num', 'int', 'd'):
        return None
    if a.kind == 'sum':
        nb, body = open_sum(a)
        r = D(body, datom)
        for f in reversed(nb):
            r = mk_sum(r, f)
        return r
    if a.kind == 'exp':
        r = D(Term({a.args[0]: 1}), datom)
        return r * mono_term(a) if r.d else None
    if a.kind == 'log':
        r = D(a.args[0], datom)
        return r * power(a.args[0], -1) if r.d else None
    if a.kind == 'pow':
        return D(a.args[0], datom)
    if a.kind == 'fn':
        r = datom(a)
        if r is not None:
            return r
        ds = [D(x, datom) for x in a.args]
        if not any(x.d for x in ds):
            return None
        if a.name == 'abs':
            return fn('sign', a.args[0]) * ds[0]
        if a.name == 'sign':
            return None
        raise OutOfReach(f'derivative of {a.name}')
    raise OutOfReach(f'derivative of {a.kind}')


# ---------------------------------------------------------------- is it zero
def settle(t):
    """normalise indices and deltas with what is known; NeedSplit on an undecided delta"""
    s = pc().sub
    if s:
        t = subst(t, {k: v for k, v in s.items() if k in t.fv})
    again = True
    while again:
        again = False
        for m in t.d:
            for a, e in m:
                if a.kind == 'd':
                    r = pc().must(Cond('==', a.args[0]))
                    out = {}
                    acc = ZERO
                    for m2, c in t.d.items():
                        if any(x is a for x, _ in m2):
                            if r:
                                m3 = tuple((x, y) for x, y in m2 if x is not a)
                                out[m3] = out.get(m3, 0) + c
                        else:
                            out[m2] = out.get(m2, 0) + c
                    t = Term({k: _q(v) for k, v in out.items() if v})
                    again = True
                    break
            if again:
                break
    return t


def clear_pow(t, depth=0):
    """bring powers of sums to a common lowest exponent per class modulo one and expand"""
    for _ in range(12):
        pows = {}
        for m in t.d:
            for a, e in m:
                if a.kind == 'pow':
                    pows.setdefault(a, set())
        if not pows:
            return t
        a = max(pows, key=lambda x: (x.h, len(x.args[0].d), x.key))
        # group the monomials by class of exponent
        out = ZERO
        classes = {}
        for m, c in t.d.items():
            e = 0
            for x, y in m:
                if x is a:
                    e = y
            base = tuple((x, y) for x, y in m if x is not a)
            if isinstance(e, Term):
                ce = e.d.get((), 0)
                k = (Term({p: q for p, q in e.d.items() if p != ()}).key, Fraction(ce) - Fraction(ce).__floor__())
                n = Fraction(ce).__floor__()
                rep = e - n
            else:
                n = Fraction(e).__floor__()
                k = ('', Fraction(e) - n)
                rep = _q(Fraction(e) - n)
            classes.setdefault(k, [rep, []])[1].append((n, base, c))
        done = True
        for k, (rep, l) in classes.items():
            lo = min(n for n, _, _ in l)
            s = ZERO
            ups = {}
            for n, base, c in l:
                ups.setdefault(n - lo, {})
                ups[n - lo][base] = ups[n - lo].get(base, 0) + c
            p = ONE
            cur = 0
            for u in sorted(ups):
                while cur < u:
                    p = p * a.args[0]
                    cur += 1
                s = s + p * Term({x: y for x, y in ups[u].items() if y})
            s = clear_pow(s, depth + 1)
            if s.d:
                return s      # not zero: the rest does not matter
        return ZERO
    raise OutOfReach('powers of sums')


def is_zero(t):
    t = settle(t)
    if not t.d:
        return True
    return not clear_pow(t).d


# ---------------------------------------------------------------- numbers
class Val:
    """values of the symbols: sizes and index symbols as integers, symbols by a function"""

    def __init__(self, ints_, real, masks=None):
        self.i, self.real, self.masks = dict(ints_), real, masks or {}

    def int(self, p):
        r = 0
        for k, v in p.d.items():
            t = v
            for y in k:
                t *= self.isym(y)
            r += t
        return r

    def isym(self, y):
        if y in self.i:
            return self.i[y]
        if y in ints._SEL:
            m, p = ints._SEL[y]
            return self.masks[m][self.int(p)]
        raise KeyError(y)


def num(t, val):
    r = 0.0
    for m, c in t.d.items():
        x = float(c)
        if any(a.kind == 'd' and val.int(a.args[0]) != 0 for a, e in m):
            continue
        for a, e in m:
            if x == 0:
                break
            x *= _num_atom(a, e, val)
        r += x
    return r


def _num_atom(a, e, val):
    ee = num(e, val) if isinstance(e, Term) else (e if isinstance(e, int) else float(e))
    k = a.kind
    if k == 's':
        v = val.real(a.name, tuple(val.int(i) for i in a.args))
    elif k == 'd':
        return 1.0 if val.int(a.args[0]) == 0 else 0.0
    elif k == 'int':
        v = float(val.isym(a.name))
    elif k == 'num':
        v = float(a.name)
    elif k == 'exp':
        v = math.exp(num(Term({a.args[0]: 1}), val))
    elif k == 'log':
        v = math.log(num(a.args[0], val))
    elif k == 'pow':
        v = num(a.args[0], val)
        if v < 0 and ee != int(ee):
            # nothing but a difference of equal terms
            if -v <= 1e-12 * sum(abs(num(Term({q: c}), val)) for q, c in a.args[0].d.items()):
                v = 0.0
    elif k == 'sum':
        v = _num_sum(list(a.args[0]), a.args[1], val)
    elif k == 'fn':
        xs = [num(x, val) for x in a.args]
        v = {'abs': abs, 'max': lambda *q: max(q), 'min': lambda *q: min(q), 'sign': lambda q: int(q > 0) - int(q < 0),
             'erf': math.erf}[a.name](*xs)
    else:
        raise KeyError(k)
    return v ** ee if ee != 1 else v


def _num_sum(bs, m, val):
    if not bs:
        return num(Term({m: 1}), val)
    b, L = bs[0]
    n = val.int(L)
    r = 0.0
    old = val.i.get(b)
    for k in range(n):
        val.i[b] = k
        r += _num_sum(bs[1:], m, val)
    if old is None:
        val.i.pop(b, None)
    else:
        val.i[b] = old
    return r


# ---------------------------------------------------------------- replacement of symbols by terms
def tmap(t, f):
    """replace symbols: f(atom) -> Term, or None to keep it"""
    acc = ZERO
    for m, c in t.d.items():
        r = T(c)
        for a, e in m:
            u = _tmap_atom(a, f)
            ee = tmap(e, f) if isinstance(e, Term) else e
            r = r * (u if ee == 1 else power(u, ee))
            if not r.d:
                break
        acc = acc + r
    return acc


def _tmap_atom(a, f):
    if a.kind == 's':
        r = f(a)
        return mono_term(a) if r is None else r
    if a.kind in ('num', 'int', 'd'):
        return mono_term(a)
    if a.kind == 'sum':
        nb, body = open_sum(a)
        r = tmap(body, f)
        for b in reversed(nb):
            r = mk_sum(r, b)
        return r
    if a.kind == 'exp':
        return exp(tmap(Term({a.args[0]: 1}), f))
    if a.kind == 'log':
        return log(tmap(a.args[0], f))
    if a.kind == 'pow':
        return tmap(a.args[0], f)
    if a.kind == 'fn':
        return fn(a.name, *[tmap(x, f) for x in a.args])
    raise OutOfReach(f'replacement in {a.kind}')
