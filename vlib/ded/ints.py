"""Integer terms: polynomials with integer coefficients over size and index symbols, and their decision procedure."""
from itertools import combinations_with_replacement
import random
import time

RNG = random.Random(7)

STATS = dict(queries=0, time=0.0)

_SEL = {}      # name of a mask selection symbol -> (mask name, position)
RANGE = {}     # index symbol -> length: 0 <= s < length
SIZES = {}     # mask name -> (number of selected points, number of points)


class IP:
    __slots__ = ('d', 'key', '_h')

    def __init__(self, d):
        self.d = d
        self.key = _key(d)
        self._h = hash(self.key)

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        if isinstance(o, int):
            o = ip(o)
        return isinstance(o, IP) and self.key == o.key

    def __repr__(self):
        return self.key

    def __add__(self, o):
        if not isinstance(o, (IP, int)):
            return NotImplemented
        o = ip(o)
        d = dict(self.d)
        for k, v in o.d.items():
            w = d.get(k, 0) + v
            if w:
                d[k] = w
            else:
                d.pop(k, None)
        return IP(d)
    __radd__ = __add__

    def __neg__(self):
        return IP({k: -v for k, v in self.d.items()})

    def __sub__(self, o):
        if not isinstance(o, (IP, int)):
            return NotImplemented
        return self + (-ip(o))

    def __rsub__(self, o):
        return ip(o) - self

    def __mul__(self, o):
        if not isinstance(o, (IP, int)):
            return NotImplemented
        o = ip(o)
        d = {}
        for k, v in self.d.items():
            for l, w in o.d.items():
                m = tuple(sorted(k + l))
                x = d.get(m, 0) + v * w
                if x:
                    d[m] = x
                else:
                    d.pop(m, None)
        return IP(d)
    __rmul__ = __mul__

    def const(self):
        if not self.d:
            return 0
        if len(self.d) == 1 and () in self.d:
            return self.d[()]
        return None

    def syms(self):
        """symbols, those inside of a selection symbol included"""
        s = set()
        for k in self.d:
            for y in k:
                s.add(y)
                if y in _SEL:
                    s |= _SEL[y][1].syms()
        return s

    def subst(self, env):
        if not env or not self.d:
            return self
        if not (self.syms() & set(env)):
            return self
        r = ip(0)
        for k, v in self.d.items():
            t = ip(v)
            for y in k:
                if y in env:
                    t = t * env[y]
                elif y in _SEL:
                    m, p = _SEL[y]
                    t = t * sel(m, p.subst(env))
                else:
                    t = t * sym(y)
            r = r + t
        return r

    def coeff(self, s):
        """(q, r) with self = q * s + r and r free of s (only if self is linear in s)"""
        q, r = {}, {}
        for k, v in self.d.items():
            n = k.count(s)
            if n == 0:
                r[k] = v
            elif n == 1:
                l = list(k)
                l.remove(s)
                q[tuple(l)] = v
            else:
                return None
        return IP(q), IP(r)

    def as_symbol(self):
        if len(self.d) == 1:
            (k, v), = self.d.items()
            if v == 1 and len(k) == 1:
                return k[0]
        return None


def _key(d):
    if not d:
        return '0'
    out = []
    for k in sorted(d):
        v = d[k]
        out.append(str(v) if not k else ('' if v == 1 else str(v) + '*') + '*'.join(k))
    return '+'.join(out)


def ip(x):
    if isinstance(x, IP):
        return x
    x = int(x)
    return IP({(): x}) if x else ZERO


def sym(s):
    return IP({(s,): 1})


ZERO = IP({})
ONE = IP({(): 1})


def sel(mask, p):
    """position in the data set of the p-th selected point of a mask"""
    p = ip(p)
    cnt, tot = SIZES.get(mask, (None, None))
    if cnt is not None and cnt.key == tot.key:
        return p        # everything is selected (lemma mask_all)
    name = f'sel<{mask}>({p.key})'
    _SEL[name] = (mask, p)
    return sym(name)


# ---------------------------------------------------------------- conditions
class Cond:
    """op in '==', '>=' on an integer polynomial (compared with zero)"""
    __slots__ = ('op', 'p')

    def __init__(self, op, p):
        self.op, self.p = op, p

    def neg(self):
        return [Cond('>=', self.p - 1), Cond('>=', -self.p - 1)] if self.op == '==' else [Cond('>=', -self.p - 1)]

    def __repr__(self):
        return f'{self.p.key} {self.op} 0'

    def subst(self, env):
        return Cond(self.op, self.p.subst(env))


class NeedSplit(Exception):
    """The condition is not decided by what is known."""

    def __init__(self, cond):
        self.cond = cond
        super().__init__(repr(cond))


class OutOfReach(Exception):
    pass


class PC:
    """What is known about the integers: equalities (as a substitution), inequalities (>= 0) and disequalities."""

    def __init__(self, facts=(), sub=None, ne=(), real=None):
        self.facts = list(facts)
        self.sub = dict(sub or {})
        self.ne = list(ne)
        self.real = dict(real or {})     # what is known about real terms: key -> sign
        self.cache = {}
        self.memo = {}
        self.parent = None
        self._sol = None
        self.models = None

    def copy(self):
        q = PC(self.facts, self.sub, self.ne, self.real)
        q.parent = self
        if self.models is not None:
            q.models = [dict(m) for m in self.models]
        return q

    # -- small models of what is known: witnesses that something is not decided
    def _value(self, m, y):
        """value of a symbol in a model, chosen if it has none; None if that is impossible"""
        v = m.get(y)
        if v is not None:
            return v
        if y in self.sub:
            v = self._eval(m, self.sub[y])
            if v is not None and y in RANGE:
                n = self._eval(m, self.norm(RANGE[y]))
                if n is None or not 0 <= v < n:
                    return None
        elif y in _SEL:
            mk, p = _SEL[y]
            p = self._eval(m, self.norm(p))
            tot = self._eval(m, self.norm(SIZES[mk][1]))
            if p is None or tot is None:
                return None
            cnt = self._eval(m, self.norm(SIZES[mk][0]))
            if cnt is None or cnt > tot or not 0 <= p < cnt:
                return None
            pos = m.get('sub ' + mk)
            if pos is None:
                pos = m['sub ' + mk] = tuple(sorted(RNG.sample(range(tot), cnt)))
            if len(pos) != cnt:
                return None
            v = pos[p]
        elif y in RANGE:
            n = self._eval(m, self.norm(RANGE[y]))
            if n is None or n <= 0:
                return None
            v = RNG.randint(0, n - 1)
        elif y[0] in '~%@':
            v = RNG.randint(0, 4)
        else:
            v = RNG.randint(1, 4)
        if v is None:
            return None
        m[y] = v
        return v

    def _eval(self, m, p):
        r = 0
        for k, c in p.d.items():
            for y in k:
                v = self._value(m, y)
                if v is None:
                    return None
                c = c * v
            r += c
        return r

    def _ok(self, m):
        for mk, (cnt, tot) in SIZES.items():
            c = cnt.as_symbol()
            if c in m:
                a, b = self._eval(m, cnt), self._eval(m, self.norm(tot))
                if a is None or b is None or a > b:
                    return False
        for f in self.facts:
            v = self._eval(m, f)
            if v is None or v < 0:
                return False
        for f in self.ne:
            v = self._eval(m, f)
            if v is None or v == 0:
                return False
        return True

    def witnesses(self, p):
        """values of p in some models"""
        if self.models is None:
            self.models = []
        out = []
        good = []
        for m in self.models:
            n = len(m)
            v = self._eval(m, p)
            if v is None or (len(m) != n and not self._ok(m)):
                continue
            good.append(m)
            out.append(v)
        self.models = good
        if len(good) < 6:
            for _ in range(60):
                m = {}
                if not self._ok(m):
                    continue
                v = self._eval(m, p)
                if v is None or not self._ok(m):
                    continue
                good.append(m)
                out.append(v)
                if len(good) >= 16:
                    break
        return out

    def _filter(self):
        if self.models:
            self.models = [m for m in self.models if self._ok(m)]

    def quick_ge(self, p):
        """p >= 0 from the ranges of the indices and the sizes being at least one"""
        for _ in range(4):
            ys = sorted((y for k in p.d for y in k if y in RANGE or y in _SEL), key=lambda y: y)
            if not ys:
                break
            y = ys[-1]
            n = self.norm(SIZES[_SEL[y][0]][1]) if y in _SEL else self.norm(RANGE[y])
            out = ip(0)
            for k, v in p.d.items():
                c = k.count(y)
                if c == 0:
                    out = out + IP({k: v})
                elif v < 0:
                    if c > 1:
                        return False
                    l = list(k)
                    l.remove(y)
                    out = out + IP({tuple(l): v}) * (n - 1)
            p = out
        if any(y[0] in '~%@' or y in _SEL for k in p.d for y in k):
            return False
        if all(v >= 0 for v in p.d.values()):
            return True
        # sizes = 1 + something
        r = {}
        for k, v in p.d.items():
            for m in range(1 << len(k)):
                l = tuple(k[j] for j in range(len(k)) if m >> j & 1)
                r[l] = r.get(l, 0) + v
        return all(v >= 0 for v in r.values())

    def memo_get(self, key):
        q = self
        while q is not None:
            r = q.memo.get(key)
            if r is not None:
                return r
            q = q.parent
        return None

    def memo_clear(self):
        self.memo = {}

    def norm(self, p):
        p = ip(p)
        if self.sub:
            for _ in range(8):
                q = p.subst(self.sub)
                if q.key == p.key:
                    break
                p = q
        return p

    def assume(self, cond):
        """False if it contradicts what is known"""
        r = self._assume(cond)
        if r:
            self._filter()
        return r

    def _assume(self, cond):
        p = self.norm(cond.p)
        c = p.const()
        self._sol = None
        self.cache = {}
        if cond.op == '==':
            if c is not None:
                return c == 0
            # injectivity of a selection
            if len(p.d) == 2 and sorted(p.d.values()) == [-1, 1]:
                ks = [k for k in p.d]
                if all(len(k) == 1 and k[0] in _SEL for k in ks):
                    (m1, p1), (m2, p2) = _SEL[ks[0][0]], _SEL[ks[1][0]]
                    if m1 == m2:
                        return self._assume(Cond('==', p1 - p2))
            ab = self.split_eq(p)
            if ab is not None:
                return self._assume(Cond('==', ab[0])) and self._assume(Cond('==', ab[1]))
            for k, v in sorted(p.d.items()):
                if len(k) == 1 and v in (1, -1) and k[0] not in _SEL:
                    rest = IP({a: b for a, b in p.d.items() if a != k})
                    e = rest * (-v)
                    if k[0] in e.syms():
                        continue
                    self.sub[k[0]] = e
                    self.facts = [f.subst({k[0]: e}) for f in self.facts]
                    self.ne = [f.subst({k[0]: e}) for f in self.ne]
                    self.sub = {a: b.subst({k[0]: e}) for a, b in self.sub.items()}
                    if k[0] in RANGE and (len(e.d) > 1 or any(c < 0 or len(x) != 1 for x, c in e.d.items())):
                        self.facts += [f for f in (e, self.norm(RANGE[k[0]]) - 1 - e) if f.const() is None or f.const() < 0]
                    elif k[0] in RANGE:
                        f = self.norm(RANGE[k[0]]) - 1 - e
                        if f.const() is None or f.const() < 0:
                            self.facts.append(f)
                    break
            else:
                self.facts += [p, -p]
            return not any(f.const() is not None and f.const() < 0 for f in self.facts) and \
                not any(f.const() == 0 for f in self.ne)
        if c is not None:
            return c >= 0
        if any(f.key == (-p).key for f in self.facts):
            return self._assume(Cond('==', p))
        self.facts.append(p)
        return True

    def assume_ne(self, p):
        p = self.norm(p)
        self._sol = None
        self.cache = {}
        c = p.const()
        if c is not None:
            return c != 0
        ab = self.split_eq(p)
        if ab is not None:
            if not ab[1].d:
                return self.assume_ne(ab[0])
            if self.decide(Cond('==', ab[0])):
                return self.assume_ne(ab[1])
            self.cache = {}
        self.ne.append(p)
        self._filter()
        return True

    def assume_neg(self, cond):
        if cond.op == '==':
            return self.assume_ne(cond.p)
        return self.assume(cond.neg()[0])

    # -- decision: linear integer arithmetic over monomials, with products of pairs of facts
    def _all_facts(self, extra):
        fs = list(self.facts)
        seen = set()
        # ranges of the index symbols and of the selections
        work = [y for f in fs + self.ne + extra for y in _allsyms(f)]
        while work:
            y = work.pop()
            if y in seen:
                continue
            seen.add(y)
            if y in _SEL:
                n = self.norm(SIZES[_SEL[y][0]][1])
            elif y in RANGE:
                n = self.norm(RANGE[y])
            elif y[0] not in '~%@':
                # a size: positive
                fs.append(sym(y) - 1)
                for cnt, tot in SIZES.values():
                    if cnt.as_symbol() == y:
                        fs.append(self.norm(tot) - sym(y))
                        work += list(_allsyms(tot))
                continue
            else:
                continue
            s = sym(y)
            fs += [s, n - 1 - s]
            work += list(_allsyms(n))
        base = [f for f in fs if len(f.d) <= 4]
        prods = []
        if any(any(len(k) > 1 for k in f.d) for f in fs + extra):
            for f, g in combinations_with_replacement(base, 2):
                if f.const() is None and g.const() is None:
                    prods.append(f * g)
        return fs + prods

    def split_eq(self, p):
        """(a, b) with p == 0 exactly if a == 0 and b == 0, for p = g * a + b with a size g > |b|; None"""
        if not any(len(k) > 1 for k in p.d):
            return None
        for g in sorted({y for k in p.d if len(k) > 1 for y in k if y not in RANGE and y not in _SEL and y[0] not in '~%@'}):
            cr = p.coeff(g)
            if cr is None or g in cr[0].syms() or g in cr[1].syms():
                continue
            a, b = cr
            if a.const() is not None:
                continue
            if not b.d or (self.quick_ge(b + sym(g) - 1) and self.quick_ge(sym(g) - 1 - b)):
                return a, b
        return None

    def decide(self, cond):
        """True, False or None"""
        p = self.norm(cond.p)
        c = p.const()
        if c is not None:
            return c == 0 if cond.op == '==' else c >= 0
        k = (cond.op, p.key)
        if k in self.cache:
            return self.cache[k]
        r = self._decide(cond.op, p)
        self.cache[k] = r
        return r

    def _decide(self, op, p):
        if op == '==' and len(p.d) == 2 and sorted(p.d.values()) == [-1, 1]:
            ks = list(p.d)
            if all(len(k) == 1 and k[0] in _SEL for k in ks):
                (m1, p1), (m2, p2) = _SEL[ks[0][0]], _SEL[ks[1][0]]
                if m1 == m2:
                    return self.decide(Cond('==', p1 - p2))
        if op == '==':
            ab = self.split_eq(p)
            if ab is not None:
                r = self.decide(Cond('==', ab[0]))
                if r is False:
                    return False
                t = self.decide(Cond('==', ab[1]))
                return False if t is False else (True if r and t else None)
            for f in self.ne:
                if f.key == p.key or (-f).key == p.key:
                    return False
        if op == '>=':
            if self.quick_ge(p):
                return True
            if self.quick_ge(-p - 1):
                return False
            w = self.witnesses(p)
            if not any(v < 0 for v in w) and self._unsat([-p - 1]):
                return True
            if not any(v >= 0 for v in w) and self._unsat([p]):
                return False
            return None
        if self.quick_ge(p - 1) or self.quick_ge(-p - 1):
            return False
        w = self.witnesses(p)
        if not any(v for v in w) and self._unsat([p - 1]) and self._unsat([-p - 1]):
            return True
        if not any(v == 0 for v in w) and self._unsat([p, -p]):
            return False
        return None

    def _unsat(self, extra):
        import z3
        if self._sol is None:
            self._sol = {}
        key = tuple(e.key for e in extra)
        if key in self._sol:
            return self._sol[key]
        STATS['queries'] += 1
        t0 = time.time()
        fs = self._all_facts(extra) + list(extra)
        vs = {}
        s = z3.SolverFor('QF_LIA')
        s.set('timeout', 3000)

        def lin(f):
            t = f.d.get((), 0)
            for k, v in f.d.items():
                if k:
                    if k not in vs:
                        vs[k] = z3.Int('*'.join(k))
                    t = t + v * vs[k]
            return t
        for f in fs:
            s.add(lin(f) >= 0)
        for f in self.ne:
            s.add(lin(f) != 0)
        r = s.check() == z3.unsat
        STATS['time'] += time.time() - t0
        self._sol[key] = r
        return r

    def consistent(self):
        if self.witnesses(ip(0)):
            return True
        return not self._unsat([])

    # -- helpers
    def ge(self, p, q=0):
        return self.decide(Cond('>=', ip(p) - ip(q)))

    def eq(self, p, q):
        return self.decide(Cond('==', ip(p) - ip(q)))

    def must(self, cond):
        r = self.decide(cond)
        if r is None:
            p = self.norm(cond.p)
            if cond.op == '==':
                ab = self.split_eq(p)
                while ab is not None:
                    p = ab[1] if self.decide(Cond('==', ab[0])) else ab[0]
                    ab = self.split_eq(p)
            raise NeedSplit(Cond(cond.op, p))
        return r

    def radix(self, t, g):
        """(q, r) with t = q * g + r and 0 <= r < g known, or None"""
        t, g = self.norm(t), self.norm(g)
        s = g.as_symbol()
        if s is None:
            c = g.const()
            if c is not None and c > 0:
                tc = t.const()
                if tc is not None:
                    return ip(tc // c), ip(tc % c)
                q = IP({k: v // c for k, v in t.d.items() if v % c == 0 and k != ()})
                r = t - q * c
                if self.ge(r) and self.ge(g - 1 - r):
                    return q, r
            # product of sizes
            if len(g.d) == 1:
                (k, v), = g.d.items()
                if v == 1:
                    q, r = {}, {}
                    for m, w in t.d.items():
                        l = list(m)
                        ok = True
                        for y in k:
                            if y in l:
                                l.remove(y)
                            else:
                                ok = False
                        if ok:
                            q[tuple(l)] = w
                        else:
                            r[m] = w
                    q, r = IP(q), IP(r)
                    if self.ge(r) and self.ge(g - 1 - r):
                        return q, r
            # a symbol plus something
            for y in sorted(g.syms()):
                gc = g.coeff(y)
                if gc is not None and gc[0].const() == 1 and y not in gc[1].syms():
                    tc = t.coeff(y)
                    if tc is not None and y not in tc[0].syms() and y not in tc[1].syms():
                        q, r = tc[0], self.norm(tc[1] - tc[0] * gc[1])
                        if self.ge(r) and self.ge(g - 1 - r):
                            return q, r
            return None
        cr = t.coeff(s)
        if cr is None:
            return None
        q, r = cr
        if self.ge(r) and self.ge(g - 1 - r):
            return q, r
        # r may be -1 below (r + g in range)
        for k in (1, -1):
            if self.ge(r + g * k) and self.ge(g - 1 - r - g * k):
                return q - k, r + g * k
        return None

    def inside(self, t, length):
        """0 <= t < length; raises NeedSplit on the simplest undecided condition"""
        t, length = self.norm(t), self.norm(length)
        a = self.ge(t)
        if a is False:
            return False
        b = self.ge(length - 1 - t)
        if b is False:
            return False
        if a and b:
            return True
        if length.as_symbol() is not None or len(length.d) == 1:
            qr = self.radix(t, length)
            if qr is not None:
                return self.must(Cond('==', qr[0]))
        # blocks: length = m * g and t = q * g + r
        for s in sorted({y for k in length.d for y in k}):
            cr = length.coeff(s)
            if cr is None or cr[1].d or not cr[0].d:
                continue
            qr = self.radix(t, sym(s))
            if qr is not None:
                if not self.must(Cond('>=', qr[0])):
                    return False
                return self.must(Cond('>=', cr[0] - 1 - qr[0]))
        if not self.must(Cond('>=', t)):
            return False
        return self.must(Cond('>=', length - 1 - t))


def _allsyms(f):
    return f.syms()
