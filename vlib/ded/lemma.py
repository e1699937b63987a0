"""Lemmas of real arithmetic over the terms of the contracts, decided by z3 (nonlinear real arithmetic)."""
from . import ints, terms
from .ints import OutOfReach


class Trans:
    """terms as z3 reals: symbols are variables, maxima, minima and absolute values are case distinctions"""

    def __init__(self):
        import z3
        self.z, self.v, self.side = z3, {}, []

    def term(self, t):
        r = self.z.RealVal(0)
        for m, c in t.d.items():
            x = self.z.RealVal(str(c))
            for a, e in m:
                x = x * self.power(self.atom(a), e, a)
            r = r + x
        return r

    def power(self, x, e, a):
        if not isinstance(e, int):
            raise OutOfReach('lemma: power')
        if e < 0:
            k = ('inv', a.key)
            if k not in self.v:
                self.v[k] = self.z.Real('1/' + a.key)
                self.side += [self.v[k] * x == 1]
                if terms.positive_atom(a, 1):
                    self.side.append(self.v[k] > 0)
            x, e = self.v[k], -e
        r = x
        for _ in range(e - 1):
            r = r * x
        return r

    def atom(self, a):
        if a.key in self.v:
            return self.v[a.key]
        z = self.z
        if a.kind == 'fn' and a.name in ('max', 'min', 'abs'):
            xs = [self.term(x) for x in a.args]
            r = z.Real(a.key)
            if a.name == 'abs':
                self.side += [r >= xs[0], r >= -xs[0], z.Or(r == xs[0], r == -xs[0])]
            else:
                self.side += [z.Or([r == x for x in xs])] + [r >= x if a.name == 'max' else r <= x for x in xs]
        elif a.kind == 'pow':
            r = z.Real(a.key)
            self.side.append(r == self.term(a.args[0]))
            if terms._ispos(a.args[0]):
                self.side.append(r > 0)
        elif a.kind in ('s', 'sum', 'exp', 'log', 'fn', 'int'):
            r = z.Real(a.key)
            if terms.positive_atom(a, 1):
                self.side.append(r > 0)
        else:
            raise OutOfReach(f'lemma: {a.kind}')
        self.v[a.key] = r
        return r


def proves(hyps, goals, timeout=20000):
    """do the terms hyps >= 0 imply that all the terms goals are >= 0"""
    import time
    import z3
    t0 = time.time()
    tr = Trans()
    hs = [tr.term(h) >= 0 for h in hyps]
    gs = [tr.term(g) for g in goals]
    ok = True
    for g in gs:
        s = z3.Solver()
        s.set('timeout', timeout)
        s.add(*hs, *tr.side, g < 0)
        ints.STATS['queries'] += 1
        if s.check() != z3.unsat:
            ok = False
            break
    ints.STATS['time'] += time.time() - t0
    return ok
