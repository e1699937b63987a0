"""Contracts of the nugget: closed forms of the bounds on the largest eigenvalue (the lemmas about them are in /verif/lean)."""
from fractions import Fraction

from . import eng, ints, terms, npshim
from .eng import RealCond
from .ints import ip, sym, Cond
from .terms import T, S, ZERO, ONE, power, fresh, mk_sum, delta
from .prover import Ob, Post, Inputs, make
from .c_cov import same
from .c_state import GP
from .c_kernel import KERNELS, MOD, N1, N2, _two_sets, _setup_anti, at_zero
from .c_eval import refused

N, DIM = sym('n'), sym('dim')
HALF = Fraction(1, 2)


def dim():
    return T(DIM)


def root(t):
    return power(t, HALF)


def gaussian():
    """bound on the sum of the absolute values of the entries of a row outside of one block, per other point: (1 + x) exp(-x^2 / (2 d)) at its maximum"""
    q = root(1 + 4 * dim())
    return HALF * (1 + q) * terms.exp(-(1 + 2 * dim() - q) * power(4 * dim(), -1))


def matern():
    q = root(3 * dim())
    a = (q - 1 + root(15 * dim() + 2 * q + 1)) * power(2 * (3 * dim() + q), -1)
    return (1 + (dim() + q) * a + dim() * (1 + q) * a * a) * terms.exp(-q * a)


BOUND = dict(SqExp=gaussian, RatQu=gaussian, Ma5f2=matern)


def used():
    out = []
    for grad in (True, False):
        for mtd in ('precon', 'base', 'rescale_origin', 'rescale_eta_vary', 'dflt_vmin', 'dflt_vmax'):
            for eta in ('Kbase_eta', 'Kbase_eta_w_dim', 'dflt_eta'):
                for one in (False, True):
                    for kern in BOUND if grad and mtd == 'precon' and eta != 'dflt_eta' and not one else ('RatQu',):
                        if mtd in ('precon', 'base') or (grad and eta == 'Kbase_eta' and not one) or mtd == 'dflt_vmin':
                            if grad or mtd == 'base':
                                out.append(_used(grad, mtd, eta, one, kern))
    return out


def _used(grad, mtd, eta, one, kern):
    def inputs():
        i = Inputs().int('n', ip(1) if one else N).int('dim', DIM).real('t', pos=True).real('e', pos=True).real('r', pos=True)
        return i if one else i.assume(Cond('>=', N - 2))

    def run(w, d):
        o = make(w.get(GP), cond_eta_set_mtd=eta, use_grad=grad, wellcond_mtd=mtd, kernel_type=kern, dim=d['dim'], cond_max_target=1 + d['t'], cond_eta_dflt=d['e'],
                 calc_nugget_Kfull_vreq=lambda n_eval, vmin=None: d['r'] + (0 if same(n_eval, d['n']) and vmin is None else 1))
        b, g = o.calc_nugget(d['n'])
        return dict(b=b, g=g)

    def base():
        return T(ip(1) if one else N) * power(S('t'), -1)

    def full():
        if one:
            return base()
        if mtd == 'precon':
            return (1 + (T(N) - 1) * BOUND[kern]()) * power(S('t'), -1)
        if 'rescale' in mtd:
            return S('r')
        return base() * (1 + dim() if eta == 'Kbase_eta_w_dim' else 1)
    if eta == 'dflt_eta':
        l = [Post('selected nugget', k, (), lambda: S('e')) for k in 'bg']
    else:
        l = [Post('nugget without gradients', 'b', (), base), Post('nugget with gradients', 'g', (), full if grad else lambda: npshim.NAN)]
    return Ob(f'calc_nugget {mtd} {eta}{"" if grad else " without gradients"}{" one point" if one else ""} {kern}', ['C05', 'C06'],
              ['GpWellCond.calc_nugget', 'GpWellCond.calc_nugget_Kbase'], inputs, run, lambda d, o: l, partial=True)


def rescaled():
    out = []

    def inputs():
        return Inputs().int('n', N).int('dim', DIM).real('t', pos=True).real('v', pos=True)

    def run(w, d, given):
        o = make(w.get(GP), dim=d['dim'], cond_max_target=1 + d['t'], calc_mtd_rescale_origin_vreq=lambda n_eval, dim=None: d['v'] + (
            0 if same(n_eval, d['n']) and (dim is None or same(dim, d['dim'])) else 1))
        return dict(e=o.calc_nugget_Kfull_vreq(d['n'], d['v']) if given else o.calc_nugget_Kfull_vreq(d['n']))

    def spec():
        f = 2 * root(dim()) * power(S('v'), -1)
        return (1 + (T(N) - 1) * f * terms.exp(power(f, -1) - 1)) * power(S('t'), -1)
    for given in (True, False):
        out.append(Ob(f'calc_nugget_Kfull_vreq{" distance" if given else ""}', ['C05'], ['GpWellCondVreq.calc_nugget_Kfull_vreq'],
                      lambda: inputs().assume(Cond('>=', N - 2)), lambda w, d, given=given: run(w, d, given),
                      lambda d, o: [Post('nugget', 'e', (), spec)], partial=True, raises=refused))
        out.append(Ob(f'calc_nugget_Kfull_vreq one point{" distance" if given else ""}', ['C05'], ['GpWellCondVreq.calc_nugget_Kfull_vreq'],
                      lambda: Inputs().int('n', ip(1)).int('dim', DIM).real('t', pos=True).real('v', pos=True), lambda w, d, given=given: run(w, d, given),
                      lambda d, o: [Post('nugget', 'e', (), lambda: power(S('t'), -1))], partial=True))
    return out


# ---------------------------------------------------------------- entries of the preconditioned matrix, as in the lemmas
def entries():
    return [_entries(kind, own) for kind in KERNELS for own in (False, True)]


def _entries(kind, own):
    """r: differences of the coordinates in units of the standard deviation of the derivatives; the lemmas bound the absolute values of these entries"""
    pre, clsname = KERNELS[kind]
    M = MOD + clsname
    n1, n2 = (N, N) if own else (N1, N2)
    inner = _two_sets(kind, (), own)

    def inputs():
        _setup_anti(own)
        return inner().int('n1', n1).int('n2', n2)

    def run(w, d):
        K = getattr(w.get(f'{M}:{clsname}GradMod'), f'{pre}_calc_KernGrad')(d['R'], d['th'], d['al'], None, None)
        f = getattr(w.get(f'{M}:{clsname}'), f'{pre}_Kern_precon')
        p1, p2 = [f(d[k], d[k], d['th'], calc_grad=False, b_return_vec=True)[1] for k in ('n1', 'n2')]
        return dict(A=p1[:, None] * K * p2[None, :])

    def posts(d, o):
        a = sym(fresh(n1, '~a'))
        b = a if own else sym(fresh(n2, '~b'))
        i, j = sym(fresh(DIM, '~i')), sym(fresh(DIM, '~j'))
        c = T(Fraction(5, 3)) if kind == 'Ma5f2' else T(2)

        def r(k):
            return ZERO if own else power(c * S('th', k), HALF) * S('R', k, a, b)

        def norm2():
            if own:
                return ZERO
            x = fresh(DIM)
            return mk_sum(r(sym(x)) ** 2, x)

        def parts():
            """value, factor of one derivative, factor of the unit matrix and of the products"""
            q = norm2()
            if kind == 'SqExp':
                e = terms.exp(-HALF * q)
                return e, e, e, e
            if kind == 'RatQu':
                al = S('al')
                p = 1 + q * power(2 * al, -1)
                return power(p, -al), power(p, -al - 1), power(p, -al - 1), (1 + power(al, -1)) * power(p, -al - 2)
            s = power(T(3), HALF) * power(q, HALF)
            e = terms.exp(-s)
            return (1 + s + q) * e, (1 + s) * e, (1 + s) * e, 3 * e
        return [Post('values', 'A', (a, b), lambda: parts()[0]), Post('derivative and value', 'A', (n1 + i * n1 + a, b), lambda: -r(i) * parts()[1]),
                Post('value and derivative', 'A', (a, n2 + j * n2 + b), lambda: r(j) * parts()[1]),
                Post('derivatives', 'A', (n1 + i * n1 + a, n2 + j * n2 + b), lambda: delta(i - j) * parts()[2] - r(i) * r(j) * parts()[3])]
    return Ob(f'{kind}: preconditioned kernel matrix, {"entries of one point" if own else "entries of two points"}', ['C05'],
              [f'{clsname}GradMod.{pre}_calc_KernGrad', f'{clsname}.{pre}_Kern_precon'], inputs, run, posts, atzero=at_zero if kind == 'Ma5f2' else None,
              shapes=dict(A=(n1 + DIM * n1, n2 + DIM * n2)))


def obligations():
    return used() + rescaled() + entries()
