"""Contracts of the covariance matrix: nugget, noise, variance and preconditioner around any kernel matrix K, and its
derivatives with respect to the hyperparameters around any derivatives of K."""
import dataclasses
from fractions import Fraction

import numpy as np

from . import eng, ints, terms, npshim
from .eng import Arr, as_arr, RealCond, sum_range
from .ints import IP, ip, sym, Cond
from .terms import Term, T, S, ZERO, ONE, pc, D, delta, power, fresh, mk_sum, fn
from . import prover
from .prover import Ob, Post, Inputs, make
from .c_layout import fr

NE, NG, DIM, NAL = sym('ne'), sym('ng'), sym('dim'), sym('nal')
N = NE + DIM * NG
KERN = 'gpgradpy.src.kernel.Kernel:Kernel'
GRAD = 'gpgradpy.src.optz.GpHparaGrad:GpHparaGrad'
CON = 'gpgradpy.src.optz.GpHparaCon:GpHparaCon'
HPV = 'gpgradpy.src.base.GpHpara:HparaOptzVal'
HPI = 'gpgradpy.src.optz.GpHparaOptz:HparaOptzInfo'
PDEF = 'positive definite and condition number are predicates of the matrix; cho_factor succeeds exactly for positive definite matrices'


# ---------------------------------------------------------------- both worlds
def same(a, b):
    """is the argument a callee gets the one its contract needs"""
    if a is b:
        return True
    if a is None or b is None or isinstance(a, (bool, str)) or isinstance(b, (bool, str)):
        return type(a) is type(b) and a == b
    if isinstance(a, eng.SInt) or isinstance(b, eng.SInt):
        return bool(a == b)
    if dataclasses.is_dataclass(a) and dataclasses.is_dataclass(b):
        return all(same(getattr(a, f.name), getattr(b, f.name, None)) for f in dataclasses.fields(a))
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, npshim.Chol) and isinstance(b, npshim.Chol):
        return a.lower == b.lower and same(a.A, b.A)
    if isinstance(a, Arr) or isinstance(b, Arr):
        a, b = as_arr(a), as_arr(b)
        if a.mask is not None or b.mask is not None:
            return a.mask == b.mask
        if a.ndim != b.ndim or not all(pc().decide(Cond('==', x - y)) for x, y in zip(a.shape_, b.shape_)):
            return False
        idx = tuple(ip(0) if pc().norm(x).const() == 1 else sym(fresh(x)) for x in a.shape_)
        fa, fb = eng._real(a), eng._real(b)

        def one():
            x, y = T(fa(idx, {})), T(fb(idx, {}))
            if x == y:
                return True
            t = terms.settle(x - y)
            return not t.d or eng.is_zero(t)
        return all(r for _, r in eng.cases(one))
    return np.array_equal(a, b)


class Callee:
    """stub of a callee under its contract: the result if the arguments are the expected ones, something else otherwise"""

    def __init__(self, result, want, opt=(), plain=True):
        self.result, self.want, self.opt, self.plain, self.names, self.dflt = result, want, opt, plain, list(want), {}

    def bind(self, f):
        """positional arguments are those of the method that the stub stands for"""
        import inspect
        try:
            ps = list(inspect.signature(f).parameters.values())
        except (TypeError, ValueError):
            return self
        if ps and ps[0].name == 'self':
            ps = ps[1:]
        names = [p.name for p in ps]
        if any(p.kind in (p.VAR_POSITIONAL, p.VAR_KEYWORD) for p in ps):
            return self
        c = Callee(self.result, self.want, self.opt, self.plain)
        c.names, c.dflt = names, {p.name: p.default for p in ps if p.default is not p.empty}
        c.missing = [n for n in self.want if n not in names]
        return c
    missing = ()

    def __call__(self, *a, **k):
        if self.missing:
            prover.UNMODELLED.append(f'parameter {self.missing[0]}')
            raise prover.NotModelled(f'parameter {self.missing[0]} of a callee')
        want, given = self.want, dict(zip(self.names, a), **k)
        got = dict(self.dflt, **given)
        ok = all(n in got and same(got[n], want[n]) for n in want if n not in self.opt or n in given)
        if not self.plain:
            return self.result(0 if ok else 1)
        r = self.result()
        return r if ok else r + 1


def callee(result, want, opt=()):
    return Callee(result, want, opt)


def stub(want, result):
    """the result depends on whether the arguments are the expected ones (0) or not (1)"""
    return Callee(result, want, (), False)


def copy_of(a):
    return a.copy()


def lower_times(c):
    """the matrix that a factor (c, lower) is a factorisation of"""
    if c is None:
        return None
    m, low = c
    if isinstance(m, npshim.Chol):
        if bool(low) != bool(m.lower):
            raise ints.OutOfReach('the wrong triangle of a factor')
        return m.A
    t = np.tril(m) if low else np.triu(m).T
    return t @ t.T


def flag(b):
    return 1 if b else 0


def hp(w, d, **k):
    """the hyperparameters of the inputs"""
    v = dict(beta=None, theta=d.get('th'), kernel=d.get('al'), varK=d.get('vK'), var_fval=d.get('vf'), var_fgrad=d.get('vg'))
    v.update(k)
    return w.get(HPV)(**v)


# ---------------------------------------------------------------- C06 covariance
def rowmax(f, n):
    """largest sum of the absolute values of a row"""
    def row(i, e):
        return sum_range(ip(0), n, lambda b: fn('abs', f(i[0], b)))
    return npshim._extreme('max', Arr((n,), row)).fn((), {})


def argmax_row(f, n):
    return npshim._arg('max', Arr((n,), lambda i, e: sum_range(ip(0), n, lambda b: fn('abs', f(i[0], b)))))


def matrix_symbol(what, f, n):
    return S(npshim.derived(what, npshim._matrix(Arr((n, n), lambda i, e: f(i[0], i[1])))))


def covariance():
    out = []
    for grads in (True, False):
        for mtd in ('precon', 'base'):
            if mtd == 'precon' and not grads:
                continue
            for const in (True, False):
                for norm in (False, True):
                    for cond in (False, True):
                        out.append(_cov(grads, mtd, const, norm, cond, None))
                    out.append(_cov(grads, mtd, const, norm, True, None, False, norm))
                out.append(_cov(grads, mtd, const, False, True, 'Kern'))
                out.append(_cov(grads, mtd, const, False, False, 'Kern', True, True))
                out.append(_cov(grads, mtd, const, False, True, 'Kern', False))
    return out


def _cov(grads, mtd, const, norm, cond, via, fac=True, given=False):
    """fac: with the Cholesky factor; given: the noise variances are an argument"""
    n = N if grads else NE

    def inputs():
        i = Inputs().spd('K', n).real('R', DIM, NE, NE).real('th', DIM, pos=True).real('al', pos=True).real('w', n, pos=True)
        i.real('vK', pos=True).real('eta', pos=True).real('kap', pos=True).real('big', pos=True)
        return i.mask('mg', NE, 'ng') if grads else i

    def run(w, d):
        terms.POS.add('K:diag')
        k = hp(w, d)
        want = dict(Rtensor=d['R'], theta=d['th'], hp_kernel=d['al'])
        if grads:
            want.update(bvec_use_grad1=d['mg'], bvec_use_grad2=d['mg'])
        o = make(w.get(KERN), use_grad=grads, bvec_use_grad=d.get('mg'), calc_Kern=callee(lambda: copy_of(d['K']), want),
                 wellcond_mtd=mtd, cond_eta_is_const=const, _etaK=d['eta'], cond_max_target=d['kap'] + 2, cond_norm=2,
                 cond_max=d['big'] * 3, cond_max_abs=d['big'] * 3, _time_chofac=0, b_has_noisy_data=False,
                 calc_noise_vec=callee(lambda: copy_of(d['w']), dict(hp_vals=k)), n_data=d['w'].size)
        more = dict(noise_vec=d['w']) if given else {}
        if not fac:
            more['calc_chofac'] = False
        if via:
            r = o.calc_Kern_w_chofac(d['R'], k, calc_cond=cond, **more)
        else:
            r = o.calc_all_K_w_chofac(d['R'], k, calc_cond=cond, b_normlz_w_varK=norm, **more)
        Kern, Kcor, Kcov, cf, cnd, eta, idx = r
        res = dict(Kern=Kern, Kcov=Kcov, eta=eta, has=flag(cf is not None), fac=lower_times(cf))
        if (Kcor is None) != (mtd == 'base') or (cnd is None) == cond:
            raise AssertionError('correlation matrix or condition number')
        if Kcor is not None:
            res['Kcor'] = Kcor
        if cond:
            res['cond'] = cnd
        return res

    def posts(d, o):
        a, b = fr(n, 'a'), fr(n, 'b')
        varK = ONE if via else S('vK')
        scale = ONE if (norm or via) else S('vK')

        def K(i, j): return S('K', i, j)
        def noisy(i, j): return K(i, j) + delta(i - j) * S('w', i) * power(varK, -1)
        def p(i): return power(K(i, i) + S('w', i) * power(varK, -1), Fraction(1, 2))
        def kcor(i, j): return noisy(i, j) * power(p(i), -1) * power(p(j), -1)

        def eta():
            if const:
                return S('eta')
            return rowmax(kcor if mtd == 'precon' else K, n) * power(S('kap') + 1, -1)

        def kcov(i, j):
            e = eta()
            return scale * (noisy(i, j) + delta(i - j) * e * (p(i) ** 2 if mtd == 'precon' else ONE))

        def well(i, j):
            """the matrix whose condition number counts"""
            return scale * (kcor(i, j) + delta(i - j) * eta()) if mtd == 'precon' else kcov(i, j)
        l = [Post('kernel matrix', 'Kern', (a, b), lambda: K(a, b)), Post('nugget', 'eta', (), eta),
             Post('covariance matrix', 'Kcov', (a, b), lambda: kcov(a, b))]
        if mtd == 'precon':
            l.append(Post('correlation matrix', 'Kcor', (a, b), lambda: kcor(a, b)))
        if cond:
            l.append(Post('condition number of the preconditioned (or covariance) matrix', 'cond', (), lambda: matrix_symbol('cond2', well, n)))

        def has():
            if mtd == 'base' and cond and eng.must(RealCond('>', matrix_symbol('cond2', well, n) - 3 * S('big'))):
                return ZERO
            return ONE if eng.must(RealCond('>', matrix_symbol('is_pd', well, n))) else ZERO
        l.append(Post('factorised exactly if positive definite and acceptable', 'has', (), has if fac else lambda: ZERO))
        if o is None or o['fac'] is not None:
            l.append(Post('the factor is one of the covariance matrix', 'fac', (a, b), lambda: kcov(a, b)))
        return l
    nm = f'{"calc_Kern_w_chofac" if via else "calc_all_K_w_chofac"} {mtd}{"" if grads else " without gradients"}' \
         f'{"" if const else " varying nugget"}{" normalised" if norm else ""}{" condition number" if cond else ""}' \
         f'{"" if fac else " only"}{" given noise" if given else ""}'
    return Ob(nm, ['C06', 'C05'], ['Kernel.calc_all_K_w_chofac'] + (['Kernel.calc_Kern_w_chofac'] if via else []), inputs, run, posts,
              shapes=dict(Kern=(n, n), Kcov=(n, n)), trusts=[PDEF], partial=True)


# ---------------------------------------------------------------- C23 noise vector
def noise():
    out = []
    for grads in (True, False):
        for kf in (True, False):
            for kg in ((True, False) if grads else (None,)):
                for zero in ((True, False) if kf and kg is not False else (False,)):
                    out.append(_noise(grads, kf, kg, zero))
    return out


def _noise(grads, kf, kg, zero):
    n = N if grads else NE

    def inputs():
        i = Inputs().int('ne', NE).int('dim', DIM).int('ng', NG).int('n', n)
        if kf:
            i.real('sf', NE, pos=True)
        else:
            i.real('vf', pos=True)
        if grads:
            i.real('sg', NG, DIM, pos=True) if kg else i.real('vg', pos=True)
        return i

    def run(w, d):
        o = make(w.get(KERN), use_grad=grads, b_fval_zero=zero, b_fgrad_zero=zero or not grads, n_eval=d['ne'], n_grad=d['ng'] if grads else 0,
                 dim=d['dim'], n_data=d['n'], known_eps_fval=kf, known_eps_fgrad=bool(kg),
                 get_scl_eval_data=lambda: (None, d.get('sf'), None, d.get('sg')))
        return {'w': o.calc_noise_vec(hp(w, d))}

    def posts(d, o):
        a, p, k = fr(NE, 'a'), fr(NG, 'p'), fr(DIM, 'd')
        l = [Post('variance of a value', 'w', (a,), lambda: ZERO if zero else (S('sf', a) ** 2 if kf else S('vf')))]
        if grads:
            l.append(Post('variance of a derivative', 'w', (NE + k * NG + p,), lambda: ZERO if zero else (S('sg', p, k) ** 2 if kg else S('vg'))))
        return l
    s = lambda x: 'known' if x else 'unknown'
    return Ob(f'calc_noise_vec {s(kf)} noise of the values{"" if not grads else f", {s(kg)} of the gradients"}{" zero" if zero else ""}', ['C06', 'C23'],
              ['Kernel.calc_noise_vec'], inputs, run, posts, shapes=dict(w=(n,)), partial=True)


# ---------------------------------------------------------------- C07 derivatives with respect to the hyperparameters
def pvec(i):
    """diagonal of the preconditioner: contract of calc_Kern_precon"""
    return ONE if eng.must(Cond('>=', NE - 1 - i)) else S('ga', i - NE)


def dpvec(i, h):
    return ZERO if eng.must(Cond('>=', NE - 1 - i)) else S('dga', i - NE, h)


def Kfn(mtd):
    """kernel matrix; its diagonal is that of the preconditioner squared, whose derivative is known"""
    def f(i, e):
        i, j = i[-2:]
        return S('K', i, j) if mtd != 'precon' else delta(i - j) * pvec(i) ** 2 + (1 - delta(i - j)) * S('K', i, j)
    return f


def dTfn(mtd):
    def f(i, e):
        h, i, j = i
        if mtd != 'precon':
            return S('dT', h, i, j)
        return delta(i - j) * 2 * pvec(i) * dpvec(i, h) + (1 - delta(i - j)) * S('dT', h, i, j)
    return f


def dAfn(mtd):
    def f(i, e):
        h, i, j = i
        return S('dA', h, i, j) * (ONE if mtd != 'precon' else 1 - delta(i - j))
    return f


def dK_inputs(mtd, grads):
    n = N if grads else NE
    terms.SYMM.update(('K', 'dT', 'dA'))
    terms.POS.add('ga')
    i = Inputs().vary('K', Kfn(mtd), (n, n)).vary('dT', dTfn(mtd), (DIM, n, n)).vary('dA', dAfn(mtd), (ip(1), n, n))
    i.vary('p', lambda i, e: pvec(i[0]), (n,)).vary('pi', lambda i, e: power(pvec(i[0]), -1), (n,)).vary('dp', lambda i, e: dpvec(i[0], i[1]), (n, DIM))
    i.real('R', DIM, NE, NE).real('th', DIM, pos=True).real('al', pos=True).real('vK', pos=True).real('eta', pos=True).real('kap', pos=True)
    i.int('ne', NE).int('ng', NG if grads else 0).int('dim', DIM)
    return i.mask('mg', NE, 'ng') if grads else i


def grad_object(w, d, mtd, grads, vary, cls=GRAD):
    m = d.get('mg')
    kw = dict(Rtensor=d['R'], theta=d['th'], hp_kernel=d['al'], bvec_use_grad=m)
    kk = dict(Rtensor=d['R'], theta=d['th'], hp_kernel=d['al'], bvec_use_grad1=m, bvec_use_grad2=m)
    opt = () if grads else ('bvec_use_grad', 'bvec_use_grad1', 'bvec_use_grad2')
    pw = dict(n_eval=d['ne'], n_grad=d['ng'], theta=d['th'])

    def precon(n_eval, n_grad, theta, calc_grad=False, b_return_vec=False):
        if not (same_int(n_eval, d['ne']) and same_int(n_grad, d['ng']) and same(theta, d['th'])):
            raise ints.OutOfReach('arguments of calc_Kern_precon')
        if not b_return_vec:
            raise ints.OutOfReach('matrices of calc_Kern_precon')
        return d['p'].copy(), d['pi'].copy(), d['dp'].copy() if calc_grad else None
    return make(w.get(cls), wellcond_mtd=mtd, use_grad=grads, bvec_use_grad=m, n_eval=d['ne'], n_grad=d['ng'], dim=d['dim'],
                n_data=d['K'].shape[0], cond_eta_is_const=not vary, cond_max_target=d['kap'] + 2, _etaK=d['eta'], hp_varK=None,
                calc_Kern=callee(lambda: d['K'].copy(), kk, opt), calc_Kern_grad_theta=callee(lambda: d['dT'].copy(), kw, opt),
                calc_Kern_grad_alpha=callee(lambda: d['dA'].copy(), kw, opt), calc_Kern_precon=precon)


def same_int(a, b):
    r = a == b
    return bool(r)


def info(w, d, kernel, noise):
    """layout of the hyperparameters: theta, kernel, varK, noise variances"""
    C = w.get(HPI)
    import numpy
    np_ = npshim.NUMPY if w.sym else numpy
    dim = d['dim']
    none = np_.array([])
    k = dict(has_theta=True, idx_theta=np_.arange(dim), idx_kernel=none, idx_varK=none, idx_var_fval=none, idx_var_fgrad=none)
    n = dim
    if kernel:
        k.update(has_kernel=True, idx_kernel=np_.array([n]))
        n = n + 1
    for nm in noise:
        k.update({f'has_{nm}': True, f'idx_{nm}': n})
        n = n + 1
    return C(n_hp=n, **k)


def derivatives():
    out = []
    for grads in (True, False):
        for mtd, vary in (('precon', False), ('base', False), ('base', True)):
            if mtd == 'precon' and not grads:
                continue
            for kernel in (False, True):
                for noise in (None, ('varK',), ('varK', 'var_fval'), ('varK', 'var_fgrad'), ('varK', 'var_fval', 'var_fgrad')):
                    if not grads and noise and 'var_fgrad' in noise:
                        continue
                    out.append(_dK(grads, mtd, vary, kernel, noise))
    return out


def _dK(grads, mtd, vary, kernel, noise):
    n = N if grads else NE
    nh = DIM + (1 if kernel else 0) + len(noise or ())

    def run(w, d):
        o = grad_object(w, d, mtd, grads, vary)
        i = info(w, d, kernel, noise or ())
        if noise is None:
            return {'g': o.calc_KernGrad_hp(i, hp(w, d, varK=None), d['R'])}
        return {'g': o.calc_Kcov_grad_hp(i, hp(w, d), d['K'].copy(), d['R'])}

    def posts(d, o):
        a, b, h = fr(n, 'a'), fr(n, 'b'), fr(DIM, 'h')
        K, dT, dA = [(lambda f: lambda *i: f(i, {}))(f(mtd)) for f in (Kfn, dTfn, dAfn)]
        vK = ONE if noise is None else S('vK')

        def deta(dk):
            """derivative of the nugget for the derivative dk of the kernel matrix"""
            if not vary:
                return ZERO
            m = argmax_row(K, n)
            return sum_range(ip(0), n, lambda j: fn('sign', K(m, j)) * dk(m, j)) * power(S('kap') + 1, -1)

        def total(dk):
            r = vK * dk(a, b)
            dl = delta(a - b)
            if mtd == 'precon':
                return r + dl * S('eta') * vK * dk(a, a)
            return r + dl * vK * deta(dk)

        def eta():
            return rowmax(K, n) * power(S('kap') + 1, -1) if vary else S('eta')
        l = [Post('derivative with respect to theta', 'g', (h, a, b), lambda: total(lambda i, j: dT(h, i, j)))]
        k = DIM
        if kernel:
            l.append(Post('derivative with respect to the kernel hyperparameter', 'g', (k, a, b), lambda: total(lambda i, j: dA(ip(0), i, j))))
            k = k + 1
        for nm in noise or ():
            def f(nm=nm):
                dl = delta(a - b)
                if nm == 'varK':
                    return K(a, b) + dl * eta() * (K(a, a) if mtd == 'precon' else ONE)
                if not dl.d:
                    return ZERO
                fac = 1 + S('eta') if mtd == 'precon' else ONE
                val = eng.must(Cond('>=', NE - 1 - a)) if grads else True
                return dl * fac * (ONE if val == (nm == 'var_fval') else ZERO)
            l.append(Post(f'derivative with respect to {nm}', 'g', (k, a, b), f))
            k = k + 1
        return l
    nm = f'{"calc_KernGrad_hp" if noise is None else "calc_Kcov_grad_hp"} {mtd}{"" if grads else " without gradients"}' \
         f'{" varying nugget" if vary else ""}{" kernel hyperparameter" if kernel else ""} {",".join(noise or ())}'
    fs = ['GpHparaGrad.calc_KernGrad_hp', 'GpHparaGrad.calc_etaK_w_grad'] if noise is None else \
        ['GpHparaGrad.calc_Kcov_grad_hp', 'GpHparaGrad.calc_Kcov_grad_theta', 'GpHparaGrad.calc_Kcov_grad_alpha', 'GpHparaGrad.calc_Kcov_grad_varK',
         'GpHparaGrad.calc_Kcov_grad_var_fval', 'GpHparaGrad.calc_Kcov_grad_var_fgrad', 'GpHparaGrad.calc_etaK_w_grad']
    return Ob(nm.strip(), ['C07', 'C04'], fs, lambda: dK_inputs(mtd, grads), run, posts, shapes=dict(g=(nh, n, n)), partial=True)


def obligations():
    return covariance() + noise() + derivatives()
