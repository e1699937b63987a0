"""Contracts of the hyperparameters: layout of the optimised vector, its decoding, initial values, likelihood and
condition number as functions of that vector, condition number and its derivatives."""
from fractions import Fraction

from . import eng, ints, terms, npshim
from .eng import Arr, as_arr, RealCond, sum_range
from .ints import IP, ip, sym, Cond
from .terms import Term, T, S, ZERO, ONE, pc, D, delta, power, fresh, mk_sum, fn
from .prover import Ob, Post, Inputs, make, Broken
from .c_layout import fr
from .c_cov import callee, stub, same, copy_of, flag, info, matrix_symbol

NE, NG, DIM, N, P = sym('ne'), sym('ng'), sym('dim'), sym('n'), sym('p')
GP = 'gpgradpy.src.GaussianProcess:GaussianProcess'
HPI = 'gpgradpy.src.optz.GpHparaOptz:HparaOptzInfo'
HPV = 'gpgradpy.src.base.GpHpara:HparaOptzVal'
LKD = 'gpgradpy.src.optz.CalcLkd:LkdInfo'
CON = 'gpgradpy.src.optz.GpHparaCon:GpHparaCon'
HALF = Fraction(1, 2)
NOISES = ((), ('varK',), ('varK', 'var_fval'), ('varK', 'var_fgrad'), ('varK', 'var_fval', 'var_fgrad'))
LOGS = ((True, True, True), (False, False, False), (True, False, True), (False, True, False), (True, True, False))


def ten(t):
    return power(T(10), t)


def raises(f, *a):
    try:
        f(*a)
    except AssertionError:
        return 1
    return 0


# ---------------------------------------------------------------- C15
def layout():
    out = []
    for theta in (True, False):
        for kernel in (False, True):
            for noise in NOISES:
                for lg in LOGS if theta else LOGS[:1]:
                    if theta or kernel or noise:
                        out.append(_layout(theta, kernel, noise, lg))
    return out


def entries(theta, kernel, noise, lg, dim=DIM):
    """names of the entries of the vector after theta, their position and whether they are logarithms"""
    p = dim if theta else ip(0)
    l = []
    for nm in (('kernel',) if kernel else ()) + tuple(noise):
        l.append((nm, p, lg[2] if nm == 'kernel' else lg[1]))
        p = p + 1
    return l, p


def _layout(theta, kernel, noise, lg):
    names, size = entries(theta, kernel, noise, lg)

    def inputs():
        return Inputs().real('v', size).int('dim', DIM).real('kd', pos=True)

    def run(w, d):
        o = make(w.get(GP), dim=d['dim'], optz_log_hp_theta=lg[0], optz_log_hp_var=lg[1], optz_log_hp_kernel=lg[2], kernel_has_hp=kernel, hp_kernel=d['kd'],
                 known_eps_fval='var_fval' not in noise, known_eps_fgrad='var_fgrad' not in noise, b_has_noisy_data=bool(noise),
                 b_optz_var_fval='var_fval' in noise, b_optz_var_fgrad='var_fgrad' in noise, b_optz_hp_kernel=True)
        if theta:
            o.setup_hp_idx4optz()
            info = o.hp_info_optz_lkd
        else:
            info = o.set_hp_optz_info(False, kernel, bool(noise), 'var_fval' in noise, 'var_fgrad' in noise)
        v = o.hp_vec2dataclass(info, d['v'])
        r = dict(n_hp=info.n_hp, log=info.bvec_log_optz + 0.0 if not w.sym else info.bvec_log_optz, kernel=v.kernel)
        for nm in ('varK', 'var_fval', 'var_fgrad'):
            x = getattr(v, nm)
            if (x is None) != (nm not in noise):
                raise Broken(f'{nm} is set' if x is not None else f'{nm} is not set')
            if x is not None:
                r[nm] = x
        if v.beta is not None or (v.theta is None) == theta:
            raise Broken('coefficients or theta')
        if theta:
            r['theta'] = v.theta
        if (info.has_theta, info.has_kernel, info.has_varK, info.has_var_fval, info.has_var_fgrad) != \
                (theta, kernel, 'varK' in noise, 'var_fval' in noise, 'var_fgrad' in noise):
            raise Broken('flags of the layout')
        return r

    def posts(d, o):
        l = [Post('size of the vector', 'n_hp', (), lambda: T(size))]
        k = fr(DIM, 'k')
        if theta:
            l += [Post('theta', 'theta', (k,), lambda: ten(S('v', k)) if lg[0] else S('v', k)), Post('theta is a logarithm', 'log', (k,), lambda: T(flag(lg[0])))]
        for nm, p, lo in names:
            l += [Post(nm, nm, (), lambda p=p, lo=lo: ten(S('v', p)) if lo else S('v', p)), Post(f'{nm} is a logarithm', 'log', (p,), lambda lo=lo: T(flag(lo)))]
        if not kernel:
            l.append(Post('default of the kernel hyperparameter', 'kernel', (), lambda: S('kd')))
        return l
    return Ob(f'layout of the vector{" theta" if theta else ""}{" kernel" if kernel else ""} {" ".join(noise)} {"".join("L" if x else "-" for x in lg)}',
              ['C15'], ['GpHparaOptz.set_hp_optz_info', 'GpHparaOptz.setup_hp_idx4optz', 'GpHpara.hp_vec2dataclass'], inputs, run, posts,
              shapes=dict(theta=(DIM,), log=(size,)) if theta else dict(log=(size,)), partial=True)


# ---------------------------------------------------------------- C10
NH = sym('nh')
FELLMAN = 'the derivative of a simple eigenvalue of a symmetric matrix is v^T dK v (Hellmann-Feynman; v the eigenvector returned by numpy, of length one)'
INVD = 'd(K^-1) = -K^-1 dK K^-1; cho_factor/cho_solve do what their documentation says'


def KI(i, j):
    npshim.derived('inv', 'K')
    npshim.LINM['K'] = (S('K', sym('%x0'), sym('%x1')), N)
    return S('invK', i, j)


def K(i, j): return S('K', i, j)
def dK(h, i, j): return S('dK', h, i, j)


def ddh(t, h):
    """derivative of a term in K and its inverse with respect to hyperparameter h"""
    def da(at):
        if at.name == 'K':
            return dK(h, *at.args)
        if at.name == 'invK':
            i, j = at.args
            a, b = fresh(N), fresh(N)
            return -mk_sum(mk_sum(KI(i, sym(a)) * dK(h, sym(a), sym(b)) * KI(sym(b), j), b), a)
        return None
    return D(t, da)


def factor(i, lower=False):
    i.decl['cf'] = ('cho', ('K', lower), (N, N))
    return i


def fro(f):
    a, b = fresh(N), fresh(N)
    return power(mk_sum(mk_sum(f(sym(a), sym(b)) ** 2, b), a), HALF)


def eig():
    """largest and smallest eigenvalue and their positions"""
    npshim._matrix(Arr((N, N), lambda i, e: S('K', *i)))
    s = npshim.derived('eigval', 'K')
    npshim.derived('eigvec', 'K')
    v = Arr((N,), lambda i, e: S(s, *i))
    p, q = npshim._arg('max', v), npshim._arg('min', v)
    return S(s, p), S(s, q), p, q


def condition():
    out = []
    for norm in ('fro', 2):
        for grads in (True, False):
            for via in (False, True):
                for lower in ((False, True) if norm == 'fro' else (False,)):
                    out.append(_condition(norm, grads, via, lower))
    for c in ('1', None):
        out.append(_cond_refused(c))
    for norm in ('fro', 2):
        out.append(_cond_precon(norm))
    return out


def _condition(norm, grads, via, lower):
    def inputs():
        i = factor(Inputs().spd('K', N), lower)
        if norm == 2:
            npshim.EIGC.add('K')
            npshim._matrix(Arr((N, N), lambda i, e: S('K', *i)))
            i.assume(RealCond('>', eig()[1] - T(Fraction(1, 10 ** 16))))
        if grads:
            terms.SYMM.add('dK')
            i.real('dK', NH, N, N)
        return i

    def run(w, d):
        o = make(w.get(CON), wellcond_mtd='base', cond_norm=norm if via is True else 'other')
        a = (d['K'],) if norm == 2 and not via else (d['K'], d['cf'])
        if grads:
            a += (d['dK'],)
        if via:
            v, g = o.calc_cond_w_grad(*a)
        else:
            v, g = (o.calc_cond_L2_w_grad if norm == 2 else o.calc_cond_fronorm_w_grad)(*a)
        if g is None and grads or not grads and g is not None:
            raise AssertionError('gradient')
        return dict(v=v, g=g) if grads else dict(v=v)

    def posts(d, o):
        h = fr(NH, 'h')
        if norm == 'fro':
            val = lambda: fro(K) * fro(KI)
            der = lambda: ddh(val(), h)
        else:
            def val():
                M, m, p, q = eig()
                return M * power(m, -1)

            def der():
                M, m, p, q = eig()
                a, b = fresh(N), fresh(N)

                def dl(p):
                    return mk_sum(mk_sum(S('eigvecK', sym(a), p) * dK(h, sym(a), sym(b)) * S('eigvecK', sym(b), p), b), a)
                return (dl(p) * m - M * dl(q)) * power(m, -2)
        l = [Post('norm of the matrix times the norm of its inverse' if norm == 'fro' else 'largest over smallest eigenvalue', 'v', (), val)]
        if grads:
            l.append(Post('derivative of the condition number', 'g', (h,), der))
        return l
    return Ob(f'condition number {norm}{" with gradient" if grads else ""}{" dispatched" if via else ""}{" lower" if lower else ""}', ['C10'],
              ['GpHparaCon.calc_cond_fronorm_w_grad' if norm == 'fro' else 'GpHparaCon.calc_cond_L2_w_grad'] + (['GpHparaCon.calc_cond_w_grad'] if via else []),
              inputs, run, posts, shapes=dict(g=(NH,)) if grads else None, trusts=[INVD if norm == 'fro' else FELLMAN], partial=True)


def _cond_refused(c):
    def run(w, d):
        o = make(w.get(CON), wellcond_mtd='base', cond_norm='other')
        try:
            o.calc_cond_w_grad(d['K'], None, None, c)
        except Exception as e:
            if type(e) is Exception:
                return dict(r=1)
            raise
        return dict(r=0)
    return Ob(f'condition number of an unknown norm {c}', ['C10'], ['GpHparaCon.calc_cond_w_grad'], lambda: Inputs().spd('K', N), run,
              lambda d, o: [Post('refused', 'r', (), lambda: ONE)], partial=True)


def _cond_precon(norm):
    """no gradient, instead of a wrong one, for the preconditioned matrix"""
    def inputs():
        terms.SYMM.add('dK')
        return factor(Inputs().spd('K', N).real('dK', NH, N, N))

    def run(w, d):
        o = make(w.get(CON), wellcond_mtd='precon', cond_norm=norm)
        try:
            v, g = o.calc_cond_w_grad(d['K'], d['cf'], d['dK'])
        except AssertionError:
            return dict(r=1)
        return dict(r=flag(g is None))
    return Ob(f'condition number {norm} preconditioned', ['C10'], ['GpHparaCon.calc_cond_w_grad'], inputs, run,
              lambda d, o: [Post('no gradient', 'r', (), lambda: ONE)], partial=True)


# ---------------------------------------------------------------- objective of the optimisation
OPT = 'gpgradpy.src.optz.OptzLkd:OptzLkd'


def objective():
    return [_objective(good, cond, always, last) for good in (True, False) for cond, always in ((True, False), (False, True), (False, False)) for last in (None, 'nan')]


def _objective(good, cond, always, last):
    """value and gradient of the objective and of the constraint in terms of those with respect to the hyperparameters"""
    nh = NH
    has_cond = cond or always or not good

    def inputs():
        return Inputs().real('v', nh).real('s', nh).real('l').real('lg', nh).real('c', pos=True).real('cg', nh).real('tok', 3)

    def run(w, d):
        np = w.np
        tok = d['tok']
        bvec = d['s'] > 0
        info = w.get(HPI)(n_hp=d['v'].shape[0], bvec_log_optz=bvec)

        def lkd(grad):
            def f(bad):
                L = w.get(LKD)
                if good:
                    r = L(ln_lkd=d['l'] + bad, ln_lkd_grad=d['lg'] + bad if grad else None)
                else:
                    r = L()
                if has_cond:
                    r.cond, r.cond_grad = d['c'] + bad, d['cg'] + bad if grad else None
                return r, good
            return f
        res = {}
        for grad in (True, False):
            o = make(w.get(OPT), b_use_cond_cstr=cond, hp_info_optz_lkd=info, _last_hp_vec=None if last is None else np.full((1, d['v'].shape[0]), np.nan),
                     hp_vec2dataclass=callee(lambda: tok.copy(), dict(hp_optz_info=info, hp_vec=d['v'])),
                     calc_lkd_all=stub(dict(hp_vals=tok, calc_lkd=True, calc_cond=cond or always, calc_grad=grad), lkd(grad)))
            if grad and not always:
                res.update(v=o.return_optz_val(d['v']), g=o.return_optz_grad(d['v']))
                if has_cond:
                    res.update(cv=o.return_cond_val(d['v']), cg=o.return_cond_grad(d['v']))
            else:
                v, g, cv, cg = o.calc_store_likelihood(d['v'], always_calc_cond=always, calc_grad=grad)
                if (g is None) == grad or has_cond and (cg is None) == grad:
                    raise AssertionError('gradient')
                t = '' if grad else '0'
                res['v' + t] = -v
                if has_cond:
                    res['cv' + t] = cv
                if grad:
                    res['g'] = -g
                    if has_cond:
                        res['cg'] = cg
        return res

    def posts(d, o):
        k = fr(nh, 'k')

        def chain(x):
            return x * ten(S('v', k)) * terms.LN10 if eng.must(RealCond('>', S('s', k))) else x
        l = []
        for t in ('', '0'):
            l.append(Post('minus the likelihood, or the condition number if there is none', 'v' + t, (), lambda: -S('l') if good else S('c')))
            if has_cond:
                l.append(Post('condition number', 'cv' + t, (), lambda: S('c')))
        l.append(Post('derivative of the objective', 'g', (k,), lambda: chain(-S('lg', k) if good else S('cg', k))))
        if has_cond:
            l.append(Post('derivative of the condition number', 'cg', (k,), lambda: chain(S('cg', k))))
        return l
    return Ob(f'calc_store_likelihood{"" if good else " without factor"}{" constraint" if cond else ""}{" always" if always else ""}{" after another" if last else ""}',
              ['C09', 'C10', 'C15'], ['OptzLkd.calc_store_likelihood', 'OptzLkd.return_optz_val', 'OptzLkd.return_optz_grad', 'OptzLkd.return_cond_val',
                                      'OptzLkd.return_cond_grad'], inputs, run, posts, shapes=dict(g=(nh,)), partial=True)


def likelihood():
    return [_likelihood(noise, grad, cond, fac, adj) for noise in (True, False) for grad in (True, False) for cond in (True, False)
            for fac in (True, False) for adj in (None, True, False)]


def _likelihood(noise, grad, cond, fac, adj):
    """calc_lkd_all combines the matrix, its derivative, the likelihood and the condition number"""
    def inputs():
        terms.SYMM.add('dK')
        i = Inputs().spd('K', N).real('K0', N, N).real('dK', NH, N, N).real('R', DIM, NE, NE).real('x', NE, DIM).real('tok').real('th', DIM, pos=True)
        i.real('l').real('lg', NH).real('c', pos=True).real('c2', pos=True).real('cg', NH).real('b', 1).real('s', pos=True)
        i.decl['cf'] = ('cho', ('K', False), (N, N))
        return i

    def run(w, d):
        hpv = w.get(HPV)(theta=d['th'], varK=d['tok'])
        info = w.get(HPI)(n_hp=d['lg'].shape[0])
        cf = d['cf'] if fac else None
        dk = d['dK'] if grad else None
        L = w.get(LKD)
        o = make(w.get('gpgradpy.src.optz.CalcLkd:CalcLkd'), b_has_noisy_data=noise, hp_info_optz_lkd=info, lkd_use_adj_mtd=True,
                 get_scl_x_w_dist=lambda: (d['x'], d['R']))
        K = d['K'].copy()
        mat = stub(dict(Rtensor=d['R'], hp_vals=hpv, calc_cond=cond, calc_chofac=True),
                   lambda bad: (d['K0'].copy(), None, K + bad, cf, d['c'] + bad if cond else None, 0, 0))
        der = dict(hp_optz_info=info, hp_vals=hpv, Rtensor=d['R'])
        if noise:
            der['Kern'] = d['K0']
        lk = stub(dict(theta=d['th'], lkd_use_adj_mtd=True if adj is None else adj, calc_lkd=True, **({'Kcov_chofac': cf, 'Kcov_grad_hp': dk} if noise else
                                                                                                  {'Kern_chofac': cf, 'KernGrad_hp': dk})),
                  lambda bad: L(ln_lkd=d['l'] + bad, ln_lkd_grad=d['lg'] + bad if grad else None, hp_beta=d['b'].copy(),
                                **({} if noise else {'hp_varK': d['s'] + bad})))
        st = dict(calc_cond_w_grad=stub(dict(Kmat_w_eta=d['K'], Kmat_chofac=cf, Kmat_grad_hp=dk, cond_norm=None), lambda bad: (d['c'] + bad, d['cg'] + bad)),
                  calc_cond_L2_w_grad=stub(dict(Kmat_w_eta=d['K'], Kmat_grad_hp=dk), lambda bad: (d['c2'] + bad, d['cg'] + bad if grad else None)),
                  calc_all_K_w_chofac=mat, calc_Kern_w_chofac=mat, calc_lkd_all_w_noise=lk, calc_lkd_all_wo_noise=lk,
                  calc_Kcov_grad_hp=stub(der, lambda bad: d['dK'] + bad), calc_KernGrad_hp=stub(der, lambda bad: d['dK'] + bad))
        cls = w.get(GP)
        for k, s in st.items():
            if noise and k in ('calc_Kern_w_chofac', 'calc_lkd_all_wo_noise', 'calc_KernGrad_hp') or \
                    not noise and k in ('calc_all_K_w_chofac', 'calc_lkd_all_w_noise', 'calc_Kcov_grad_hp'):
                continue
            setattr(o, k, s.bind(getattr(cls, k)))
        r, good = o.calc_lkd_all(hpv, calc_cond=cond, calc_grad=grad, lkd_use_adj_mtd=adj)
        res = dict(good=flag(good))
        if fac:
            res.update(l=r.ln_lkd, b=r.hp_beta)
            if not noise:
                res['s'] = r.hp_varK
            if grad:
                res['g'] = r.ln_lkd_grad
            if cond:
                res['c'] = r.cond
                if grad:
                    res['cg'] = r.cond_grad
            elif r.ln_lkd_grad is not None and not grad:
                raise AssertionError('gradient that was not asked for')
        else:
            res['c'] = r.cond
            if grad:
                res['cg'] = r.cond_grad
        return res

    def posts(d, o):
        k = fr(NH, 'k')
        l = [Post('is there a factor', 'good', (), lambda: T(flag(fac)))]
        if fac:
            l += [Post('likelihood', 'l', (), lambda: S('l')), Post('coefficient', 'b', (ip(0),), lambda: S('b', ip(0)))]
            if not noise:
                l.append(Post('varK', 's', (), lambda: S('s')))
            if grad:
                l.append(Post('derivative of the likelihood', 'g', (k,), lambda: S('lg', k)))
        if cond or not fac:
            l.append(Post('condition number', 'c', (), lambda: S('c' if fac else 'c2')))
            if grad:
                l.append(Post('derivative of the condition number', 'cg', (k,), lambda: S('cg', k)))
        return l
    return Ob(f'calc_lkd_all{" noise" if noise else ""}{" gradient" if grad else ""}{" condition number" if cond else ""}{"" if fac else " without factor"}'
              f'{"" if adj is None else " adjoint" if adj else " direct"}', ['C08', 'C09', 'C10'], ['CalcLkd.calc_lkd_all'], inputs, run, posts, partial=True)


def obligations():
    return layout() + condition() + objective() + likelihood()
