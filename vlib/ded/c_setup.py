"""Contracts of the construction of a surrogate: which kernel, which treatment of the ill-conditioning and which
constraint it works with, initial and custom hyperparameters, and the limits of the hyperparameters."""
from fractions import Fraction

from . import eng, ints, terms, npshim
from .eng import Arr, as_arr, RealCond
from .ints import IP, ip, sym, Cond
from .terms import Term, T, S, ZERO, ONE, pc, power, fresh, mk_sum
from .prover import Ob, Post, Inputs, make, Broken
from .c_layout import fr
from .c_cov import callee, stub, same, flag, Callee
from .c_state import GP, refused, swapped
from .c_hp import HPI, HPV, NOISES, LOGS, entries
from . import c_kernel as ck

DIM, N, NF, NB = sym('dim'), sym('n'), sym('nf'), sym('nb')
G1, G2 = sym('g1'), sym('g2')
MTDS = ('base', 'precon', 'rescale_origin', 'rescale_eta_vary', 'dflt_vmin', 'dflt_vmax')
SQ = {'SqExp': 2, 'RatQu': 2, 'Ma5f2': Fraction(5, 3)}     # d2k/dx_i dy_i at x = y, divided by theta_i


def effective(mtd, use):
    return mtd if use else 'base'


# ---------------------------------------------------------------- treatment of the ill-conditioning
def methods():
    return [_method(m, use, first, part) for use in (True, False) for m in MTDS for first in (True, False) for part in ('C10', 'C13', 'C05')
            if part != 'C05' or use] + \
        [_method_unknown(m) for m in ('', 'preco', 'rescale', 'Base')]


def _method(mtd, use, first, part):
    """from the constructor, or set afterwards"""
    eff = effective(mtd, use)

    def inputs():
        return Inputs().real('v').real('c').real('g', sym('nh')).real('m', pos=True)

    def run(w, d):
        C = w.get(GP)

        class G(C):
            cond_max = d['m']

            def return_cond_val(self, v):
                return d['c'] + v

            def return_cond_grad(self, v):
                return d['g'] + v
        o = G(2, use, wellcond_mtd=mtd if first else 'precon' if mtd != 'precon' else 'base')
        if not first:
            o.set_wellcond_mtd(mtd)
        r = dict(mtd=flag(o.wellcond_mtd == eff), scl=flag(o.b_use_data_scl), con=flag(o.b_use_cond_cstr), use=flag(o.use_grad is use))
        if part == 'C05':
            r['const'] = flag(o.cond_eta_is_const)
        if part == 'C10' and eff != 'precon':
            n = getattr(o, 'condnum_nlc', None)
            r['has'] = flag(n is not None and callable(n.fun) and callable(n.jac))
            if not r['has']:
                return dict(r, ub=d['m'] + 1, lb=0, val=d['c'] + 1, grad=d['g'] + 1)
            ub, lb = n.ub, n.lb
            if not w.sym:
                import numpy as np
                ub, lb = float(np.ravel(ub)[0]), float(np.ravel(lb)[0])
            r.update(ub=ub, lb=flag(bool(lb == -w.np.inf)), val=n.fun(d['v']), grad=n.jac(d['v']))
        return r

    def posts(d, o):
        l = [Post('the method in use', 'mtd', (), lambda: ONE), Post('gradients are used if asked for', 'use', (), lambda: ONE)]
        if part == 'C13':
            return l + [Post('scaling of the data', 'scl', (), lambda: T(flag(eff not in ('base', 'precon'))))]
        if part == 'C05':
            return l + [Post('the nugget is constant', 'const', (), lambda: T(flag(mtd != 'rescale_eta_vary')))]
        l.append(Post('the condition number is constrained', 'con', (), lambda: T(flag(eff != 'precon'))))
        if eff != 'precon':
            k = fr(sym('nh'), 'k')
            l += [Post('there is a constraint with its gradient', 'has', (), lambda: ONE), Post('largest condition number', 'ub', (), lambda: S('m')), Post('no least one', 'lb', (), lambda: ONE),
                  Post('the condition number is what is constrained', 'val', (), lambda: S('c') + S('v')),
                  Post('with its gradient', 'grad', (k,), lambda: S('g', k) + S('v'))]
        return l
    return Ob(f'method {mtd}{" with gradients" if use else ""}{"" if first else " set afterwards"}: {dict(C10='constraint', C13='scaling', C05='nugget')[part]}', [part],
              ['GaussianProcess.__init__', 'GaussianProcess.set_wellcond_mtd', 'GaussianProcess.set_condnum_nlc'], inputs, run, posts,
              shapes=dict(grad=(sym('nh'),)) if part == 'C10' and eff != 'precon' else None, partial=True)


def _method_unknown(m):
    def run(w, d):
        return dict(a=flag(refused(lambda: w.get(GP)(2, True, wellcond_mtd=m))), v=d['v'])
    return Ob(f'unknown method {m!r}', ['C10', 'C19'], ['GaussianProcess.set_wellcond_mtd'], lambda: Inputs().real('v'), run,
              lambda d, o: [Post('refused', 'a', (), lambda: ONE)], partial=True)


# ---------------------------------------------------------------- the kernel
def kernels():
    out = []
    for kind in ck.KERNELS:
        for use in (True, False):
            out.append(_kernel(kind, use))
    for k in ('sqexp', '', 'Ma3f2'):
        out.append(_kernel_unknown(k))
    for a in ((2.0, True, 'SqExp'), (2, 1, 'SqExp'), (2, None, 'SqExp'), (2, True, None)):
        out.append(_wrong_type(a))
    return out


def _stub_th(kind, what):
    def f(Rtensor, theta, hp_kernel, *a):
        fR, ft, fa, sh = ck._fns(Rtensor, theta, hp_kernel)
        dim, n, _ = sh
        first = dim if what == 'th' else ip(1)
        return Arr((first, n, n), lambda i, e: ck.k_entry(kind, (what,), (i[0] if what == 'th' else None,), fR, ft, fa, dim, i[1], i[2], e))
    return staticmethod(f)


def _stub_gth(kind, what):
    def f(Rtensor, theta, hp_kernel, bvec_use_grad=None, *a):
        fR, ft, fa, sh = ck._fns(Rtensor, theta, hp_kernel)
        dim, n, _ = sh
        m = bvec_use_grad
        first = dim if what == 'th' else ip(1)
        t = n + dim * ck._cnt(m, n)
        return Arr((first, t, t), lambda i, e: ck.kern_entry(kind, fR, ft, fa, sh, m, m, i[1:], e, (what,), (i[0] if what == 'th' else None,)))
    return staticmethod(f)


def _stub_gx(kind):
    def f(Rtensor, theta, hp_kernel, bvec_use_grad2=None, *a):
        fR, ft, fa, sh = ck._fns(Rtensor, theta, hp_kernel)
        dim, n1, n2 = sh
        m = bvec_use_grad2

        def g(i, e):
            q, r = npshim._split(i[1], n1.subst(e))
            qj, b = ck._blocks(i[2], n2, ck._cnt(m, n2))
            what, idx = ('x', 'x'), (q, i[0])
            if qj is not None:
                what, idx, b = what + ('y',), idx + (qj,), ck._m(m, b)
            return ck.k_entry(kind, what, idx, fR, ft, fa, dim, r, b, e)
        return Arr((dim, dim * n1, n2 + dim * ck._cnt(m, n2)), g)
    return staticmethod(f)


def _kernel(kind, use):
    """the functions of the chosen kernel (under their contracts) are the ones in use"""
    pre, cls = ck.KERNELS[kind]
    has = kind == 'RatQu'

    def stubs(w):
        b, g = (w.get(f'{ck.MOD}{cls}:{cls}{x}') for x in ('Base', 'GradMod'))
        w.patch(b, f'{pre}_calc_KernBase', ck.stub_KernBase(kind))
        w.patch(b, f'{pre}_calc_KernBase_hess_x', ck.stub_hess_x(kind))
        w.patch(b, f'{pre}_calc_KernBase_grad_th', _stub_th(kind, 'th'))
        w.patch(g, f'{pre}_calc_KernGrad', ck.stub_KernGrad(kind))
        w.patch(g, f'{pre}_calc_KernGrad_grad_x', _stub_gx(kind))
        w.patch(g, f'{pre}_calc_KernGrad_grad_th', _stub_gth(kind, 'th'))
        if has:
            w.patch(b, f'{pre}_calc_KernBase_grad_alpha', _stub_th(kind, 'al'))
            w.patch(g, f'{pre}_calc_KernGrad_grad_alpha', _stub_gth(kind, 'al'))

    def inputs():
        i = ck._two_sets(kind, (1,) if use else (), True)()
        ck._setup_anti(True)
        return i

    def run(w, d):
        o = w.get(GP)(2, use, kernel_type=kind, wellcond_mtd='base')
        o.dim = d['th'].shape[0]
        R, th, al, m = d['R'], d['th'], d['al'], d.get('m1')
        e, h = ((m, m), (m,)) if use else ((), ())
        r = dict(K=o.calc_Kern(R, th, al, *e), th=o.calc_Kern_grad_theta(R, th, al, *h), gamma=o.theta2gamma(th), back=o.gamma2theta(th),
                 KB=o.calc_KernBase(R, th, al), x=o.calc_Kern_hess_x(R, th, al, *h), xB=o.calc_KernBase_hess_x(R, th, al),
                 has=flag(o.kernel_has_hp), kind=flag(o.kernel_type == kind), default=flag((o.hp_kernel is None) == (not has) and
                                                                                          (o.hp_kernel_default is None) == (not has)))
        if has:
            r['al'] = o.calc_Kern_grad_alpha(R, th, al, *h)
            r['rng'] = flag(o.hp_kernel_range[0] <= o.hp_kernel_default <= o.hp_kernel_range[1] and o.hp_kernel == o.hp_kernel_default)
        elif not refused(lambda: o.calc_Kern_grad_alpha(R, th, al, *h)):
            raise Broken('derivative with respect to a hyperparameter that there is not')
        if use:
            P = o.calc_Kern_precon(R.shape[1], R.shape[1], th)[0]
            r['P'] = P
        return r

    def posts(d, o):
        fR, ft, fa, sh = ck._argfn(d)
        a, b, i, k = fr(N, 'a'), fr(N, 'b'), fr(DIM, 'i'), fr(DIM, 'k')
        one = lambda: ONE
        c = SQ[kind]

        def K(what, idx, x, y):
            return lambda: ck.k_entry(kind, what, idx, fR, ft, fa, DIM, x, y, {})
        l = [Post('the kernel', 'K', (a, b), K((), (), a, b)), Post('derivatives with respect to theta', 'th', (k, a, b), K(('th',), (k,), a, b)),
             Post('the kernel without gradients', 'KB', (a, b), K((), (), a, b)),
             Post('second derivatives', 'x', (k, i * N + a, b), K(('x', 'x'), (i, k), a, b)),
             Post('second derivatives without gradients', 'xB', (k, i * N + a, b), K(('x', 'x'), (i, k), a, b)),
             Post('has a hyperparameter', 'has', (), lambda: T(flag(has))), Post('kind', 'kind', (), one), Post('default hyperparameter', 'default', (), one),
             Post('slope', 'gamma', (k,), lambda: power(T(c) * S('th', k), Fraction(1, 2))), Post('and back', 'back', (k,), lambda: S('th', k) ** 2 / T(c))]
        if has:
            l += [Post('derivative with respect to the hyperparameter', 'al', (ip(0), a, b), K(('al',), (), a, b)), Post('range', 'rng', (), one)]
        if use:
            m = d['m1'].mask
            p = fr(G1, 'p')
            sp = ints.sel(m, p)
            l += [Post('slopes', 'K', (N + i * G1 + p, b), K(('x',), (i,), sp, b)),
                  Post('derivatives of the slopes', 'th', (k, N + i * G1 + p, b), K(('x', 'th'), (i, k), sp, b)),
                  Post('third derivatives', 'x', (k, i * N + a, N + fr(DIM, 'j') * G1 + p), None),
                  Post('preconditioner', 'P', (N + i * N + a, N + i * N + a), lambda: power(T(c) * S('th', i), Fraction(1, 2)))]
            j = fr(DIM, 'j')
            l[-2] = Post('third derivatives', 'x', (k, i * N + a, N + j * G1 + p), K(('x', 'x', 'y'), (i, k, j), a, sp))
            if has:
                l.append(Post('derivative of the slopes with respect to the hyperparameter', 'al', (ip(0), N + i * G1 + p, b), K(('x', 'al'), (i, None), sp, b)))
        return l
    n = N + DIM * G1 if use else N
    return Ob(f'kernel {kind}{" with gradients" if use else ""} of a new surrogate', ['C01', 'C02', 'C03', 'C07'],
              ['Kernel.__init__', 'GaussianProcess.__init__', f'{cls}.{pre}_theta2gamma', f'{cls}.{pre}_gamma2theta'], inputs, run, posts, stubs,
              shapes=dict(K=(n, n), th=(DIM, n, n)), partial=True, atzero=ck.at_zero if kind == 'Ma5f2' else None, conformable=kind != 'Ma5f2')


def _kernel_unknown(k):
    def run(w, d):
        return dict(a=flag(refused(lambda: w.get(GP)(2, True, kernel_type=k))), v=d['v'])
    return Ob(f'unknown kernel {k!r}', ['C01', 'C19'], ['Kernel.__init__'], lambda: Inputs().real('v'), run,
              lambda d, o: [Post('refused', 'a', (), lambda: ONE)], partial=True)


def _wrong_type(a):
    def run(w, d):
        return dict(a=flag(refused(lambda: w.get(GP)(a[0], a[1], kernel_type=a[2]))), v=d['v'])
    return Ob(f'arguments {a}', ['C19'], ['GaussianProcess.__init__'], lambda: Inputs().real('v'), run,
              lambda d, o: [Post('refused', 'a', (), lambda: ONE)], partial=True)


# ---------------------------------------------------------------- hyperparameters that are not optimised
def initial():
    return [_initial(use, kf, kg) for use in (True, False) for kf in (True, False) for kg in (True, False)]


def _initial(use, kf, kg):
    def inputs():
        i = Inputs().real('f', NF).int('dim', DIM)
        for n in ('th', 'vK', 'vf', 'vg', 'kd'):
            i.real(n, pos=True)
        return i

    def run(w, d):
        o = make(w.get(GP), dim=d['dim'], use_grad=use, known_eps_fval=kf, known_eps_fgrad=kg, hp_theta_init=d['th'], hp_varK_init=d['vK'],
                 hp_var_fval_init=d['vf'], hp_var_fgrad_init=d['vg'], hp_kernel_default=d['kd'], n_beta_coeff=1,
                 get_scl_eval_data=stub({}, lambda bad: (d['f'] + bad, None, None, None)))
        v = o.get_init_hp_vals()
        r = dict(beta=v.beta, theta=v.theta, kernel=v.kernel, varK=v.varK)
        for nm, known in (('var_fval', kf), ('var_fgrad', kg or not use)):
            x = getattr(v, nm)
            if (x is None) != known:
                raise Broken(nm)
            if x is not None:
                r[nm] = x
        return r

    def posts(d, o):
        k, a = fr(DIM, 'k'), fresh(NF)
        l = [Post('mean of the function', 'beta', (ip(0),), lambda: mk_sum(S('f', sym(a)), a) * power(T(NF), -1)), Post('theta', 'theta', (k,), lambda: S('th')),
             Post('kernel', 'kernel', (), lambda: S('kd')), Post('variance', 'varK', (), lambda: S('vK'))]
        if not kf:
            l.append(Post('variance of the values', 'var_fval', (), lambda: S('vf')))
        if use and not kg:
            l.append(Post('variance of the gradients', 'var_fgrad', (), lambda: S('vg')))
        return l
    return Ob(f'initial hyperparameters{" with gradients" if use else ""}{" values" if kf else ""}{" gradients" if kg else ""} known', ['C15', 'C17'],
              ['GpHparaOptz.get_init_hp_vals', 'GpHpara.make_hp_class'], inputs, run, posts, shapes=dict(beta=(1,), theta=(DIM,)), partial=True)


def custom():
    return [_custom(neg) for neg in (False, True)]


def _custom(neg):
    def inputs():
        i = Inputs().real('beta', NB).real('th', DIM)
        for n in ('kd', 'v', 'vf', 'vg'):
            i.real(n, pos=True)
        return i.real('old', DIM)

    def run(w, d):
        o = make(w.get(GP), hp_vals=w.get(HPV)(theta=d['old']))
        v = -d['v'] if neg else d['v']
        no = refused(lambda: o.set_custom_hp(d['beta'], d['th'], d['kd'], v, d['vf'], d['vg']))
        r = dict(no=flag(no))
        h = o.hp_vals
        if neg:
            r['theta'] = h.theta
            return r
        r.update(beta=h.beta, theta=h.theta, kernel=h.kernel, varK=h.varK, vf=h.var_fval, vg=h.var_fgrad)
        o.set_custom_hp(theta=d['th'])
        h = o.hp_vals
        r['rest'] = flag(h.beta is None and h.kernel is None and h.varK is None and h.var_fval is None and h.var_fgrad is None)
        r['theta2'] = h.theta
        return r

    def posts(d, o):
        k, b = fr(DIM, 'k'), fr(NB, 'b')
        if neg:
            return [Post('refused', 'no', (), lambda: ONE), Post('what was set remains', 'theta', (k,), lambda: S('old', k))]
        return [Post('accepted', 'no', (), lambda: ZERO), Post('coefficients', 'beta', (b,), lambda: S('beta', b)), Post('theta', 'theta', (k,), lambda: S('th', k)),
                Post('theta alone', 'theta2', (k,), lambda: S('th', k)), Post('kernel', 'kernel', (), lambda: S('kd')), Post('variance', 'varK', (), lambda: S('v')),
                Post('variance of the values', 'vf', (), lambda: S('vf')), Post('variance of the gradients', 'vg', (), lambda: S('vg')),
                Post('nothing else is kept', 'rest', (), lambda: ONE)]
    return Ob(f'custom hyperparameters{" with a negative variance" if neg else ""}', ['C15', 'C22'], ['GpHpara.set_custom_hp', 'GpHpara.make_hp_class'],
              inputs, run, posts, shapes=dict(theta=(DIM,)) if neg else dict(theta=(DIM,), beta=(NB,)), partial=True)


# ---------------------------------------------------------------- limits from the configured ranges
def limits():
    return [_limits(kernel, noise, lg, i) for kernel in (False, True) for noise in NOISES for lg in LOGS[:3] for i in (None, 0)]


def _limits(kernel, noise, lg, i_optz):
    names, size = entries(True, kernel, noise, lg)
    kinds = ('theta', 'varK', 'var_fval', 'var_fgrad', 'kernel')

    def inputs():
        i = Inputs().int('dim', DIM)
        for k in kinds:
            i.real(k + '0', pos=True).real(k + 'd', pos=True)
        return i

    def run(w, d):
        o = make(w.get(GP), dim=d['dim'], optz_log_hp_theta=lg[0], optz_log_hp_var=lg[1], optz_log_hp_kernel=lg[2], kernel_has_hp=kernel,
                 known_eps_fval='var_fval' not in noise, known_eps_fgrad='var_fgrad' not in noise,
                 **{f'hp_{k}_range': [d[k + '0'], d[k + '0'] + d[k + 'd']] for k in kinds})
        info = o.set_hp_optz_info(True, kernel, bool(noise), 'var_fval' in noise, 'var_fgrad' in noise)
        lo, hi, box = o.get_hp_bounds(info, cstr_w_old_hp=i_optz is not None, i_optz=i_optz)
        return dict(lo=lo, hi=hi, blo=box.lb, bhi=box.ub)

    def posts(d, o):
        l = []
        for nm, p, lo in [('theta', fr(DIM, 'k'), lg[0])] + names:
            for t in ('', 'b'):
                l += [Post(f'least {nm}', t + 'lo', (p,), lambda nm=nm, lo=lo: terms.log(S(nm + '0')) / terms.LN10 if lo else S(nm + '0')),
                      Post(f'largest {nm}', t + 'hi', (p,), lambda nm=nm, lo=lo: terms.log(S(nm + '0') + S(nm + 'd')) / terms.LN10 if lo else S(nm + '0') + S(nm + 'd'))]
        return l
    return Ob(f'limits{" kernel" if kernel else ""} {" ".join(noise)} {"".join("L" if x else "-" for x in lg)} {"first" if i_optz == 0 else ""}', ['C15', 'C16'],
              ['GpHparaCon.get_hp_bounds'], inputs, run, posts, shapes=dict(lo=(size,), hi=(size,)), partial=True)


def obligations():
    return methods() + kernels() + initial() + custom() + limits()
