"""Contracts of the surrogate: posterior mean, standard deviation and their derivatives, for any symmetric positive definite
covariance matrix A, any kernel rows k (with derivatives dk and ddk with respect to the query point) and any data."""
from fractions import Fraction

from . import eng, ints, terms, npshim
from .eng import Arr, as_arr, RealCond, sum_range
from .ints import IP, ip, sym, Cond
from .terms import Term, T, S, ZERO, ONE, pc, D, delta, power, fresh, mk_sum, fn
from .prover import Ob, Post, Inputs, make
from .c_layout import fr
from .c_cov import same, callee, flag, lower_times, HPV

HALF = Fraction(1, 2)
NE, NG, DIM, NX = sym('ne'), sym('ng'), sym('dim'), sym('nx')
N = NE + DIM * NG
GP = 'gpgradpy.src.GaussianProcess:GaussianProcess'
SOLVE = 'cho_factor/cho_solve do what their documentation says'
SMALL = Fraction(1, 40)


def k_(i, j): return S('k', i, j) * SMALL
def dk_(d, i, j): return S('dk', d, i, j) * SMALL
def ddk_(d, e, i, j): return S('ddk', d, e, i, j) * SMALL


def AI(n, i, j):
    npshim.derived('inv', 'A')
    npshim.LINM['A'] = (S('A', sym('%x0'), sym('%x1')), n)
    return S('invA', i, j)


def quad(n, u, v):
    a, b = fresh(n), fresh(n)
    return mk_sum(mk_sum(u(sym(a)) * AI(n, sym(a), sym(b)) * v(sym(b)), b), a)


def mean0(n, j, u):
    """u^T alpha"""
    a = fresh(n)
    return mk_sum(u(sym(a)) * S('al', sym(a)), a)


def dx(t, j, d):
    """derivative with respect to coordinate d of query point j"""
    def da(at):
        if at.name == 'k':
            i, jj = at.args
            return delta(jj - j) * S('dk', d, i, jj)
        if at.name == 'dk':
            e, i, jj = at.args
            return delta(jj - j) * S('ddk', e, d, i, jj)
        return None
    return D(t, da)


# ---------------------------------------------------------------- evaluation
def evaluation():
    out = []
    for grads in (True, False):
        for what in ('value', 'grad', 'hess', 'hess flat', 'grad flat'):
            for scl in (False, True):
                if scl and 'flat' in what:
                    continue
                out.append(_eval(grads, what, scl))
    out += [_var(g, c, f) for g in (True, False) for c in (True, False) for f in (False, True)]
    return out


def _world(w, d, grads, n, nx, calc_grad, calc_hess, scl, **attrs):
    """object whose kernel methods behave as their contracts say"""
    x, xe = (d['xs'] if scl else d['x']), d['xe']
    if scl:
        xe = d['xes']
    if x.ndim == 1:
        x = x[None, :]
    R = xe.T[:, :, None] - x.T[:, None, :]
    m = d.get('mg')
    kw = dict(Rtensor=R, theta=d['th'], hp_kernel=d['al0'])
    o = make(w.get(GP), use_grad=grads, bvec_use_grad=m, n_eval=d['ne'], n_grad=m.sum() if grads else 0, dim=d['dim'], n_data=d['al'].size,
             b_use_data_scl=scl, KernEta_chofac=d['A'], invKernEta_fdiff=d['al'], data_vec=d['al'],
             calc_KernGrad=callee(lambda: d['kg'].copy(), dict(kw, bvec_use_grad1=m, bvec_use_grad2=None), ('bvec_use_grad1', 'bvec_use_grad2')
                                  if not grads else ('bvec_use_grad2',)),
             calc_KernBase=callee(lambda: d['kb'].copy(), kw),
             calc_Kern_hess_x=callee(lambda: d['kh'].copy(), dict(Rtensor=-transpose021(w, R), theta=d['th'],
                                                                  hp_kernel=d['al0'], bvec_use_grad=m), () if grads else ('bvec_use_grad',)),
             get_scl_x_w_dist=lambda *a, **k: (xe, None), **attrs)
    o.set_mean_fun_op('poly_ord_0')
    h = w.get(HPV)(beta=d['be'], theta=d['th'], kernel=d['al0'], varK=d['vK'], var_fval=None, var_fgrad=None)
    o.hp_vals = h
    o._hp_vals_model_setup = h
    if scl:
        class Scl:
            x_init_2_scl = staticmethod(callee(lambda: d['xs'].copy(), dict(x=d['x'])))
        o.DataScl = Scl()

        def back(fval_scl, std_fval_scl=None, grad_scl=None, std_grad_scl=None, hess_scl=None, std_hess_scl=None):
            def t(a, c):
                return None if a is None else a * c
            return (fval_scl * 2 + 3, t(std_fval_scl, 5), t(grad_scl, 7), t(std_grad_scl, 11), t(hess_scl, 13), t(std_hess_scl, 17))
        o.data_scl_2_init = back
    return o


def transpose021(w, a):
    if not w.sym:
        return a.transpose(0, 2, 1)
    return npshim.transpose(a, (0, 2, 1))


def _inputs(grads, what, scl):
    n = N if grads else NE
    nx = ip(1) if 'hess' in what or 'flat' in what else NX

    def build():
        i = Inputs().cho('A', n, False).real('al', n).real('xe', NE, DIM).real('xes', NE, DIM).real('xs', nx, DIM)
        i = i.real('x', DIM) if 'flat' in what else i.real('x', nx, DIM)
        i.real('th', DIM, pos=True).real('al0', pos=True).real('vK', pos=True).real('be', 1).int('ne', NE).int('dim', DIM)

        def kg(ix, e):
            """values first, then one block per coordinate"""
            r, c = ix
            b, j = divcols(c, nx)
            return k_(r, j) if b is None else dk_(b, r, j)
        rows = n if grads else NE * (DIM + 1)
        i.vary('kg', kg, (rows, nx * (DIM + 1))).vary('kb', lambda ix, e: k_(*ix), (NE, nx))
        i.vary('kh', lambda ix, e: ddk_(ix[0], ix[1], ix[2], ip(0)), (DIM, DIM, n))
        return i.mask('mg', NE, 'ng') if grads else i
    return build, n, nx


def divcols(c, nx):
    """block of a column (None: values) and the query point"""
    if eng.must(Cond('>=', nx - 1 - c)):
        return None, c
    c = pc().norm(c - nx)
    if nx.const() == 1:
        return c, ip(0)
    return npshim._split(c, nx)


def _eval(grads, what, scl):
    build, n, nx = _inputs(grads, what, scl)
    cg, ch, flat = 'value' not in what, 'hess' in what, 'flat' in what

    def run(w, d):
        o = _world(w, d, grads, n, nx, cg, ch, scl)
        r = o.eval_model(d['x'], calc_grad=cg, calc_hess=ch, squeeze_nx=flat)
        names = ['mu', 'sig', 'dmu', 'dsig', 'd2mu', 'd2sig']
        want = 2 + 2 * cg + 2 * ch
        if any((a is None) == (k < want) for k, a in enumerate(r)):
            raise AssertionError('results that are (not) asked for')
        return {nm: a for nm, a in zip(names, r) if a is not None}

    def posts(d, o):
        j = ip(0) if nx.const() == 1 else fr(nx, 'j')
        a, b = fr(DIM, 'd'), fr(DIM, 'e')
        c = (2, 5, 7, 11, 13, 17) if scl else (1,) * 6

        def s2():
            return ONE - quad(n, lambda i: k_(i, j), lambda i: k_(i, j))

        def mu():
            return S('be', ip(0)) + mean0(n, j, lambda i: k_(i, j))

        def sig():
            return power(s2(), HALF) * power(S('vK'), HALF)

        def clipped():
            return sig() if eng.must(RealCond('>=', s2())) else ZERO
        J = () if flat else (j,)
        pos = (RealCond('>', s2()),)
        l = [Post('posterior mean', 'mu', J, lambda: c[0] * mu() + (3 if scl else 0)), Post('posterior standard deviation', 'sig', J, lambda: c[1] * clipped())]
        if cg:
            l += [Post('gradient of the mean', 'dmu', J + (a,), lambda: c[2] * dx(mu(), j, a)),
                  Post('gradient of the standard deviation', 'dsig', J + (a,), lambda: c[3] * dx(sig(), j, a), pre=pos)]
        if ch:
            l += [Post('Hessian of the mean', 'd2mu', J + (a, b), lambda: c[4] * dx(dx(mu(), j, a), j, b)),
                  Post('Hessian of the standard deviation', 'd2sig', J + (a, b), lambda: c[5] * dx(dx(sig(), j, a), j, b), pre=pos)]
        return l
    J = () if flat else (nx,)
    sh = dict(mu=J, sig=J)
    if cg:
        sh.update(dmu=J + (DIM,), dsig=J + (DIM,))
    if ch:
        sh.update(d2mu=J + (DIM, DIM), d2sig=J + (DIM, DIM))
    fs = ['GpEvalModel.eval_model'] + (['GpEvalModel.calc_dmudx', 'GpEvalModel.calc_dsigdx'] if cg else []) + \
        (['GpEvalModel.calc_d2mudx2', 'GpEvalModel.calc_d2sigdx2'] if ch else [])
    return Ob(f'eval_model {what}{"" if grads else " without gradients"}{" rescaled" if scl else ""}', ['C11'] + (['C12'] if cg else []), fs, build, run,
              posts, shapes=sh, trusts=[SOLVE], partial=True, raises=refused)


def refused(e, q):
    """a negative variance is refused"""
    return isinstance(e, AssertionError) and (q is None or any(len(s) == 1 and 0 not in s for s in q.real.values()))


def _var(grads, cg, flat):
    build, n, nx = _inputs(grads, ('grad' if cg else 'value') + (' flat' if flat else ''), False)

    def run(w, d):
        o = _world(w, d, grads, n, nx, cg, False, False)
        v, dv, h = o.eval_model_var(d['x'], calc_grad=cg, squeeze_nx=flat)
        if (dv is None) == cg or h is not None:
            raise AssertionError('results that are (not) asked for')
        return dict(v=v, dv=dv) if cg else dict(v=v)

    def posts(d, o):
        j, a = ip(0) if flat else fr(nx, 'j'), fr(DIM, 'd')
        J = () if flat else (j,)

        def v():
            return S('vK') * (ONE - quad(n, lambda i: k_(i, j), lambda i: k_(i, j)))
        return [Post('posterior variance', 'v', J, v)] + ([Post('gradient of the variance', 'dv', J + (a,), lambda: dx(v(), j, a))] if cg else [])
    return Ob(f'eval_model_var{" grad" if cg else ""}{" flat" if flat else ""}{"" if grads else " without gradients"}', ['C11'] + (['C12'] if cg else []),
              ['GpEvalModel.eval_model_var'] + (['GpEvalModel.calc_dsig2dx'] if cg else []), build, run, posts,
              shapes=dict(v=() if flat else (nx,), **(dict(dv=(DIM,) if flat else (nx, DIM)) if cg else {})), trusts=[SOLVE], partial=True, raises=refused)


# ---------------------------------------------------------------- set-up
def datum(i, ng=NG):
    """entry of the data vector: values, then derivatives coordinate by coordinate"""
    if eng.must(Cond('>=', NE - 1 - i)):
        return S('f', i) - S('be', ip(0))
    q, r = npshim._split(pc().norm(i - NE), ng)
    return S('g', r, q)


def setup():
    out = []
    for grads in (True, False):
        n = N if grads else NE
        for cond in (False, True):
            for fac in (True, False):
                def inputs(grads=grads, n=n):
                    i = Inputs().cho('A', n, False).spd('B', n).real('K', n, n).real('R', DIM, NE, NE).real('xe', NE, DIM).real('f', NE)
                    i.real('be', 1).real('th', DIM, pos=True).real('al0', pos=True).real('vK', pos=True).real('eta', pos=True).real('cond', pos=True)
                    i.int('ne', NE).int('dim', DIM).real('old', sym('no')).real('oldB', sym('no'), sym('no')).real('oldc')
                    return i.real('g', NG, DIM).mask('mg', NE, 'ng') if grads else i

                def run(w, d, grads=grads, cond=cond, fac=fac):
                    h = w.get(HPV)(beta=d['be'], theta=d['th'], kernel=d['al0'], varK=d['vK'], var_fval=None, var_fgrad=None)
                    m = d.get('mg')

                    def kmat(Rtensor, hp_vals, noise_vec=None, calc_chofac=True, calc_cond=False, varK=None, b_normlz_w_varK=False):
                        if not same(Rtensor, d['R']) or noise_vec is not None or varK is not None or not b_normlz_w_varK or not calc_chofac \
                                or bool(calc_cond) != cond or not all(same(getattr(hp_vals, k), getattr(h, k)) or getattr(h, k) is None
                                                                      for k in ('theta', 'kernel', 'varK', 'var_fval', 'var_fgrad')):
                            raise ints.OutOfReach('arguments of calc_all_K_w_chofac')
                        return d['K'].copy(), None, d['B'].copy(), d['A'] if fac else None, d['cond'] if cond else None, d['eta'], None
                    o = make(w.get(GP), use_grad=grads, bvec_use_grad=m, n_eval=d['ne'], n_grad=m.sum() if grads else 0, dim=d['dim'], hp_vals=h,
                             get_scl_x_w_dist=lambda *a, **k: (d['xe'], d['R']), calc_all_K_w_chofac=kmat,
                             get_scl_eval_data=lambda *a, **k: (d['f'], None, d.get('g'), None),
                             # of the data and hyperparameters before
                             data_vec=d['old'], Kern=d['oldB'], KernEta=d['oldB'], KernEta_chofac=(d['oldB'], False), invKernEta_fdiff=d['old'],
                             condK=d['oldc'], etaK_eval=d['oldc'],
                             _hp_vals_model_setup=w.get(HPV)(beta=d['be'] + 1, theta=d['th'] * 2, kernel=d['al0'] + 1, varK=d['vK'] + 1))
                    o.set_mean_fun_op('poly_ord_0')
                    o.setup_eval_model(calc_cond=cond)
                    u = o._hp_vals_model_setup
                    r = dict(has=flag(o.KernEta_chofac is not None), snap=flag(all(same(getattr(u, k), getattr(h, k)) for k in
                                                                                   ('theta', 'kernel', 'varK', 'beta', 'var_fval', 'var_fgrad'))))
                    if o.KernEta_chofac is not None:
                        r['al'] = o.invKernEta_fdiff
                        r['fac'] = lower_times(o.KernEta_chofac)
                    return r

                def posts(d, o, grads=grads, n=n, fac=fac):
                    a = fr(n, 'a')
                    b = fr(n, 'b')
                    l = [Post('set up exactly if there is a factorisation', 'has', (), lambda: ONE if fac else ZERO),
                         Post('hyperparameters of the set-up', 'snap', (), lambda: ONE)]
                    if fac:
                        l += [Post('A^-1 (y - V beta)', 'al', (a,), lambda: sum_range(ip(0), n, lambda b: AI(n, a, b) * datum(b))),
                              Post('the factorisation is the one of the covariance matrix', 'fac', (a, b), lambda: S('A', a, b))]
                    return l
                nm = f'setup_eval_model{"" if grads else " without gradients"}{" condition number" if cond else ""}{"" if fac else " not positive definite"}'
                out.append(Ob(nm, ['C11', 'C22', 'C23'], ['GpEvalModel.setup_eval_model', 'GpMeanFun.eval_mean_fun', 'GpMeanFunPoly.eval_mean_fun_poly',
                                                   'CommonFun.make_data_vec'], inputs, run, posts, shapes=dict(al=(n,)) if fac else None,
                              trusts=[SOLVE], partial=True))
    return out


# ---------------------------------------------------------------- mean for other data
def othermean():
    out = []
    for grads in (True, False):
        n = NE * (DIM + 1) if grads else NE
        for cg in (True, False):
            for given in (True, False):
                out.append(_other(grads, n, cg, given))
    return out


def _other(grads, n, cg, given):
    def inputs():
        i = Inputs().cho('A', n, False).real('f', NE).real('xe', NE, DIM).real('x', NX, DIM).real('be', 1).real('th', DIM, pos=True)
        i.real('th2', DIM, pos=True).real('al0', pos=True).real('vK', pos=True).int('dim', DIM)

        def kg(ix, e):
            r, c = ix
            b, j = divcols(r, NX)
            return k_(c, j) if b is None else dk_(b, c, j)
        i.vary('kg', kg, (NX * (DIM + 1), NE * (DIM + 1)))
        return i.real('g', NE, DIM) if grads else i

    def run(w, d):
        h = w.get(HPV)(beta=None, theta=d['th'], kernel=d['al0'], varK=d['vK'], var_fval=None, var_fgrad=None)
        R = d['x'].T[:, :, None] - d['xe'].T[:, None, :]

        def back(fval_scl, std_fval_scl=None, grad_scl=None, std_grad_scl=None, hess_scl=None, std_hess_scl=None):
            return fval_scl * 2 + 3, None, None if grad_scl is None else grad_scl * 7, None, None, None
        o = make(w.get(GP), use_grad=grads, dim=d['dim'], hp_vals=h, data_scl_2_init=back,
                 calc_KernGrad=callee(lambda: d['kg'].copy(), dict(Rtensor=R, theta=d['th2'] if given else d['th'], hp_kernel=d['al0'], bvec_use_grad1=None,
                                                                   bvec_use_grad2=None), ('bvec_use_grad1', 'bvec_use_grad2')))
        o.set_mean_fun_op('poly_ord_0')
        m, g = o.calc_model_mean_w_data_scl(d['x'], d['A'], d['be'], d['xe'], d['f'], d.get('g'), d['th2'] if given else None, calc_grad=cg)
        if (g is None) == cg:
            raise AssertionError('results that are (not) asked for')
        return dict(mu=m, dmu=g) if cg else dict(mu=m)

    def posts(d, o):
        j, a = fr(NX, 'j'), fr(DIM, 'd')

        def al(i):
            return sum_range(ip(0), n, lambda b: AI(n, i, b) * datum(b, NE))

        def mu(k):
            b = fresh(n)
            return mk_sum(k(sym(b)) * al(sym(b)), b)
        l = [Post('posterior mean', 'mu', (j,), lambda: 2 * (S('be', ip(0)) + mu(lambda i: k_(i, j))) + 3)]
        if cg:
            l.append(Post('gradient of the mean', 'dmu', (j, a), lambda: 7 * mu(lambda i: dk_(a, i, j))))
        return l
    nm = f'calc_model_mean_w_data_scl{" grad" if cg else ""}{"" if grads else " without gradients"}{" theta given" if given else ""}'
    return Ob(nm, ['C11'] + (['C12'] if cg else []), ['GpEvalModel.calc_model_mean_w_data_scl'], inputs, run, posts,
              shapes=dict(mu=(NX,), dmu=(NX, DIM)) if cg else dict(mu=(NX,)), trusts=[SOLVE], partial=True)


def obligations():
    return evaluation() + setup() + othermean()
