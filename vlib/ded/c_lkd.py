"""Contracts of the likelihood: K is any symmetric positive definite matrix, dK any symmetric derivative of it."""
from fractions import Fraction

from . import eng, ints, terms, npshim
from .eng import Arr, as_arr, RealCond, sum_range
from .ints import IP, ip, sym, Cond
from .terms import Term, T, S, ZERO, ONE, pc, D, delta, power, log, fresh, mk_sum, subst
from .prover import Ob, Post, Inputs, make
from .c_layout import fr

HALF = Fraction(1, 2)
NH, NE, NG, DIM = sym('nh'), sym('ne'), sym('ng'), sym('dim')
N = NE + DIM * NG
LKD = 'gpgradpy.src.optz.CalcLkd:'
MF = 'gpgradpy.src.eval.GpMeanFun:GpMeanFun'
JACOBI = ("Cholesky: det K is the square of the product of the factor's diagonal, its logarithm has the derivative tr(K^-1 dK); "
          'd(K^-1) = -K^-1 dK K^-1; cho_factor/cho_solve do what their documentation says')


# ---------------------------------------------------------------- mathematics
def KI(i, j):
    npshim.derived('inv', 'K')
    npshim.LINM['K'] = (S('K', sym('%x0'), sym('%x1')), N)
    return S('invK', i, j)


def y(i): return S('y', i)
def V(i): return S('V', i, ip(0))
def dK(h, i, j): return S('dK', h, i, j)


def quad(u, v):
    """u^T K^-1 v"""
    a, b = fresh(N), fresh(N)
    return mk_sum(mk_sum(u(sym(a)) * KI(sym(a), sym(b)) * v(sym(b)), b), a)


def beta():
    return quad(V, y) * power(quad(V, V), -1)


def res(i):
    return y(i) - V(i) * beta()


def rss():
    b = beta()
    return quad(y, y) - 2 * b * quad(V, y) + b * b * quad(V, V)


def logdet():
    npshim.LINM['K'] = (S('K', sym('%x0'), sym('%x1')), N)
    c = npshim.derived('chol', 'K')
    a = fresh(N)
    return 2 * mk_sum(log(S(c, sym(a))), a)


def dlogdet(h):
    a, b = fresh(N), fresh(N)
    return mk_sum(mk_sum(KI(sym(a), sym(b)) * dK(h, sym(a), sym(b)), b), a)


def ddh(t, h):
    """derivative with respect to hyperparameter h (of terms in y, V and K^-1)"""
    def da(at):
        if at.name == 'invK':
            i, j = at.args
            a, b = fresh(N), fresh(N)
            return -mk_sum(mk_sum(KI(i, sym(a)) * dK(h, sym(a), sym(b)) * KI(sym(b), j), b), a)
        return None
    return D(t, da)


# ---------------------------------------------------------------- obligations
def _in(lower=False, grads=True, **k):
    i = Inputs().cho('K', N, lower).real('y', N).real('V', N, 1)
    if grads:
        terms.SYMM.add('dK')
        i.real('dK', NH, N, N)
    else:
        i.const('dK', None)
    return i.int('ne', NE).int('dim', DIM).mask('mg', NE, 'ng')


def attrs(d):
    """the part of the state that describes the data: ne points, gradients at those that the mask selects"""
    return dict(dim=d['dim'], n_eval=d['ne'], n_grad=d['mg'].sum(), n_data=d['y'].size, use_grad=True, bvec_use_grad=d['mg'],
                get_scl_x_w_dist=lambda *a, **k: (None, None), calc_aug_vand=lambda *a, **k: d['V'])


def obligations():
    out = []
    C = f'{LKD}CalcLkd'
    for lower in (False, True):
        nm = 'lower' if lower else 'upper'
        for grads in (True, False):
            tag = f'{nm}{" with gradients" if grads else ""}'
            inp = lambda lower=lower, grads=grads: _in(lower, grads)

            # mean function by generalised least squares
            def run(w, d):
                o = make(w.get(MF), **attrs(d))
                o.set_mean_fun_op('poly_ord_0')
                m, mg, b, bg = o.calc_model_max_lkd(d['K'], d['y'], d['dK'])
                r = {'m': m, 'b': b}
                if d['dK'] is not None:
                    r.update(mg=mg, bg=bg)
                elif mg is not None or bg is not None:
                    raise AssertionError('gradient that was not asked for')
                return r

            def posts(d, o, grads=grads):
                a, h = fr(N, 'a'), fr(NH, 'h')
                l = [Post('beta = V K^-1 y / V K^-1 V', 'b', (ip(0),), beta), Post('V beta', 'm', (a,), lambda: V(a) * beta())]
                if grads:
                    l += [Post('d beta', 'bg', (ip(0), h), lambda: ddh(beta(), h)), Post('d V beta', 'mg', (a, h), lambda: V(a) * ddh(beta(), h))]
                return l
            sh = dict(m=(N,), b=(ip(1),))
            if grads:
                sh.update(bg=(ip(1), NH), mg=(N, NH))
            out.append(Ob(f'calc_model_max_lkd {tag}', ['C08', 'C09'], ['GpMeanFun.calc_model_max_lkd', 'GpMeanFunPoly.calc_model_max_lkd_poly'],
                          inp, run, posts, shapes=sh, trusts=[JACOBI], partial=True))

            # log determinant
            def run(w, d):
                v, g = w.get(C).calc_detKmat(d['K'], d['dK'])
                if d['dK'] is None and g is not None:
                    raise AssertionError('gradient that was not asked for')
                return {'v': v, 'g': g} if g is not None else {'v': v}

            def posts(d, o, grads=grads):
                h = fr(NH, 'h')
                return [Post('log det', 'v', (), logdet)] + ([Post('tr K^-1 dK', 'g', (h,), lambda: dlogdet(h))] if grads else [])
            out.append(Ob(f'calc_detKmat {tag}', ['C08', 'C09'], ['CalcLkd.calc_detKmat'], inp, run, posts,
                          shapes=dict(g=(NH,)) if grads else None, trusts=[JACOBI], partial=True))

            # likelihood with noisy data
            for adj in (True, False):
                def run(w, d, adj=adj):
                    o = _obj(w, d, lkd_use_adj_mtd=adj)
                    r = o.calc_lkd_all_w_noise(None, d['K'], d['dK'])
                    out = {'l': r.ln_lkd, 'b': r.hp_beta}
                    if d['dK'] is not None:
                        out.update(g=r.ln_lkd_grad)
                    elif r.ln_lkd_grad is not None:
                        raise AssertionError('gradient that was not asked for')
                    return out

                def posts(d, o, grads=grads):
                    h = fr(NH, 'h')
                    l = [Post('ln L = -(r K^-1 r + log det K)/2', 'l', (), lambda: -HALF * (rss() + logdet())),
                         Post('beta', 'b', (ip(0),), beta)]
                    if grads:
                        l.append(Post('d ln L', 'g', (h,), lambda: -HALF * (ddh(rss(), h) + dlogdet(h))))
                    return l
                out.append(Ob(f'calc_lkd_all_w_noise {"adjoint" if adj else "direct"} {tag}', ['C08', 'C09'],
                              ['calcLkdWNoise.calc_lkd_all_w_noise', 'calcLkdWNoise.calc_lkd_w_Kcov', 'CalcLkd.calc_detKmat'], inp, run, posts,
                              shapes=dict(g=(NH,)) if grads else None, trusts=[JACOBI], partial=True))

                # noise-free data
                for pnlt in (False, True):
                    def inp2(lower=lower, grads=grads, pnlt=pnlt):
                        i = _in(lower, grads)
                        i.real('f', NE)
                        if pnlt:
                            i.real('c1', pos=True).real('c2', pos=True).real('lb', pos=True)
                        return i

                    def run(w, d, adj=adj, pnlt=pnlt):
                        o = _obj(w, d, lkd_use_adj_mtd=adj, lkd_varK_pnlt_use=pnlt)
                        if pnlt:
                            o.lkd_varK_pnlt_c1, o.lkd_varK_pnlt_c2, o.lkd_varK_pnlt_lb_var = d['c1'], d['c2'], d['lb']
                        o.get_scl_eval_data = lambda *a, **k: (d['f'], None, None, None)
                        r = o.calc_lkd_all_wo_noise(None, d['K'], d['dK'])
                        out = {'l': r.ln_lkd, 'b': r.hp_beta, 's': r.hp_varK}
                        if d['dK'] is not None:
                            out.update(g=r.ln_lkd_grad)
                        elif r.ln_lkd_grad is not None:
                            raise AssertionError('gradient that was not asked for')
                        return out

                    def posts(d, o, grads=grads, pnlt=pnlt):
                        h = fr(NH, 'h')
                        s0 = rss() * power(T(N), -1)
                        low = T(Fraction(1, 10 ** 32))

                        def varK():
                            return s0 if eng.must(RealCond('>', s0 - low)) else low

                        def pen():
                            """penalty and its derivative with respect to varK"""
                            if not pnlt:
                                return ZERO, ZERO
                            f = eng._real(as_arr(d['f']))
                            m = sum_range(ip(0), NE, lambda a: f((a,), {})) * power(T(NE), -1)
                            v = sum_range(ip(0), NE, lambda a: (f((a,), {}) - m) ** 2) * power(T(NE), -1)
                            if not eng.must(RealCond('>=', v - S('lb'))):
                                v = S('lb')
                            e = varK() - S('c2') * v
                            if not eng.must(RealCond('>=', e)):
                                return ZERO, ZERO
                            return S('c1') * v * e ** 2, 2 * S('c1') * v * e
                        l = [Post('varK = max(r K^-1 r / n, 1e-32)', 's', (), varK), Post('beta', 'b', (ip(0),), beta),
                             Post('ln L = -(n log varK + log det K)/2 - penalty', 'l', (), lambda: -HALF * (T(N) * log(varK()) + logdet()) - pen()[0])]
                        if grads:
                            l.append(Post('d ln L', 'g', (h,), lambda: -HALF * (T(N) * ddh(s0, h) * power(s0, -1) + dlogdet(h)) - pen()[1] * ddh(s0, h),
                                          pre=(RealCond('>', s0 - low),)))
                        return l
                    out.append(Ob(f'calc_lkd_all_wo_noise {"adjoint" if adj else "direct"} {tag}{" penalty" if pnlt else ""}', ['C08', 'C09'],
                                  ['calcLkdWoNoise.calc_lkd_all_wo_noise', 'calcLkdWoNoise.calc_lkd_opt_varK', 'calcLkdWoNoise.calc_lkd_varK_pnlt',
                                   'calcLkdWoNoise.calc_lkd_w_Kern_mtd_direct', 'calcLkdWoNoise.calc_lkd_w_Kern_mtd_adjoint', 'CalcLkd.calc_detKmat'],
                                  inp2, run, posts, shapes=dict(g=(NH,)) if grads else None, trusts=[JACOBI], partial=True))
    return out


def _obj(w, d, **k):
    """the likelihood with the mean function's contract discharged separately"""
    C = w.get(f'{LKD}CalcLkd')
    G = w.get(MF)
    o = make(type('Lkd', (C, G), {}), get_scl_eval_data=lambda *a, **k: (None, None, None, None), make_data_vec=lambda *a, **k: d['y'],
             **attrs(d), **k)
    o.set_mean_fun_op('poly_ord_0')
    return o
