"""Contracts of the numerical optimisation of the hyperparameters."""
from fractions import Fraction

from . import eng, ints, terms, npshim
from .eng import Arr, RealCond
from .ints import IP, ip, sym, Cond
from .terms import Term, T, S, ZERO, ONE, fresh, fn
from .prover import Ob, Post, Inputs, make, Outside
from .c_layout import fr
from .c_cov import callee, stub, same, flag
from .c_state import refused, swapped, GP

NH, N0 = sym('nh'), sym('n0')
OM = 'gpgradpy.src.optz.OptzLkd'
STATS = ('hp_optz_success', 'hp_optz_iter_mean', 'hp_optz_iter_max', 'hp_optz_con_good', 'optz_n_cho_fail', 'optz_n_cond2big', 'optz_max_init_cond')


class Res:
    def __init__(self, **k):
        self.__dict__.update(k)


# ---------------------------------------------------------------- C17: the starts of the optimisation
def starts():
    out = []
    for con in (False, True):
        for n in (1, 2, 3):
            for k in ((n - 1, 2 ** n - 1) if n < 3 else (5,)):
                succ = tuple(bool(k >> j & 1) for j in range(n))
                for mtd in ('SLSQP', 'trust-constr') if n == 1 else ('SLSQP',):
                    out.append(_starts(con, n, succ, mtd))
    out.append(_starts(True, 1, (True,), 'SLSQP', vec=True))
    return out


def row(v, a, n):
    for k in range(n):
        if same(v, a[k]):
            return k
    return None


def distinct(w, a):
    """the points are told apart by their values: no two are equal"""
    if not w.sym and any(same(a[j], a[k]) for j in range(len(a)) for k in range(j)):
        raise Outside('equal points')


def _starts(con, n, succ, mtd, vec=False):
    fac = tuple(not s for s in reversed(succ))      # has the starting point a Cholesky factor

    def inputs():
        i = Inputs()
        i.real('X', *(() if vec else (n,)), NH)
        return i.real('R', n, NH).real('f', n).real('it', n, pos=True).real('l', n).real('g', n, NH).real('h', n, NH).real('ci', n, pos=True).real('cr', n) \
            .real('cb', n, pos=True).real('cm', pos=True).real('old', pos=True).real('tol', 3, pos=True).int('nh', NH)

    def run(w, d):
        mod = w.get(OM)
        X = [d['X']] if vec else [d['X'][k] for k in range(n)]
        distinct(w, X + [d['R'][k] for k in range(n)])
        box = object()
        bad, done = [], []

        def store(v, always_calc_cond=False, calc_grad=True):
            k = row(v, X, n)
            if k is not None:
                o._b_chofac_good = fac[k]
                return d['l'][k], d['g'][k] if calc_grad else None, d['ci'][k], d['h'][k] if calc_grad else None
            k = row(v, d['R'], n)
            if k is None:
                bad.append('point')
                k = 0
            o._b_chofac_good = True
            return None, None, d['cm'] * (1 + d['cr'][k] / 50), None

        def cond(v):
            k = row(v, d['R'], n)
            if k is None:
                bad.append('result')
                k = 0
            return d['cb'][k]

        def minimize(fun, x0, args=(), method=None, jac=None, hess=None, hessp=None, bounds=None, constraints=(), tol=None, callback=None, options=None):
            k = row(x0, X, n)
            if k is None or args or hess is not None or hessp is not None:
                bad.append('start')
                k = 0
            done.append(k)
            if not (same(fun(x0), -d['l'][k]) and same(jac(x0), -d['g'][k]) and bounds is box and method == mtd):
                bad.append('objective')
            cs = list(constraints) if isinstance(constraints, (list, tuple)) else [constraints]
            if len(cs) != int(con):
                bad.append('number of constraints')
            for c in cs:
                if not (same(c.fun(x0), d['ci'][k]) and same(c.jac(x0), d['h'][k]) and same(c.ub, d['cm']) and neginf(w, c.lb)):
                    bad.append('constraint')
            return Res(x=d['R'][k], fun=d['f'][k], success=succ[k], nit=d['it'][k], message='message', status=0, jac=None, nfev=1, njev=1)
        o = make(w.get(GP), optz_mtd=mtd, optz_tol_obj=d['tol'][0], optz_tol_x=d['tol'][1], optz_iter_max=d['tol'][2], hp_info_optz_lkd=Res(n_hp=d['nh']),
                 b_use_cond_cstr=con, cond_max=d['cm'], calc_store_likelihood=store, calc_cond_hp_vec=cond)
        # the constraint of an earlier bound
        o.condnum_nlc = Res(fun=o.return_cond_val, jac=o.return_cond_grad, ub=d['old'], lb=-float('inf'))
        with swapped(mod, minimize=minimize):
            x, c, info = o.optz_hp_max_lkd(d['X'], box)
        r = dict(x=x, cond=c, what=flag(not bad and sorted(done) == list(range(n))))
        r.update({k: info[k] for k in STATS})
        return r

    def best():
        ok = list(range(n))
        if con:
            ok = [k for k in ok if eng.must(RealCond('>', (T(Fraction(101, 100)) - ONE - S('cr', ip(k)) * T(Fraction(1, 50))) * S('cm')))]
        pool = ok or range(n)
        r = None
        for k in pool:
            if r is None or eng.must(RealCond('>', S('f', ip(r)) - S('f', ip(k)))):
                r = k
        return r, len(ok)

    def posts(d, o):
        k = fr(NH, 'k')
        m = Fraction(1, n)

        def largest(nm):
            r = S(nm, ip(0))
            for j in range(1, n):
                r = npshim.maximum(r, S(nm, ip(j))).fn((), {})
            return r

        def total(nm):
            r = ZERO
            for j in range(n):
                r = r + S(nm, ip(j))
            return r
        l = [Post('each start is optimised once, with the objective, box and constraint', 'what', (), lambda: ONE),
             Post('best result', 'x', (k,), lambda: S('R', ip(best()[0]), k)), Post('its condition number', 'cond', (), lambda: S('cb', ip(best()[0]))),
             Post('success rate', 'hp_optz_success', (), lambda: T(sum(succ) * m)), Post('mean number of iterations', 'hp_optz_iter_mean', (), lambda: total('it') * T(m)),
             Post('largest number of iterations', 'hp_optz_iter_max', (), lambda: largest('it')),
             Post('share of acceptable results', 'hp_optz_con_good', (), lambda: T(best()[1] * m))]
        if con:
            l += [Post('starts without a Cholesky factor', 'optz_n_cho_fail', (), lambda: T(sum(not x for x in fac))),
                  Post('starts with a large condition number', 'optz_n_cond2big', (),
                       lambda: T(sum(1 for j in range(n) if eng.must(RealCond('>', S('ci', ip(j)) - S('cm')))))),
                  Post('largest initial condition number', 'optz_max_init_cond', (), lambda: largest('ci'))]
        else:
            l += [Post(nm, nm, (), lambda: ZERO) for nm in ('optz_n_cho_fail', 'optz_n_cond2big')] + \
                 [Post('no initial condition number', 'optz_max_init_cond', (), lambda: npshim.NAN)]
        return l
    return Ob(f'optz_hp_max_lkd {mtd} {"constraint" if con else "free"} {"".join("+" if x else "-" for x in succ)}{" vector" if vec else ""}', ['C17'],
              ['OptzLkd.optz_hp_max_lkd', 'OptzLkd.return_optz_val', 'OptzLkd.return_optz_grad', 'OptzLkd.return_cond_val', 'OptzLkd.return_cond_grad',
               'GaussianProcess.set_condnum_nlc'], inputs, run, posts, shapes=dict(x=(NH,)), partial=True, bounded=f'{n} starting points',
              trusts=['scipy.optimize.minimize returns a point of the box with its objective'])


def neginf(w, x):
    if w.sym:
        return same(x, -npshim.inf)
    return x == -float('inf')


# ---------------------------------------------------------------- C17: the condition number that is reported
def reported():
    def one(noisy):
        def inputs():
            return Inputs().real('v', NH).real('c', pos=True).real('x', NE, DIM).real('R', DIM, NE, NE)

        def run(w, d):
            x, R, hp, info = d['x'], d['R'], object(), object()
            ok = []

            def K(which):
                def f(Rtensor, hp_vals, calc_chofac=True, calc_cond=False, **k):
                    ok.append(same(Rtensor, R) and hp_vals is hp and bool(calc_cond) and which == noisy and not k)
                    return None, None, None, None, d['c']
                return f

            def vec(i, v):
                ok.append(i is info and same(v, d['v']))
                return hp
            o = make(w.get(GP), b_has_noisy_data=noisy, hp_info_optz_lkd=info, get_scl_x_w_dist=lambda: (x, R), hp_vec2dataclass=vec,
                     calc_all_K_w_chofac=K(True), calc_Kern_w_chofac=K(False))
            c = o.calc_cond_hp_vec(d['v'])
            return dict(c=c, what=flag(all(ok)))
        return Ob(f'calc_cond_hp_vec {"noisy" if noisy else "noise-free"}', ['C17', 'C10'], ['OptzLkd.calc_cond_hp_vec'], inputs, run,
                  lambda d, o: [Post('condition number of the matrix of these hyperparameters', 'c', (), lambda: S('c')),
                                Post('matrix of the data and hyperparameters', 'what', (), lambda: ONE)], partial=True)
    return [one(False), one(True)]


# ---------------------------------------------------------------- C17: optimisation with rescaling of the data
DIM, M, NE = sym('dim'), sym('m'), sym('ne')


def rescale():
    return [_rescale(1, False)] + [_rescale(n, True) for n in (1, 2, 3)]


def _rescale(n, many):
    """n: largest number of scalings; many: more than one point (with one point there is nothing to scale)"""
    size = DIM + M

    def inputs():
        i = Inputs().real('B', n, size).real('T', n, DIM).real('D', n).real('s', n + 1, DIM, pos=True).real('c', pos=True).real('c0', n, pos=True).real('tol', pos=True) \
            .real('x0', N0, size).int('dim', DIM).int('ne', NE if many else ip(1))
        if many:
            i.assume(Cond('>=', NE - 2))
        return i

    def run(w, d):
        np_ = w.np
        distinct(w, [d['s'][k] for k in range(n + 1)])
        box, stat, info = object(), dict(stat=1), Res(idx_theta=np_.arange(d['dim']))
        bad, log = [], []

        class Scl:
            x_scl, xvec_scale = 'x0', d['s'][0]

            def set_xscale_data(self, xvec_scale_in=None, **k):
                j = row(xvec_scale_in, d['s'], n + 1)
                if j is None or k:
                    bad.append('scaling')
                    j = 0
                self.x_scl, self.xvec_scale = f'x{j}', d['s'][j]
                self.j = j
            j = 0
        scl = Scl()

        def optz(x0, bound):
            k = len([1 for z in log if z == 'optz'])
            if bound is not box:
                bad.append('box')
            if k == 0:
                if not same(x0, d['x0']):
                    bad.append('first start')
            elif not (scl.j == k and same(x0[:d['dim']], d['T'][k - 1]) and same(x0[d['dim']:], d['B'][k - 1][d['dim']:])):
                bad.append('start')
            log.append('optz')
            return d['B'][min(k, n - 1)].copy(), d['c0'][min(k, n - 1)], dict(stat) if k == 0 else dict(stat=2)

        def sol(x_scl, xvec_scale, theta, **k):
            k = len([1 for z in log if z == 'optz']) - 1
            if not (x_scl == f'x{scl.j}' and same(xvec_scale, d['s'][scl.j]) and scl.j == k and same(theta, d['B'][k][:d['dim']])):
                bad.append('solution')
            return d['T'][k], d['D'][k], d['s'][k + 1]

        def cond(v):
            log.append(('cond', scl.j))
            log.append(v)
            return d['c']
        o = make(w.get(GP), wellcond_mtd='rescale_origin', dim=d['dim'], n_eval=d['ne'], hp_info_optz_lkd=info, DataScl=scl, cond_vreq_max_iter=n, cond_vreq_iter_tol=d['tol'],
                 optz_hp_max_lkd=optz, rescaling_data_w_theta_sol=sol, calc_cond_hp_vec=cond)
        x, c, st = o.optz_hp_max_lkd_mtd_rescale(0, d['x0'], box)
        if many and not (log[-2] == ('cond', scl.j) and same(log[-1], x)):
            bad.append('condition number')
        return dict(x=x, c=c, what=flag(not bad and st == stat), j=scl.j)

    def last():
        """number of the last optimisation, and the scaling that is kept"""
        k = 0
        while k < n - 1 and eng.must(RealCond('>=', S('D', ip(k)) - S('tol'))):
            k += 1
        r = 0
        for j in range(1, k + 1):
            if eng.must(RealCond('>', S('D', ip(r)) - S('D', ip(j)))):
                r = j
        return k, r

    def posts(d, o):
        k, j = fr(DIM, 'k'), fr(M, 'j')
        l = [Post('each optimisation starts from the scaled result of the one before', 'what', (), lambda: ONE)]
        if many:
            l += [Post('theta of the kept scaling', 'x', (k,), lambda: S('T', ip(last()[1]), k)), Post('the other hyperparameters', 'x', (DIM + j,), lambda: S('B', ip(last()[0]), DIM + j)),
                  Post('its condition number', 'c', (), lambda: S('c')), Post('scaling in use', 'j', (), lambda: T(last()[1] + 1))]
        else:
            l += [Post('theta', 'x', (k,), lambda: S('B', ip(0), k)), Post('the other hyperparameters', 'x', (DIM + j,), lambda: S('B', ip(0), DIM + j)),
                  Post('its condition number', 'c', (), lambda: S('c0', ip(0))), Post('scaling in use', 'j', (), lambda: ZERO)]
        return l
    return Ob(f'optz_hp_max_lkd_mtd_rescale {n} {"points" if many else "one point"}', ['C17'], ['OptzLkd.optz_hp_max_lkd_mtd_rescale'], inputs, run, posts,
              shapes=dict(x=(size,)), partial=True, bounded=f'at most {n} scalings' if many else None)


# ---------------------------------------------------------------- C17: the whole step
def steps():
    out = [_step(True, 'precon', 3)]
    for mtd, it in (('precon', 3), ('base', 1), ('dflt_vmin', 2), ('rescale_origin', 1), ('rescale_origin', 2), ('rescale_eta_vary', 1), ('rescale_eta_vary', 5)):
        out.append(_step(False, mtd, it))
    return out


def _step(const, mtd, it):
    def inputs():
        i = Inputs().real('v', NH).real('c', pos=True).int('i', sym('i')).int('ne', NE).int('nc', sym('nc'))
        i.real('x', sym('nx'), DIM).real('R', DIM, sym('nx'), sym('nx')).real('x0', M, NH)
        return i.assume(Cond('>=', sym('nc') - NE) if const else Cond('>=', NE - sym('nc') - 1))

    def run(w, d):
        R, x0, stat = d['R'], d['x0'], dict(stat=1)
        box, info, h0, h1, h2 = [object() for _ in range(5)]
        bad, log = [], []

        def check(ok, what):
            if not ok:
                bad.append(what)

        def select(i, inf):
            check(same(i, d['i']) and inf is info, 'starting points')
            log.append('select')
            return x0, box, 0.0

        def optz(a, b):
            check(same(a, x0) and b is box, 'optimisation')
            log.append('optz')
            return d['v'], d['c'], stat

        def resc(i, a, b):
            check(same(a, x0) and b is box, 'optimisation with rescaling')
            log.append('rescale')
            return d['v'], d['c'], stat

        def vec(inf, v):
            check(inf is info and same(v, d['v']), 'decoding')
            return h1

        def closed(h):
            check(h is h1, 'closed form')
            log.append('closed')
            return h2

        def K(Rt, h, calc_chofac=True, calc_cond=False, **k):
            check(same(Rt, R) and h is h0 and bool(calc_cond) and not k, 'condition number')
            return None, None, None, None, d['c']

        def store(i, h, s=None, c=None, *a, **k):
            s, c = k.get('surr_optz_info', s), k.get('cond_val', c)
            check(same(i, d['i']) and h is (h0 if const else h2) and (s is None if const else s == stat) and same(c, d['c']), 'what is stored')
            log.append('store')
        o = make(w.get(GP), n_eval=d['ne'], hp_const_n_eval=d['nc'], wellcond_mtd=mtd, cond_vreq_max_iter=it, hp_info_optz_lkd=info, _gp_optz_plt_lkd_bool=False,
                 get_init_hp_vals=lambda: h0, get_scl_x_w_dist=lambda: (d['x'], R), calc_all_K_w_chofac=K, select_hp_optz_x0=select, optz_hp_max_lkd=optz,
                 optz_hp_max_lkd_mtd_rescale=resc, hp_vec2dataclass=vec, optz_closed_form_hp=closed, store_new_para_surr=store)
        o.optz_hp(d['i'])
        want = ['store'] if const else ['select', 'rescale' if 'rescale' in mtd and it > 1 else 'optz', 'closed', 'store']
        return dict(what=flag(not bad and log == want))
    return Ob(f'optz_hp {"constant" if const else "optimised"} {mtd} {it}', ['C17'], ['GpHparaOptz.optz_hp'], inputs, run,
              lambda d, o: [Post('the result, completed in closed form, is what is stored', 'what', (), lambda: ONE)], partial=True)


def closed():
    def one(noisy):
        def inputs():
            return Inputs().real('b', sym('nb')).real('vK', pos=True).real('v0', pos=True).real('th', DIM, pos=True)

        def run(w, d):
            ok = []

            def lkd(hp, calc_lkd=True, calc_cond=False, calc_grad=False):
                ok.append(hp is h)
                return Res(hp_beta=d['b'], hp_varK=d['vK'] if not noisy else None, ln_lkd=None), True
            h = w.get('gpgradpy.src.base.GpHpara:HparaOptzVal')(None, d['th'], None, d['v0'] if noisy else None, None, None)
            r = make(w.get(GP), b_has_noisy_data=noisy, calc_lkd_all=lkd).optz_closed_form_hp(h)
            return dict(b=r.beta, vK=r.varK, th=r.theta, what=flag(all(ok) and len(ok) == 1 and r.kernel is None and r.var_fval is None and r.var_fgrad is None))
        k, j = fr(DIM, 'k'), fr(sym('nb'), 'j')
        return Ob(f'optz_closed_form_hp {"noisy" if noisy else "noise-free"}', ['C17', 'C15'], ['GpHparaOptz.optz_closed_form_hp'], inputs, run,
                  lambda d, o: [Post('coefficients of the mean', 'b', (j,), lambda: S('b', j)), Post('varK', 'vK', (), lambda: S('v0' if noisy else 'vK')),
                                Post('theta', 'th', (k,), lambda: S('th', k)), Post('the likelihood of these hyperparameters', 'what', (), lambda: ONE)],
                  shapes=dict(b=(sym('nb'),), th=(DIM,)), partial=True)
    return [one(False), one(True)]


def obligations():
    return starts() + reported() + rescale() + steps() + closed()
