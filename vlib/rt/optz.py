"""Runtime contracts of the hyperparameter optimisation and of the stored history: C15-C18."""
import os
import shutil
import tempfile
import types

import numpy as np

from .. import ref
from .core import WELLCONDS, Conf, Fail, call, gen_conf, identical, must_raise, same, spread_points, vreq

SINGLE = ('precon', 'base', 'dflt_vmin', 'dflt_vmax')


def _opts(rng):
    return dict(optz_log_hp_theta=bool(rng.random() < .7), optz_log_hp_var=bool(rng.random() < .7),
                optz_log_hp_kernel=bool(rng.random() < .7), b_optz_hp_kernel=bool(rng.random() < .7))


def layout(c):
    """(slots, log flags) of the vector of optimised hyperparameters for a configuration."""
    g, d = c.gp, c.dim
    out = [('theta', d, g.optz_log_hp_theta)]
    if c.kernel == 'RatQu' and g.b_optz_hp_kernel:
        out.append(('kernel', 1, g.optz_log_hp_kernel))
    if c.noisy:
        out.append(('varK', 1, g.optz_log_hp_var))
    if c.sf is None:
        out.append(('var_fval', 1, g.optz_log_hp_var))
    if c.use_grad and c.sg is None:
        out.append(('var_fgrad', 1, g.optz_log_hp_var))
    return out


def decode(c, vec):
    out, p = {}, 0
    for name, w, lg in layout(c):
        v = np.asarray(vec, float)[p:p + w]
        v = 10 ** v if lg else v.copy()
        out[name] = v if name == 'theta' else float(v[0])
        p += w
    return out


def check_decoded(c, hp, vec, what):
    want = decode(c, vec)
    for name in ('theta', 'kernel', 'varK', 'var_fval', 'var_fgrad'):
        got = getattr(hp, name)
        if name in want:
            if got is None:
                raise Fail(f'{what}: {name} is missing')
            same(f'{what}: {name}', np.asarray(got, float).reshape(np.shape(want[name])), want[name], 1e-12)
        elif name == 'kernel' and c.kernel == 'RatQu':
            same(f'{what}: kernel hyperparameter (not optimised: its default)', np.asarray(float(got)),
                 np.asarray(float(c.gp.hp_kernel_default)), 1e-14)
        elif name != 'kernel' and got is not None and not np.all(np.isnan(np.asarray(got, float))):
            raise Fail(f'{what}: {name} = {got!r} although it is not optimised')


# ---------------------------------------------------------------- C15 layout and decoding
def gen_C15(rng, k):
    c = gen_conf(rng, k)
    c['opts'] = _opts(rng)
    return c


def run_C15(case):
    c = Conf(case)
    g, rng = c.gp, c.rng
    info = g.hp_info_optz_lkd
    lay = layout(c)
    n = sum(w for _, w, _ in lay)
    if info.n_hp != n:
        raise Fail(f'number of optimised hyperparameters is {info.n_hp}, wanted {n}')
    p, logs = 0, []
    names = [q[0] for q in lay]
    for name in ('theta', 'kernel', 'varK', 'var_fval', 'var_fgrad'):
        if bool(getattr(info, 'has_' + name)) != (name in names):
            raise Fail(f'has_{name} is {getattr(info, "has_" + name)}')
        ix = np.atleast_1d(getattr(info, 'idx_' + name))
        w = dict((q[0], q[1]) for q in lay).get(name, 0)
        identical(f'idx_{name}', ix.astype(int), np.arange(p, p + w))
        p += w
        if name in names:
            logs += [bool(dict((q[0], q[2]) for q in lay)[name])] * w
    identical('bvec_log_optz', np.asarray(info.bvec_log_optz, bool), np.array(logs))
    for _ in range(2):
        vec = rng.uniform(-3, 3, n)
        keep = vec.copy()
        hp = call('hp_vec2dataclass', g.hp_vec2dataclass, info, vec)
        identical('the vector of hyperparameters after it is decoded', vec, keep)
        check_decoded(c, hp, vec, 'decoded')
        if hp.beta is not None:
            raise Fail('beta is set by the decoding')
    # what the optimiser sees is the likelihood of the decoded hyperparameters
    vec = np.where(np.array(logs), rng.uniform(-0.6, .4, n), rng.uniform(.3, 2.0, n))
    hp = g.hp_vec2dataclass(info, vec)
    d = decode(c, vec)
    full = g.make_hp_class(None, d['theta'], d.get('kernel', c.gp.hp_kernel_default if c.kernel == 'RatQu' else None),
                           d.get('varK'), d.get('var_fval'), d.get('var_fgrad'))
    a, ok = call('calc_lkd_all', g.calc_lkd_all, full, calc_lkd=True)
    if ok:
        b = call('return_optz_val', g.return_optz_val, vec)
        same('objective of the optimiser', np.float64(b), np.float64(-a.ln_lkd), 1e-9, 1.0)
    # initial hyperparameters
    g.hp_theta_init, g.hp_varK_init = float(rng.uniform(.1, 2)), float(rng.uniform(.1, 2))
    g.hp_var_fval_init, g.hp_var_fgrad_init = float(rng.uniform(.1, 2)), float(rng.uniform(.1, 2))
    h = call('get_init_hp_vals', g.get_init_hp_vals)
    same('initial theta', h.theta, np.full(c.dim, g.hp_theta_init), 1e-14)
    same('initial beta', h.beta, np.array([c.scaled()[1].mean()]), 1e-10, 1e-12)
    same('initial varK', np.float64(h.varK), np.float64(g.hp_varK_init), 1e-14)
    for nm, unk, val in (('var_fval', c.sf is None, g.hp_var_fval_init),
                         ('var_fgrad', c.use_grad and c.sg is None, g.hp_var_fgrad_init)):
        got = getattr(h, nm)
        if unk:
            same('initial ' + nm, np.float64(got), np.float64(val), 1e-14)
        elif got is not None:
            raise Fail(f'initial {nm} is {got!r} although the noise is known')
    if c.kernel == 'RatQu':
        same('initial kernel hyperparameter', np.float64(h.kernel), np.float64(g.hp_kernel_default), 1e-14)


# ---------------------------------------------------------------- C16 bounds and starting points
def gen_C16(rng, k):
    c = gen_conf(rng, k, wellconds=SINGLE, nmax=5)
    c['n'] = max(c['n'], 2)
    c['opts'] = _opts(rng)
    c['start'] = ['lhs', 'hp_best'][k % 2]
    c['hist'] = int(rng.integers(1, 9)) if k % 5 else 0
    c['window'] = int(rng.choice([1, 2, 5]))
    c['factors'] = [[1e3, 1e5], [10., 100.], [2., 2.]][int(rng.integers(3))]
    c['extreme'] = bool(rng.random() < .4)
    if c['start'] == 'hp_best':
        c['factors'] = [[5., 50.], [2., 2.]][int(rng.integers(2))]
        c['extreme'] = False
        c['cond_max'] = float(rng.choice([1e3, 1e5, 1e12])) if rng.random() < .6 else 1e14
    return c


def run_C16(case):
    c = Conf(case)
    g, rng, d = c.gp, c.rng, c.dim
    N = case['hist'] + 3
    i = case['hist']
    if i > 0 or case['seed'] % 2:
        call('init_optz_surr', g.init_optz_surr, N)
    spread = 12 if case['extreme'] else .5
    hist = dict(theta=10 ** rng.uniform(-spread, spread, (N, d)), kernel=10 ** rng.uniform(-spread / 6, spread / 6, N),
                varK=10 ** rng.uniform(-spread, spread, N), var_fval=10 ** rng.uniform(-spread, spread, N) * 1e-2,
                var_fgrad=10 ** rng.uniform(-spread, spread, N) * 1e-2)
    if i > 0:
        for nm, v in hist.items():
            a = getattr(g, f'hp_{nm}_all')
            a[:i] = v[:i]
    else:       # nothing is stored: the initial hyperparameters take the place of the median
        g.hp_theta_init, g.hp_varK_init, g.hp_var_fval_init, g.hp_var_fgrad_init = (float(t) for t in 10 ** rng.uniform(-1, .3, 4))
        hist = dict(theta=np.full((1, d), g.hp_theta_init), kernel=np.array([g.hp_kernel_default], float),
                    varK=np.array([g.hp_varK_init]), var_fval=np.array([g.hp_var_fval_init]),
                    var_fgrad=np.array([g.hp_var_fgrad_init]))
    g.hp_median_n_idx, (g.hp_lhs_bound_factor, g.hp_box_bound_factor) = case['window'], case['factors']
    g.hp_theta_range = [1e-8, 1e8]
    g.hp_varK_range = [1e-6, 1e6]
    g.hp_var_fval_range = [1e-5, 1e3]
    g.hp_var_fgrad_range = [1e-4, 1e4]
    g.lkd_optz_start_mtd, g.optz_n_x0, g.lkd_hp_best_n_eval = case['start'], 4, 6
    lo, hi, xlo, xhi, med_all = [], [], [], [], []
    for name, w, lg in layout(c):
        v = hist[name][max(0, i - case['window']):max(i, 1)]
        rngv = getattr(g, f'hp_{name}_range')
        med = np.clip(np.median(v, axis=0), rngv[0], rngv[1])
        med = np.broadcast_to(med, (w,))
        f = np.log10 if lg else (lambda t: t)
        for fac, a, b in ((case['factors'][1], lo, hi), (case['factors'][0], xlo, xhi)):
            a += list(f(np.clip(med / fac, *rngv)))
            b += list(f(np.clip(med * fac, *rngv)))
    lo, hi, xlo, xhi = map(np.array, (lo, hi, xlo, xhi))
    info = g.hp_info_optz_lkd
    x0, box, _ = call('select_hp_optz_x0', g.select_hp_optz_x0, i, info) if case['start'] == 'lhs' else (None, None, None)
    cand, box2 = call('get_hp_x0_lhs_median', g.get_hp_x0_lhs_median, i, info, 6)
    again = call('get_hp_x0_lhs_median', g.get_hp_x0_lhs_median, i, info, 6)[0]
    identical('starting points selected again', again, cand)
    for nm, b in (('', box), (' (candidates)', box2)):
        if b is None:
            continue
        same('lower bounds of the optimisation' + nm, np.asarray(b.lb), lo, 1e-12)
        same('upper bounds of the optimisation' + nm, np.asarray(b.ub), hi, 1e-12)
    for nm, pts, n0 in (('starting points', x0, 4), ('candidates', cand, 6)):
        if pts is None:
            continue
        if pts.shape != (n0, info.n_hp):
            raise Fail(f'{nm}: shape {pts.shape}, wanted {(n0, info.n_hp)}')
        e = 1e-9 * (1 + np.abs(xlo) + np.abs(xhi))
        if np.any(pts < xlo - e) or np.any(pts > xhi + e) or not np.all(np.isfinite(pts)):
            raise Fail(f'{nm} {pts.tolist()} outside of [{xlo.tolist()}, {xhi.tolist()}]')
        if info.n_hp > 1:     # latin hypercube: one point in each of the n0 slices of every hyperparameter
            for j in range(info.n_hp):
                if xhi[j] > xlo[j] * (1 + 1e-9) + 1e-9:
                    b = np.floor((pts[:, j] - xlo[j]) / (xhi[j] - xlo[j]) * n0 * (1 - 1e-12)).astype(int)
                    if sorted(np.clip(b, 0, n0 - 1)) != list(range(n0)):
                        raise Fail(f'{nm}: hyperparameter {j} does not have one point in each of the {n0} slices: {pts[:, j].tolist()}')
        else:
            same(nm + ' of a single hyperparameter', pts[:, 0], np.linspace(xlo[0], xhi[0], n0 + 2)[1:-1], 1e-9, 1e-9)
    # bounds of the whole range
    pmin, pmax, bb = call('get_hp_bounds', g.get_hp_bounds, info)
    wl, wh = [], []
    for name, w, lg in layout(c):
        r = np.asarray(getattr(g, f'hp_{name}_range'), float)
        r = np.log10(r) if lg else r
        wl += [r[0]] * w; wh += [r[1]] * w
    same('lower end of the range', np.asarray(pmin), np.array(wl), 1e-12)
    same('upper end of the range', np.asarray(pmax), np.array(wh), 1e-12)
    same('range bounds', np.asarray(bb.lb), np.array(wl), 1e-12)
    same('range bounds', np.asarray(bb.ub), np.array(wh), 1e-12)
    if case['start'] != 'hp_best':
        return
    # any pattern of likelihoods, condition numbers and missing factorisations
    use_c = g.wellcond_mtd != 'precon'
    for trial in range(4):
        val, cond = rng.normal(0, 3, 6), 10 ** rng.uniform(-2, 2, 6) * g.cond_max
        if trial % 2:
            cond = np.maximum(cond, 1.5 * g.cond_max * (1 + rng.random(6)))
        good = rng.random(6) < (.9 if trial < 2 else .5)
        good[int(rng.integers(6))] = True
        dec = [np.concatenate([np.atleast_1d(np.asarray(v, float)) for v in decode(c, x).values()]) for x in cand]

        def fake(hp, calc_lkd=True, calc_cond=False, calc_grad=False):
            v = np.concatenate([np.atleast_1d(np.asarray(getattr(hp, nm), float)) for nm, _, _ in layout(c)])
            k = int(np.argmin([np.max(np.abs(v - w)) for w in dec]))
            r = types.SimpleNamespace(ln_lkd=val[k] if good[k] else None, cond=cond[k] if good[k] and calc_cond else None)
            return r, bool(good[k])
        g.calc_lkd_all = fake
        try:
            x0, _, _ = call('select_hp_optz_x0', g.select_hp_optz_x0, i, info)
        finally:
            del g.calc_lkd_all
        fit = good & (cond <= 1.2 * g.cond_max) if use_c else good
        want = np.argmax(np.where(fit, val, -np.inf)) if fit.any() else np.argmin(np.where(good, cond, np.inf))
        if x0.shape != (1, info.n_hp) or not np.array_equal(x0[0], cand[want]):
            raise Fail(f'hp_best start is {x0.tolist()}, wanted candidate {int(want)}: log likelihoods {val.tolist()}, cond / cond_max '
                       f'{(cond / g.cond_max).tolist()}, factorised {good.tolist()}')
    # the start is the candidate with the largest likelihood among those that are well conditioned
    val, cond = np.full(6, np.nan), np.full(6, np.nan)
    for k in range(6):
        li, ok = call('calc_lkd_all', g.calc_lkd_all, g.hp_vec2dataclass(info, cand[k]), calc_cond=use_c)
        if ok:
            val[k], cond[k] = li.ln_lkd, (li.cond if use_c else 0)
    if np.all(np.isnan(val)):
        return False
    good = ~np.isnan(val) & (cond <= 1.2 * g.cond_max)
    x0, box, _ = call('select_hp_optz_x0', g.select_hp_optz_x0, i, info)
    if x0.shape != (1, info.n_hp):
        raise Fail(f'hp_best start has shape {x0.shape}')
    hit = [k for k in range(6) if np.array_equal(x0[0], cand[k])]
    if not hit:
        raise Fail('hp_best start is not one of the candidates')
    if use_c and not good.any():
        want = np.nanargmin(cond)
        if want not in hit:
            raise Fail(f'hp_best start is candidate {hit}, wanted the best conditioned one {want}; cond = {cond.tolist()}')
        return
    if any(abs(cond[k] / (1.2 * g.cond_max) - 1) < 1e-6 for k in range(6) if use_c and cond[k] == cond[k]):
        return False
    top = np.nanmax(np.where(good, val, np.nan))
    if not any(good[k] and val[k] >= top - 1e-7 * (1 + abs(top)) for k in hit):
        raise Fail(f'hp_best start is candidate {hit}: log likelihoods {val.tolist()}, cond {cond.tolist()}, cond_max {g.cond_max:g}')


# ---------------------------------------------------------------- C17 multi-start optimisation
def gen_C17(rng, k):
    c = gen_conf(rng, k, wellconds=SINGLE, nmax=5)
    c['n'] = max(c['n'], 2)
    c['opts'] = _opts(rng)
    c['starts'] = int(rng.integers(1, 6))
    c['stub'] = bool(k % 4)
    c['cond_max'] = float(rng.choice([30., 1e3, 1e12])) if rng.random() < .6 else 1e12
    c['step'] = bool(k % 3 == 1)
    if c['step']:
        c['wellcond'] = str(rng.choice(WELLCONDS))
        c['cond_max'], c['kappa'] = 1e12, 1e5
        c['iters'] = int(rng.integers(1, 4))
    return c


class _Min:
    """Stands in for scipy.optimize.minimize: records what the optimiser is given and (stub) returns an
    arbitrary admissible result instead of running the solver."""

    def __init__(self, rng, stub, real):
        self.rng, self.stub, self.real, self.calls = rng, stub, real, []

    def __call__(self, fun, x0, args=(), method=None, jac=None, hess=None, hessp=None, bounds=None, constraints=(),
                 tol=None, callback=None, options=None):
        x0 = np.array(x0, float)
        rec = dict(fun=fun, x0=x0.copy(), method=method, jac=jac, lb=np.array(bounds.lb, float),
                   ub=np.array(bounds.ub, float), con=constraints, opt=dict(options or {}))
        if self.stub:
            from scipy.optimize import OptimizeResult
            t = self.rng.random(x0.shape)
            w = self.rng.choice([0.0, 0.2, 1.0])
            x = np.clip(x0 + w * (rec['lb'] + t * (rec['ub'] - rec['lb']) - x0), rec['lb'], rec['ub'])
            res = OptimizeResult(x=x, fun=fun(x), success=bool(self.rng.random() < .6), nit=int(self.rng.integers(1, 60)),
                                 message='stub', status=0, nfev=1)
        else:
            res = self.real(fun, x0, method=method, jac=jac, bounds=bounds, constraints=constraints, options=options)
        rec['res'] = res
        self.calls.append(rec)
        return res


def run_step(case):
    """One whole optimisation step: what is in use and stored afterwards belongs together."""
    import importlib
    import scipy.optimize as so
    mod = importlib.import_module('gpgradpy.src.optz.OptzLkd')
    c = Conf(case)
    g, rng, d = c.gp, c.rng, c.dim
    call('init_optz_surr', g.init_optz_surr, 3)
    th0 = 10 ** rng.uniform(-.5, .3, d)
    if g.b_use_data_scl:
        th0 = np.full(d, 10 ** rng.uniform(-1, .2)) * np.exp(rng.normal(size=d) * .2)
    hp = g.make_hp_class(np.zeros(1), th0, 2.0 if c.kernel == 'RatQu' else None, 1.0, .01 if c.sf is None else None,
                         .01 if (c.use_grad and c.sg is None) else None)
    it = int(rng.integers(0, 2))
    if it:
        call('store_new_para_surr', g.store_new_para_surr, 0, hp)
    g.hp_theta_init = float(th0[0])
    g.hp_var_fval_init = g.hp_var_fgrad_init = .01
    g.hp_const_n_eval, g.lkd_hp_best_n_eval, g.optz_n_x0, g.cond_vreq_max_iter = 1, 4, 2, case['iters']
    g.hp_lhs_bound_factor, g.hp_box_bound_factor, g.optz_iter_max = 2., 4., 3
    g.lkd_optz_start_mtd = str(rng.choice(['lhs', 'hp_best']))
    real, old = so.minimize, getattr(mod, 'minimize', None)
    spy = _Min(rng, case['stub'], real)
    try:
        so.minimize = spy
        if old is not None:
            mod.minimize = spy
        call('set_hpara("optz")', g.set_hpara, 'optz', it, calc_cond=True)
    finally:
        so.minimize = real
        if old is not None:
            mod.minimize = old
    h = g.hp_vals
    if not spy.calls:
        raise Fail('scipy.optimize.minimize was not called')
    Xs = c.scaled()[0]
    if 'rescale' in g.wellcond_mtd and case['iters'] > 1:
        D = np.sqrt(((Xs[:, None] - Xs[None]) ** 2).sum(-1)) + np.diag(np.full(c.n, np.inf))
        want = g.vmin_rescale_eta_vary if g.wellcond_mtd == 'rescale_eta_vary' else vreq(c.n, d)
        same('minimum distance of the scaled points after the step', np.float64(D.min()), np.float64(want), 1e-9)
        if not np.allclose(h.theta, h.theta[0], rtol=1e-9):
            raise Fail(f'theta after the step is {h.theta.tolist()}: the scaling does not make it isotropic')
    elif not any(np.allclose(np.asarray(decode(c, q['res'].x)['theta']), h.theta, rtol=1e-12) for q in spy.calls):
        raise Fail(f'theta after the step {h.theta.tolist()} is not the result of one of the optimisations')
    vK = float(h.varK) if c.noisy else 1.0
    ns = c.noise(h.var_fval, h.var_fgrad) / vK if c.noisy else np.zeros(g.n_data)
    Kn = c.kern(h.theta, h.kernel)
    M = Kn + np.diag(ns)
    p = np.sqrt(np.diag(M)) if c.precon else np.ones(len(M))
    S = M + c.eta(Kn, ns) * np.diag(p ** 2)
    M = S / np.outer(p, p)
    w = np.linalg.eigvalsh(M)
    wc = w[-1] / w[0] if w[0] > 0 else np.inf
    if not wc < 1e8:
        return False
    same('stored condition number', np.float64(g.Kcov_cond_all[it]), np.float64(wc), 1e-5)
    y = c.data_vec(); v = np.zeros(len(y)); v[:c.n] = 1.0
    Vi = np.linalg.solve(S, v)
    beta = (Vi @ y) / (Vi @ v)
    same('beta after the step', h.beta, np.array([beta]), 1e-5, np.max(np.abs(y)) + 1e-12)
    r = y - v * beta
    if not c.noisy:
        same('varK after the step', np.float64(h.varK), np.float64(max(r @ np.linalg.solve(S, r) / len(y), 1e-32)), 1e-4,
             np.max(np.abs(y)) ** 2 * 1e-6)
    for nm in ('theta', 'varK', 'beta'):
        identical(f'stored {nm} after the step', np.asarray(getattr(g, f'hp_{nm}_all')[it], float),
                  np.asarray(getattr(h, nm), float))
    if g.b_use_data_scl:
        identical('stored scaling after the step', g.xvec_rescaling_all[it], g.DataScl.xvec_scale)


def run_C17(case):
    if case.get('step'):
        return run_step(case)
    import scipy.optimize as so
    import importlib
    mod = importlib.import_module('gpgradpy.src.optz.OptzLkd')
    c = Conf(case)
    g, rng, d = c.gp, c.rng, c.dim
    call('init_optz_surr', g.init_optz_surr, 3)
    info, n0 = g.hp_info_optz_lkd, case['starts']
    logs = np.asarray(info.bvec_log_optz, bool)
    lb, ub = np.where(logs, -1.0, .05), np.where(logs, .7, 5.0)
    X0 = rng.uniform(lb + .1 * (ub - lb), ub - .1 * (ub - lb), (n0, info.n_hp))
    box = so.Bounds(lb, ub, keep_feasible=True)
    g.optz_iter_max = 4
    cc = g.wellcond_mtd != 'precon'
    nofac = [k for k in range(n0) if rng.random() < .3] if cc and case['stub'] else []
    if nofac:       # starting points without a Cholesky factor
        lkd_all, th = g.calc_lkd_all, [np.asarray(decode(c, X0[k])['theta'], float) for k in nofac]

        def some_fail(hp_vals, **kw):
            li, ok = lkd_all(hp_vals, **kw)
            if any(np.allclose(hp_vals.theta, t, rtol=1e-12) for t in th):
                li.ln_lkd, li.ln_lkd_grad, ok = None, None, False
            return li, ok
        g.calc_lkd_all = some_fail
    real = so.minimize
    spy = _Min(rng, case['stub'], real)
    old = getattr(mod, 'minimize', None)
    try:
        so.minimize = spy
        if old is not None:
            mod.minimize = spy
        hist = X0[0] if n0 == 1 and rng.random() < .5 else X0
        best, cond, stat = call('optz_hp_max_lkd', g.optz_hp_max_lkd, hist, box)
    finally:
        so.minimize = real
        if old is not None:
            mod.minimize = old
    if not spy.calls:
        raise Fail('scipy.optimize.minimize was not called')
    if len(spy.calls) != n0:
        raise Fail(f'{len(spy.calls)} optimisations for {n0} starting points')
    used = sorted(range(n0), key=lambda k: tuple(spy.calls[k]['x0']))
    wantx = sorted(range(n0), key=lambda k: tuple(X0[k]))
    identical('starting points of the optimisations', np.array([spy.calls[k]['x0'] for k in used]), X0[wantx])
    sols = np.array([q['res'].x for q in spy.calls])
    objs, conds = np.full(n0, np.nan), np.full(n0, np.nan)
    nfail = 0

    def lkd(x):
        li, ok = call('calc_lkd_all', g.calc_lkd_all, g.hp_vec2dataclass(info, x), calc_lkd=True, calc_cond=cc)
        return li, ok
    icond = np.full(n0, np.nan)
    for k, q in enumerate(spy.calls):
        same('lower bounds given to the optimiser', q['lb'], lb, 1e-14)
        same('upper bounds given to the optimiser', q['ub'], ub, 1e-14)
        con = q['con'] if isinstance(q['con'], (list, tuple)) else [q['con']]
        if bool(len(con)) != cc:
            raise Fail(f'{len(con)} constraints given to the optimiser with wellcond_mtd = {g.wellcond_mtd}')
        li, ok = lkd(q['x0'])
        nfail += not ok
        if cc:
            icond[k] = li.cond
            same('constraint value', np.float64(con[0].fun(q['x0'])), np.float64(li.cond), 1e-6)
            same('constraint bound', np.float64(np.max(con[0].ub)), np.float64(g.cond_max), 1e-12)
        if ok:
            same('objective given to the optimiser', np.float64(q['fun'](q['x0'])), np.float64(-li.ln_lkd), 1e-9, 1.0)
        objs[k] = q['res'].fun
        if cc:
            conds[k] = lkd(sols[k])[0].cond
    if cc and np.any(np.abs(conds / (1.01 * g.cond_max) - 1) < 1e-6):
        return False
    good = conds < 1.01 * g.cond_max if cc else np.ones(n0, bool)
    pool = good if good.any() else np.ones(n0, bool)
    hit = [k for k in range(n0) if np.array_equal(sols[k], best)]
    if not hit:
        raise Fail(f'the returned hyperparameters {best.tolist()} are not the result of one of the optimisations')
    if not np.all(np.isnan(objs[pool])):
        top = np.nanmin(objs[pool])
        if not any(pool[k] and objs[k] == top for k in hit):
            raise Fail(f'run {hit} is returned: objectives {objs.tolist()}, condition numbers {conds.tolist()}, '
                       f'limit {1.01 * g.cond_max:g}')
    succ = np.array([bool(q['res'].success) for q in spy.calls])
    nit = np.array([q['res'].nit for q in spy.calls], float)
    for nm, w in (('hp_optz_success', succ.mean()), ('hp_optz_iter_mean', nit.mean()), ('hp_optz_iter_max', nit.max()),
                  ('hp_optz_con_good', good.mean())):
        same(nm, np.float64(stat[nm]), np.float64(w), 1e-12)
    if cc:
        same('optz_n_cho_fail', np.float64(stat['optz_n_cho_fail']), np.float64(nfail), 1e-12)
        if not np.any(np.abs(icond / g.cond_max - 1) < 1e-6):
            same('optz_n_cond2big', np.float64(stat['optz_n_cond2big']), np.float64(np.sum(icond > g.cond_max)), 1e-12)
        same('optz_max_init_cond', np.float64(stat['optz_max_init_cond']), np.float64(np.nanmax(icond)), 1e-6)
    if nofac:
        del g.calc_lkd_all
    # condition number at the returned hyperparameters
    hpb = g.hp_vec2dataclass(info, best)
    dec = decode(c, best)
    vK = dec.get('varK', 1.0)
    Kn = c.kern(dec['theta'], dec.get('kernel', c.gp.hp_kernel_default if c.kernel == 'RatQu' else None))
    ns = c.noise(dec.get('var_fval'), dec.get('var_fgrad')) / vK if c.noisy else np.zeros(Kn.shape[0])
    M = Kn + np.diag(ns)
    if c.precon:
        p = np.sqrt(np.diag(M)); M = M / np.outer(p, p)
    M = M + c.eta(Kn, ns) * np.eye(len(M))
    w = np.linalg.eigvalsh(M)
    wc = w[-1] / w[0] if w[0] > 0 else np.inf
    if 1 < wc < 1e10:
        same('condition number at the returned hyperparameters', np.float64(cond), np.float64(wc), 1e-5)
    # the whole step: hyperparameters in use afterwards
    call('optz_closed_form_hp', g.optz_closed_form_hp, hpb)
    dec_al = dec.get('kernel', c.gp.hp_kernel_default if c.kernel == 'RatQu' else None)
    if wc < 1e8 and np.isfinite(wc):
        C = (np.diag(p) if c.precon else np.eye(len(M)))
        S = (C @ M @ C)
        y = c.data_vec(); v = np.zeros(len(y)); v[:c.n] = 1.0
        Vi = np.linalg.solve(S, v)
        beta = (Vi @ y) / (Vi @ v)
        same('beta after the optimisation', hpb.beta, np.array([beta]), 1e-4, np.max(np.abs(y)) * .1 + 1e-12)
        if not c.noisy:
            r = y - v * beta
            q = r @ np.linalg.solve(S, r) / len(y)
            if q > 1e-9 * (np.max(np.abs(y)) ** 2 + 1e-12):
                same('varK after the optimisation', np.float64(hpb.varK), np.float64(q), 1e-4, np.max(np.abs(y)) ** 2 * 1e-6)
    check_decoded(c, g.hp_vec2dataclass(info, best), best, 'decoded optimum')


# ---------------------------------------------------------------- C18 stored history
KEYS = ['hp_beta_all', 'hp_varK_all', 'hp_var_fval_all', 'hp_var_fgrad_all', 'hp_theta_all', 'hp_kernel_all',
        'min_nugget_all', 'Kcov_cond_all', 'Kcov_cond_at_max_all', 'eta_Kbase_all', 'eta_Kgrad_all', 'vmin_init_all',
        'vmin_req_grad_all', 'xvec_rescaling_all', 'hp_optz_success', 'hp_optz_iter_mean', 'hp_optz_iter_max',
        'hp_optz_con_good', 'optz_n_cho_fail_all', 'optz_n_cond2big_all', 'optz_max_init_cond_all', 'time_pick_hp0_all',
        'time_hp_optz_all', 'time_chofac_all', 'var_fval', 'varK_var_fval']


def gen_C18(rng, k):
    c = gen_conf(rng, k, nmax=4)
    c['n'] = max(2, c['n'])
    c['iters'] = int(rng.integers(1, 4))
    c['disk'] = bool(rng.random() < .4)
    c['dflt'] = bool(rng.random() < .5)
    c['optz'] = bool(k % 3 == 0)
    c['name'] = str(rng.choice(['obj_', 'nlc1_', '']))
    return c


def run_C18(case):
    scratch = tempfile.mkdtemp(prefix='c18_')
    try:
        return _c18(case, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def _c18(case, scratch):
    from gpgradpy.src import GaussianProcess
    c = Conf(case)
    rng, d, n, it = c.rng, c.dim, c.n, case['iters']

    def make():
        g = GaussianProcess(d, c.use_grad, c.kernel, case['wellcond'],
                            path_data_surr=os.path.join(scratch, 'gp'), surr_name=case['name'])
        g.cond_max_target, g.cond_max = case['kappa'], 1e12
        g.lkd_hp_best_n_eval, g.optz_iter_max, g.hp_const_n_eval = 3, 2, n - 1 + 1
        g.hp_theta_init = 0.3
        g.hp_var_fval_init = g.hp_var_fgrad_init = 0.01
        return g
    g = make()
    N = it + 2
    call('init_optz_surr', g.init_optz_surr, N)
    xq = c.X[:1] + .1
    seen = []

    def data(g, i):
        r2 = np.random.default_rng(case['seed'] + i)
        X = spread_points(r2, n + i, d, .4) * (1 + i)
        f = r2.normal(size=n + i) * 3
        sf = None if c.sf is None else np.full(n + i, .1) * (case['noise'][0] != 'zero')
        if not c.use_grad:
            call('set_data', g.set_data, X, f, sf)
            return f
        G = r2.normal(size=(n + i, d))
        sg = None if case['noise'][1] == 'unknown' else np.full((n + i, d), .1) * (case['noise'][1] != 'zero')
        call('set_data', g.set_data, X, f, sf, G, sg)
        return f
    for i in range(it):
        f = data(g, i)
        if case['optz'] or i == 0:
            call(f'set_hpara("optz", {i})', g.set_hpara, 'optz', i)
        else:
            hp = g.make_hp_class(rng.normal(size=1), 10 ** rng.uniform(-.5, .5, d),
                                 float(rng.uniform(.5, 4)) if c.kernel == 'RatQu' else None, float(rng.uniform(.5, 4)),
                                 .02 if c.sf is None else None, .03 if (c.use_grad and c.sg is None) else None)
            cv = float(g.cond_max * [.5, .995, 2.0][i % 3])
            call('store_new_para_surr', g.store_new_para_surr, i, hp, dict(
                hp_optz_success=.25, hp_optz_iter_mean=3.5, hp_optz_iter_max=7, hp_optz_con_good=.75, optz_n_cho_fail=1,
                optz_n_cond2big=2, optz_max_init_cond=5e3), cv, 1.5, 2.5, 3.5)
            for nm, w in (('hp_optz_success', .25), ('hp_optz_iter_mean', 3.5), ('hp_optz_iter_max', 7),
                          ('hp_optz_con_good', .75), ('optz_n_cho_fail_all', 1), ('optz_n_cond2big_all', 2),
                          ('optz_max_init_cond_all', 5e3), ('Kcov_cond_all', cv), ('time_hp_optz_all', 1.5),
                          ('time_chofac_all', 2.5), ('time_pick_hp0_all', 3.5),
                          ('Kcov_cond_at_max_all', cv >= .99 * g.cond_max)):
                same(f'stored {nm}', np.float64(getattr(g, nm)[i]), np.float64(w), 1e-14)
            call('set_hpara("current")', g.set_hpara, 'current', i)
        hp = g.hp_vals
        eta = [g._eta_Kbase, g._eta_Kgrad] if hasattr(g, '_eta_Kgrad') else None
        xs = g.DataScl.xvec_scale.copy() if g.b_use_data_scl else None
        if abs(g.var_fval[i] - np.var(f)) > 1e-10 * (np.var(f) + 1e-30):
            raise Fail(f'stored var_fval {g.var_fval[i]!r}, wanted {np.var(f)!r}')
        same('stored varK / var(f)', np.float64(g.varK_var_fval[i]), np.float64(float(hp.varK) / np.var(f)), 1e-10)
        for nm, v in (('beta', hp.beta), ('theta', hp.theta), ('varK', hp.varK), ('kernel', hp.kernel),
                      ('var_fval', hp.var_fval), ('var_fgrad', hp.var_fgrad)):
            w = np.nan if v is None else v
            st = getattr(g, f'hp_{nm}_all')[i]
            identical(f'stored hp_{nm}_all[{i}]', np.asarray(st, float), np.asarray(w, float) + np.zeros(np.shape(st)))
        pred = call('eval_model', g.eval_model, xq)
        seen.append(dict(i=i, pred=[np.array(p) for p in pred[:2]], hp=hp, xs=xs))
    for k in KEYS:       # later iterations untouched
        v = np.asarray(getattr(g, k), float)[it:]
        if k == 'Kcov_cond_at_max_all':
            continue
        if not np.all(np.isnan(v)):
            raise Fail(f'{k} has values after the last stored iteration')

    def recall(g2, what):
        for s in seen:
            data(g2, s['i'])
            call(f'set_hpara("stored") {what}', g2.set_hpara, 'stored', s['i'])
            for nm in ('beta', 'theta', 'varK'):
                identical(f'{what}: recalled {nm} of iteration {s["i"]}', np.asarray(getattr(g2.hp_vals, nm), float),
                          np.asarray(getattr(s['hp'], nm), float))
            for nm in ('var_fval', 'var_fgrad', 'kernel'):
                a, b = getattr(g2.hp_vals, nm), getattr(s['hp'], nm)
                a = np.nan if a is None else float(a); b = np.nan if b is None else float(b)
                identical(f'{what}: recalled {nm} of iteration {s["i"]}', np.float64(a), np.float64(b))
            if s['xs'] is not None:
                same(f'{what}: recalled scaling of iteration {s["i"]}', g2.DataScl.xvec_scale, s['xs'], 1e-14)
            p = call('eval_model', g2.eval_model, xq)
            for nm, a, b in zip(('mean', 'standard deviation'), p, s['pred']):
                same(f'{what}: {nm} with the recalled hyperparameters of iteration {s["i"]}', a, b, 1e-9, 1e-6)
    recall(g, 'stored')
    # export and load
    file = None if case['dflt'] else os.path.join(scratch, 'other.npz')
    old = None if case['dflt'] else os.path.join(scratch, 'other_old.npz')
    snap = {k: np.array(getattr(g, k), copy=True) for k in KEYS}
    if case['disk']:
        ret = call('export_data_surr', g.export_data_surr, True, file, old)
        call('export_data_surr', g.export_data_surr, True, file, old)
        path = os.path.join(scratch, 'gp.npz') if file is None else file
        if not os.path.isfile(path) or not os.path.isfile(path[:-4] + '_old.npz'):
            raise Fail('the file or the backup of the previous file is missing after a second export')
        loaded = dict(np.load(path))
    else:
        ret = call('export_data_surr', g.export_data_surr, False)
        loaded = ret
        if os.listdir(scratch):
            raise Fail('export with save2file False wrote a file')
    for k in KEYS:
        if case['name'] + k not in loaded:
            raise Fail(f'{k} is not exported')
        identical(f'exported {k}', loaded[case['name'] + k], snap[k])
    g2 = make()
    call('init_optz_surr', g2.init_optz_surr, N + 1)
    if case['disk'] and case['dflt']:
        call('load_data_surr', g2.load_data_surr)
    else:
        call('load_data_surr', g2.load_data_surr, loaded)
    for k in KEYS:
        identical(f'loaded {k}', np.asarray(getattr(g2, k)[:N], float), np.asarray(snap[k], float))
    recall(g2, 'loaded')
    # finish
    call('finish_optz_surr', g.finish_optz_surr, it)
    for k in KEYS:
        identical(f'{k} after finish_optz_surr', np.asarray(getattr(g, k), float), np.asarray(snap[k], float)[:it])
    recall(g, 'finished')
    # report
    txt = call('get_txt_info_surr', g.get_txt_info_surr, False, False)
    for i in range(it):
        for v in g.hp_theta_all[i]:
            if f'{v:.4e}' not in txt:
                raise Fail(f'theta = {v:.4e} of iteration {i} is not in the report')
        if f'{g.hp_varK_all[i]:.4e}' not in txt:
            raise Fail(f'varK = {g.hp_varK_all[i]:.4e} of iteration {i} is not in the report')
    if case['disk']:
        call('get_txt_info_surr', g.get_txt_info_surr, False, True)
        with open(os.path.join(scratch, 'gp.txt')) as fh:
            if fh.read() != txt:
                raise Fail('the report written to the file is not the report that is returned')
    g3 = make()
    must_raise('export before init_optz_surr', lambda: g3.export_data_surr(False))
    must_raise('load before init_optz_surr', lambda: g3.load_data_surr(loaded))
    must_raise('finish before init_optz_surr', lambda: g3.finish_optz_surr(1))


GEN = dict(C15=gen_C15, C16=gen_C16, C17=gen_C17, C18=gen_C18)
RUN = dict(C15=run_C15, C16=run_C16, C17=run_C17, C18=run_C18)
