"""Runtime contracts of the Gaussian-process layer: C05-C12, C19-C23."""
import copy

import numpy as np

from .. import ref
from .core import (Conf, Fail, KERNELS, WELLCONDS, call, gen_conf, identical, must_raise, new_gp, offdiag_bound,
                   quiet, ref_eta, rmask, same, same_entry, show, spread_points)


# ---------------------------------------------------------------- C05 condition-number guarantee
def gen_C05(rng, k):
    mode = ('precon', 'precon', 'precon', 'base', 'etavary')[k % 5]
    return dict(seed=int(rng.integers(2 ** 31)), mode=mode, kernel=KERNELS[k % 3], dim=int(rng.integers(1, 7)),
                n=int(rng.integers(1, 9)), spread=float(10 ** rng.uniform(-6, 2)),
                kappa=float(rng.choice([10.0, 1e2, 1e4, 1e6, 1e10])), noise=str(rng.choice(['zero', 'known', 'mixed'])),
                mask=str(rng.choice(['none', 'part', 'all', 'last'])), worst=bool(rng.random() < .5),
                room=float(rng.choice([1.0, 100.0, 1e4])))


def run_C05(c):
    rng = np.random.default_rng(c['seed'])
    d, n, k, mode = c['dim'], c['n'], c['kernel'], c['mode']
    ug = mode != 'base' or False
    al = float(10 ** rng.uniform(-1, 1)) if k == 'RatQu' else None
    wc = {'precon': 'precon', 'base': 'base', 'etavary': 'rescale_eta_vary'}[mode]
    cm = c['kappa'] * c.get('room', 1.0)
    g = new_gp(d, ug, k, wc, cond_max_target=c['kappa'], cond_max=cm, cond_max_abs=1e300)
    X = rng.normal(size=(n, d)) * c['spread']
    th = 10 ** rng.uniform(-1, 1, d)
    if c['worst'] and mode == 'precon':      # pairs at the distance where a row sum is the largest
        v = (-1 + np.sqrt(1 + 4 * d)) / (2 * np.sqrt(d))
        X = np.zeros((n, d)) + (np.arange(n) % 2)[:, None] * v / np.sqrt(2 * d) / np.sqrt(th) \
            + 1e-9 * rng.normal(size=(n, d)) * (np.arange(n) > 1)[:, None]
    if mode == 'etavary':
        X = spread_points(rng, n, d, 0.2)
    if n > 1 and rng.random() < .3 and mode != 'etavary':
        X[-1] = X[0] + 1e-12
    m = rmask(rng, n, c['mask']) if ug else None
    ng = (n if m is None else int(m.sum())) if ug else 0
    noisy = c['noise'] != 'zero' and mode == 'precon'
    sf = rng.uniform(0, 1, n) if noisy else np.zeros(n)
    sg = (rng.uniform(0, 1, (ng, d)) if noisy and c['noise'] == 'mixed' else np.zeros((ng, d))) if ug else None
    a = (X, rng.normal(size=n), sf) + ((rng.normal(size=(ng, d)), sg, m) if ug else ())
    call('set_data', g.set_data, *a)
    R = g.get_scl_x_w_dist()[1]
    hp = g.make_hp_class(np.zeros(1), th, al, 1.0 if not noisy else float(10 ** rng.uniform(-2, 2)))
    Kern, Kcor, Kcov, cho, cond, eta, _ = call('calc_all_K_w_chofac', g.calc_all_K_w_chofac, R, hp, calc_cond=True)
    kap = c['kappa']
    M = Kcov
    if mode == 'precon':
        Kn = Kern + np.diag(call('noise', g.calc_noise_vec, hp) / hp.varK)
        p = np.sqrt(np.diag(Kn))
        M = Kcov / np.outer(p, p)
    w = np.linalg.eigvalsh(M)
    true = w[-1] / w[0] if w[0] > 0 else np.inf
    if true > kap * (1 + 1e-4):
        raise Fail(f'condition number {true:.10g} of the regularised matrix exceeds cond_max_target = {kap:g} '
                   f'({mode}, {k}, n={n}, dim={d}, nugget {eta:.6g})')
    if cond > kap * (1 + 1e-4):
        raise Fail(f'reported condition number {cond:.10g} exceeds cond_max_target = {kap:g}')
    if cho is None:
        raise Fail('Cholesky factorisation of the regularised matrix failed')
    if mode != 'etavary':
        # the nugget is not larger than the bound on the largest eigenvalue asks for
        u = n if mode == 'base' or n == 1 else 1 + offdiag_bound(k, n, d)
        same_entry('nugget', eta, u / (kap - 1), 1e-9)


# ---------------------------------------------------------------- C06 covariance
def gen_C06(rng, k):
    return gen_conf(rng, k)


def run_C06(case):
    c = Conf(case)
    g = c.gp
    R = g.get_scl_x_w_dist()[1]
    Xs = c.scaled()[0]
    same('coordinate differences of the scaled points', R, ref.diffs(Xs, Xs), 1e-12)
    hp = c.hp()
    ns = c.noise() if c.noisy else np.zeros(g.n_data)
    same('noise vector', call('calc_noise_vec', g.calc_noise_vec, hp), ns, 1e-10)
    for norm in (False, True):
        Kern, Kcor, Kcov, cho, cond, eta, _ = call('calc_all_K_w_chofac', g.calc_all_K_w_chofac, R, hp, b_normlz_w_varK=norm)
        K = c.kern()
        same('Kern', Kern, K, 1e-9)
        e = c.eta(K, ns / c.varK)
        same_entry('nugget', eta, e, 1e-8)
        Kn = K + np.diag(ns / c.varK)
        out = 1.0 if norm else c.varK
        want = out * (Kn + e * (np.diag(np.diag(Kn)) if c.precon else np.eye(len(K))))
        same_entry('Kcov' + (' normalised with varK' if norm else ''), Kcov, want, 1e-8)
        if c.precon:
            p = np.sqrt(np.diag(Kn))
            same('correlation matrix', Kcor, Kn / np.outer(p, p), 1e-9)
        _check_factor(cho, want, case['kappa'])
    if not c.noisy:
        r = call('calc_Kern_w_chofac', g.calc_Kern_w_chofac, R, hp)
        same('regularised kernel matrix', r[2], c.cov(varK=1.0), 1e-8)
        _check_factor(r[3], c.cov(varK=1.0), case['kappa'])
    else:
        must_raise('noise-free factorisation with noisy data', lambda: g.calc_Kern_w_chofac(R, hp))


def _check_factor(cho, K, kappa):
    from scipy.linalg import cho_solve
    if cho is None:
        raise Fail('Cholesky factorisation failed on a well-conditioned matrix')
    d = np.sqrt(np.diag(K))
    L = np.tril(cho[0]) if cho[1] else np.triu(cho[0]).T
    same('factor times its transpose', (L @ L.T) / np.outer(d, d), K / np.outer(d, d), 1e-9)
    B = np.linalg.solve(K / np.outer(d, d), np.eye(len(K))) / np.outer(d, d)
    same('solution with the factorisation', cho_solve(cho, np.eye(len(K))) * np.outer(d, d), B * np.outer(d, d), 1e-7)


# ---------------------------------------------------------------- C07 derivative of the covariance
def gen_C07(rng, k):
    return gen_conf(rng, k, nmax=5)


def _hp_jac(c, f, with_varK):
    """Complex-step Jacobian of f(theta, alpha, varK, vf, vg) in the order of the hp vector."""
    vec = list(c.theta)
    i = len(vec)
    iu = {}
    if c.alpha is not None:
        iu['a'] = i; vec.append(c.alpha); i += 1
    if with_varK:
        iu['k'] = i; vec.append(c.varK); i += 1
        if c.vf is not None:
            iu['f'] = i; vec.append(c.vf); i += 1
        if c.vg is not None:
            iu['g'] = i; vec.append(c.vg); i += 1

    def h(v):
        return f(v[:c.dim], v[iu['a']] if 'a' in iu else c.alpha, v[iu['k']] if 'k' in iu else 1.0,
                 v[iu['f']] if 'f' in iu else c.vf, v[iu['g']] if 'g' in iu else c.vg)
    return vec, ref.cstep(h, vec)


def run_C07(case):
    c = Conf(case)
    g = c.gp
    R = g.get_scl_x_w_dist()[1]
    hp = c.hp()
    info = g.hp_info_optz_lkd
    vec, want = _hp_jac(c, lambda t, a, v, f, q: c.cov(t, a, v, f, q), c.noisy)
    if info.n_hp != len(vec):
        raise Fail(f'number of optimised hyperparameters {info.n_hp}, wanted {len(vec)}')
    if c.noisy:
        got = call('calc_Kcov_grad_hp', g.calc_Kcov_grad_hp, info, hp, c.kern(), R)
    else:
        got = call('calc_KernGrad_hp', g.calc_KernGrad_hp, info, hp, R)
    if np.shape(got) != want.shape:
        raise Fail(f'hyperparameter derivatives have shape {np.shape(got)}, wanted {want.shape}')
    for i in range(len(vec)):
        same_entry(f'derivative of the covariance wrt entry {i} of the hp vector', got[i], want[i], 1e-7)


# ---------------------------------------------------------------- C08/C09 likelihood
def gen_C08(rng, k):
    c = gen_conf(rng, k, nmax=6)
    c['kappa'] = float(rng.choice([1e3, 1e4, 1e5]))
    c['n'] = max(c['n'], 2)
    if rng.random() < .35:
        c['opts'] = dict(lkd_varK_pnlt_use=True, lkd_varK_pnlt_c1=float(rng.uniform(.5, 3)),
                         lkd_varK_pnlt_c2=float(rng.choice([1e-3, .5, 100.0])), lkd_varK_pnlt_lb_var=float(rng.choice([.01, 5.0])))
    return c


def _lkd(c, theta=None, alpha=None, varK=None, vf=None, vg=None, eta=None):
    """Marginal log-likelihood, beta and varK from the definition (complex-capable)."""
    g = c.gp
    y = c.data_vec()
    N = len(y)
    one = np.zeros(N); one[:c.n] = 1
    if c.noisy:
        C = c.cov(theta, alpha, varK, vf, vg, eta)
    else:
        C = c.cov(theta, alpha, 1.0, vf, vg, eta)
    Ki1 = np.linalg.solve(C, one)
    beta = (Ki1 @ y) / (Ki1 @ one)
    r = y - beta * one
    q = r @ np.linalg.solve(C, r)
    ld = ref.ldl_logdet_solve(C)
    if c.noisy:
        return -(ld + q) / 2, beta, None, ld
    vk = q / N if np.real(q / N) > 1e-32 else 1e-32
    pen = 0.0
    if g.lkd_varK_pnlt_use:
        f = c.scaled()[1]
        vfv = max(np.var(f), g.lkd_varK_pnlt_lb_var)
        ex = vk - g.lkd_varK_pnlt_c2 * vfv
        if np.real(ex) > 0:
            pen = g.lkd_varK_pnlt_c1 * vfv * ex ** 2
    return -(N * np.log(vk) + ld) / 2 - pen, beta, vk, ld


def run_C08(case):
    c = Conf(case)
    g = c.gp
    hp = c.hp(beta=False, varK=c.noisy)
    K0 = c.kern()
    e = c.eta(K0, (c.noise() / c.varK) if c.noisy else 0)
    want, beta, vk, ld = _lkd(c, eta=e)
    tol = 1e-9 * max(1e3, case['kappa'])
    for adj in (True, False):
        for cond in (False, True):
            info, ok = call('calc_lkd_all', g.calc_lkd_all, hp, calc_cond=cond, lkd_use_adj_mtd=adj)
            if not ok:
                raise Fail('Cholesky factorisation reported as failed')
            nm = ('adjoint' if adj else 'direct') + ' method: '
            same(nm + 'log-likelihood', info.ln_lkd, want, tol, floor=len(K0))
            same(nm + 'mean coefficient', info.hp_beta, np.array([beta]), tol, floor=np.max(np.abs(c.scaled()[1])))
            same(nm + 'log determinant', info.ln_det_Kmat, ld, tol, floor=len(K0))
            if not c.noisy:
                same(nm + 'closed-form varK', info.hp_varK, vk, tol)
    h2 = call('optz_closed_form_hp', g.optz_closed_form_hp, c.hp(beta=False, varK=c.noisy))
    same('closed-form mean coefficient', h2.beta, np.array([beta]), tol, floor=np.max(np.abs(c.scaled()[1])))
    same('varK of the completed hyperparameters', h2.varK, c.varK if c.noisy else vk, tol)
    same('theta of the completed hyperparameters', h2.theta, c.theta, 1e-15)
    vec, bvec = _hp_vec(c)
    if len(vec) == g.hp_info_optz_lkd.n_hp:
        r = call('calc_store_likelihood', g.calc_store_likelihood, vec, calc_grad=False)
        same('likelihood from the hp vector', r[0], want, tol, floor=len(K0))
        if c.case['wellcond'] != 'rescale_eta_vary' or not c.use_grad:
            same('optimisation objective', call('return_optz_val', g.return_optz_val, vec), -want, tol, floor=len(K0))


def _hp_vec(c):
    """The vector the optimiser works with (log10 where the library says it optimises the log)."""
    g = c.gp
    v = list(c.theta)
    lg = [g.optz_log_hp_theta] * c.dim
    if c.alpha is not None:
        v.append(c.alpha); lg.append(g.optz_log_hp_kernel)
    if c.noisy:
        v.append(c.varK); lg.append(g.optz_log_hp_var)
        if c.vf is not None:
            v.append(c.vf); lg.append(g.optz_log_hp_var)
        if c.vg is not None:
            v.append(c.vg); lg.append(g.optz_log_hp_var)
    v = np.array(v); lg = np.array(lg, bool)
    v[lg] = np.log10(v[lg])
    return v, lg


def gen_C09(rng, k):
    c = gen_C08(rng, k)
    o = dict(c.get('opts', {}))
    o['optz_log_hp_theta'] = bool(rng.random() < .7)
    o['optz_log_hp_var'] = bool(rng.random() < .7)
    o['optz_log_hp_kernel'] = bool(rng.random() < .7)
    c['opts'] = o
    return c


def run_C09(case):
    c = Conf(case)
    g = c.gp
    vec, jac = _hp_jac(c, lambda t, a, v, f, q: _lkd(c, t, a, v, f, q)[0], c.noisy)
    tol = 1e-9 * max(1e3, case['kappa'])
    hp = c.hp(beta=False, varK=c.noisy)
    fl = len(c.data_vec())
    for adj in (True, False):
        nm = ('adjoint' if adj else 'direct') + ' method: likelihood gradient'
        cond_too = case['wellcond'] != 'precon' or not c.use_grad
        for cond in ((False, True) if cond_too else (False,)):
            info, ok = call('calc_lkd_all', g.calc_lkd_all, hp, calc_cond=cond, calc_grad=True, lkd_use_adj_mtd=adj)
            got = np.asarray(info.ln_lkd_grad, float)
            if got.shape != jac.shape:
                raise Fail(f'{nm}: shape {got.shape}, wanted {jac.shape}')
            for i in range(len(vec)):
                same(f'{nm}, entry {i}', got[i] * vec[i], jac[i] * vec[i], tol, floor=fl)
    v, lg = _hp_vec(c)
    scale = np.where(lg, np.array(vec) * np.log(10), 1.0)
    want = -jac * scale
    for adj in (True, False):
        g.lkd_use_adj_mtd = adj
        got = np.asarray(call('return_optz_grad', g.return_optz_grad, v), float)
        if got.shape != want.shape:
            raise Fail(f'objective gradient: shape {got.shape}, wanted {want.shape}')
        for i in range(len(v)):
            s = np.log(10) / scale[i] * vec[i]
            same(f'gradient of the optimisation objective, entry {i} (log10: {bool(lg[i])})', got[i] * s, want[i] * s, tol, floor=fl)


# ---------------------------------------------------------------- C10 condition number
def gen_C10(rng, k):
    c = gen_C09(rng, k)
    c['wellcond'] = str(rng.choice(WELLCONDS[1:])) if k % 6 else 'precon'
    c['n'] = max(2, min(c['n'], 5))
    c['opts'] = dict(c['opts'], cond_norm=(2 if k % 2 else 'fro'))
    c['kappa'] = float(rng.choice([1e2, 1e3, 1e4]))
    return c


def _cond(K, p):
    if p == 2:
        w = np.linalg.eigvalsh(K)
        return w[-1] / w[0]
    return np.linalg.norm(K) * np.linalg.norm(np.linalg.inv(K))


def run_C10(case):
    c = Conf(case)
    g = c.gp
    p = case['opts']['cond_norm']
    C = c.cov(varK=c.varK if c.noisy else 1.0)
    if c.precon:
        dg = np.sqrt(np.diag(C))
        M = C / np.outer(dg, dg)
        want = _cond(M, p)
    else:
        want = _cond(C, p)
    hp = c.hp(beta=False, varK=c.noisy)
    info, ok = call('calc_lkd_all', g.calc_lkd_all, hp, calc_cond=True)
    tol = max(1e-7, 1e-14 * want)
    if want > 1e9:
        return False
    same('condition number', info.cond, want, tol)
    v, lg = _hp_vec(c)
    r = call('calc_store_likelihood', g.calc_store_likelihood, v, always_calc_cond=True, calc_grad=False)
    same('condition number from the hp vector', r[2], want, tol)
    if c.precon:
        if g.b_use_cond_cstr:
            raise Fail('the preconditioned method must not constrain the condition number')
        return
    if not g.b_use_cond_cstr:
        raise Fail('the condition number is not constrained')
    same('condition-number constraint', call('return_cond_val', g.return_cond_val, v), want, tol)
    con = g.condnum_nlc
    if not (np.all(con.ub == g.cond_max_at_setup if hasattr(g, 'cond_max_at_setup') else True) and np.all(np.asarray(con.lb) == -np.inf)):
        raise Fail('bounds of the condition-number constraint')
    same('constraint function', call('constraint', con.fun, v), want, tol)
    with np.errstate(all='ignore'):
        vec, dC = _hp_jac(c, lambda t, a, k_, q, s: c.cov(t, a, k_, q, s), c.noisy)
    if p == 2:
        w, V = np.linalg.eigh(C)
        if (w[1] - w[0]) < 1e-5 * w[0] or (w[-1] - w[-2]) < 1e-5 * w[-1] if len(w) > 2 else False:
            return False
        gw = np.einsum('i,kij,j->k', V[:, -1], dC, V[:, -1]) / w[0] - want * np.einsum('i,kij,j->k', V[:, 0], dC, V[:, 0]) / w[0]
    else:
        Ki = np.linalg.inv(C)
        a, b = np.linalg.norm(C), np.linalg.norm(Ki)
        gw = np.array([np.sum(C * D) / a * b - np.sum(Ki * (Ki @ D @ Ki)) / b * a for D in dC])
    scale = np.where(lg, np.array(vec) * np.log(10), 1.0)
    for nm, fn in (('gradient of the condition number', g.return_cond_grad), ('Jacobian of the constraint', con.jac)):
        got = np.asarray(call(nm, fn, v))
        if got.shape != gw.shape:
            raise Fail(f'{nm}: shape {got.shape}, wanted {gw.shape}')
        for i in range(len(v)):
            s = np.log(10) / scale[i] * vec[i]
            same(f'{nm}, entry {i} (log10: {bool(lg[i])})', np.real(got[i]) * s, gw[i] * scale[i] * s, 1e-5, floor=want)


# ---------------------------------------------------------------- C11/C12 posterior
def gen_C11(rng, k):
    c = gen_conf(rng, k, nmax=6)
    c['kappa'] = float(rng.choice([1e3, 1e5]))
    c['nx'] = int(rng.integers(1, 5))
    return c


def _posterior(c, gpX=None):
    """Reference posterior as a function of (original) x: mean, std and their derivatives."""
    g = c.gp
    Xs = c.scaled()[0]
    y = c.data_vec()
    one = np.zeros(len(y)); one[:c.n] = 1
    K0 = c.kern()
    ns = (c.noise() / c.varK) if c.noisy else np.zeros(len(K0))
    C = c.cov(eta=c.eta(K0, ns)) / c.varK
    w = np.linalg.solve(C, y - c.beta * one)
    if g.b_use_data_scl:
        xs, sh = g.DataScl.xvec_scale, g.DataScl.x_shift
        so = (g.DataScl.obj_shift, g.DataScl.obj_scale)
    else:
        xs, sh, so = np.ones(c.dim), np.zeros(c.dim), (0.0, 1.0)

    def at(x):
        z = ((x - sh) * xs)[None]
        # rows: k(z, data), d/dz, d2/dzdz with all derivative columns of the data
        R = ref.diffs(z, Xs)
        if c.use_grad:
            row = ref.kern_grad(c.kernel, R, c.theta, c.alpha, np.ones(1, bool), c.m)
            H = ref.kern_grad_grad_x(c.kernel, R, c.theta, c.alpha, c.m)
        else:
            row = ref.kern_grad(c.kernel, R, c.theta, c.alpha)[:, :c.n]
            H = ref.kern_base_hess_x(c.kernel, R, c.theta, c.alpha)
        k, D = row[0], row[1:]
        mu = c.beta + k @ w
        v = np.linalg.solve(C, k)
        s2 = 1 - k @ v
        dmu, d2mu = D @ w, H @ w
        ds2 = -2 * D @ v
        d2s2 = -2 * (H @ v + D @ np.linalg.solve(C, D.T))
        sig = np.sqrt(c.varK * s2)
        dsig = c.varK * ds2 / (2 * sig)
        d2sig = (c.varK * d2s2 - 2 * np.outer(dsig, dsig)) / (2 * sig)
        o = so[1]
        return dict(mu=mu / o + so[0], sig=sig / o, dmu=dmu * xs / o, dsig=dsig * xs / o,
                    d2mu=d2mu * np.outer(xs, xs) / o, d2sig=d2sig * np.outer(xs, xs) / o, s2=s2)
    return at


def _eval_points(c, nx):
    rng = np.random.default_rng(c.case['seed'] + 1)
    lo, hi = c.X.min(0), c.X.max(0)
    w = np.maximum(hi - lo, 0.3 * c.case.get('xscale', 1.0))
    return lo - .3 * w + rng.random((nx, c.dim)) * 1.6 * w


def run_C11(case):
    c = Conf(case)
    g = c.gp
    call('set_hpara', g.set_hpara, 'set', 1, c.hp())
    nx = case['nx']
    Z = _eval_points(c, nx)
    at = _posterior(c)
    refs = [at(z) for z in Z]
    if min(r['s2'] for r in refs) < 1e-4:
        keep = [i for i in range(nx) if refs[i]['s2'] > 1e-4]
        if not keep:
            return False
        Z, refs, nx = Z[keep], [refs[i] for i in keep], len(keep)
    tol = 1e-10 * case['kappa'] * 10
    fs = np.max(np.abs(c.f)) + abs(c.beta) + 1e-6
    r = call('eval_model', g.eval_model, Z)
    same('posterior mean', r[0], np.array([q['mu'] for q in refs]), tol, floor=fs)
    same('posterior standard deviation', r[1], np.array([q['sig'] for q in refs]), tol)
    one = call('eval_model', g.eval_model, Z[0])
    same('posterior mean at one point given as a vector', one[0], np.array([refs[0]['mu']]), tol, floor=fs)
    sq = call('eval_model', g.eval_model, Z[:1], squeeze_nx=True)
    if np.ndim(sq[0]) != 0 or np.ndim(sq[1]) != 0:
        raise Fail('squeeze_nx does not collapse the first dimension')
    same('squeezed posterior mean', sq[0], refs[0]['mu'], tol, floor=fs)
    r2 = call('eval_model', g.eval_model, Z, calc_grad=True)
    same('posterior mean when the gradient is requested', r2[0], r[0], tol, floor=fs)
    same('posterior std when the gradient is requested', r2[1], r[1], tol)
    if not g.b_use_data_scl:
        v = call('eval_model_var', g.eval_model_var, Z)
        same('posterior variance', v[0], np.array([q['sig'] ** 2 for q in refs]), tol)
        v = call('eval_model_var', g.eval_model_var, Z[0], squeeze_nx=True)
        if np.ndim(v[0]) != 0:
            raise Fail('squeeze_nx of eval_model_var does not collapse the first dimension')
        same('squeezed posterior variance', v[0], refs[0]['sig'] ** 2, tol)
    # prior variance is never exceeded, and the surrogate interpolates noise-free values
    pv = np.sqrt(c.varK) / (g.DataScl.obj_scale if g.b_use_data_scl else 1.0)
    if np.any(r[1] > pv * (1 + 1e-9)):
        raise Fail(f'posterior standard deviation {np.max(r[1])} exceeds the prior one {pv}')
    if c.mask is None:
        hpv = c.hp()
        mm = call('calc_model_mean_w_data_init', g.calc_model_mean_w_data_init, Z, g.KernEta_chofac, hpv.beta,
                  c.X, c.f, c.G, c.theta)
        same('mean from calc_model_mean_w_data_init', mm[0], r[0], tol, floor=fs)
        same('mean gradient from calc_model_mean_w_data_init', mm[1], r2[2], tol * 10, floor=np.max(np.abs(r2[2])) + 1e-9)
    if not c.noisy:
        at_data = call('eval_model at the data', _safe_mean, g, c.X)
        if at_data is not None:
            eta = float(np.max(g.etaK_eval))
            w = np.abs(g.invKernEta_fdiff[:c.n]) * eta
            if g.b_use_data_scl:
                w = w / g.DataScl.obj_scale
            if np.any(np.abs(at_data - c.f) > w * (1 + 1e-4) + tol * fs):
                raise Fail(f'mean at the data points {show(at_data)} does not reproduce the values {show(c.f)} '
                           f'up to the nugget term')


def _safe_mean(g, X):
    try:
        return g.eval_model(X)[0]
    except AssertionError as e:
        if 'variance' in str(e):
            return None
        raise


def gen_C12(rng, k):
    c = gen_C11(rng, k)
    return c


def run_C12(case):
    c = Conf(case)
    g = c.gp
    call('set_hpara', g.set_hpara, 'set', 1, c.hp())
    Z = _eval_points(c, case['nx'])
    at = _posterior(c)
    refs = [at(z) for z in Z]
    keep = [i for i in range(len(Z)) if refs[i]['s2'] > 1e-2]
    if not keep:
        return False
    Z, refs = Z[keep], [refs[i] for i in keep]
    tol = 1e-10 * case['kappa'] * 100
    fl = lambda nm: 1e-3 * max(np.max(np.abs(q[nm])) for q in refs) + 1e-9
    r = call('eval_model', g.eval_model, Z, calc_grad=True)
    same('gradient of the mean', r[2], np.array([q['dmu'] for q in refs]), tol, fl('dmu'))
    same('gradient of the standard deviation', r[3], np.array([q['dsig'] for q in refs]), tol, fl('dsig'))
    for i in range(len(Z)):
        h = call('eval_model', g.eval_model, Z[i:i + 1], calc_grad=True, calc_hess=True)
        same('gradient of the mean', h[2], refs[i]['dmu'][None], tol, fl('dmu'))
        same('gradient of the std', h[3], refs[i]['dsig'][None], tol, fl('dsig'))
        same('Hessian of the mean', h[4], refs[i]['d2mu'][None], tol, fl('d2mu'))
        same('Hessian of the standard deviation', h[5], refs[i]['d2sig'][None], tol * 10, fl('d2sig'))
        q = call('eval_model', g.eval_model, Z[i], True, True, True)
        same('squeezed gradient of the mean', q[2], refs[i]['dmu'], tol, fl('dmu'))
        same('squeezed Hessian of the standard deviation', q[5], refs[i]['d2sig'], tol * 10, fl('d2sig'))
    if not g.b_use_data_scl:
        v = call('eval_model_var', g.eval_model_var, Z, calc_grad=True)
        same('gradient of the variance', v[1], np.array([2 * q['sig'] * q['dsig'] for q in refs]), tol, fl('dsig'))
        v = call('eval_model_var', g.eval_model_var, Z[0], calc_grad=True, squeeze_nx=True)
        if np.ndim(v[0]) != 0 or np.shape(v[1]) != (Z.shape[1],):
            raise Fail('squeeze_nx of eval_model_var does not collapse the first dimension')
        same('squeezed gradient of the variance', v[1], 2 * refs[0]['sig'] * refs[0]['dsig'], tol, fl('dsig'))


# ---------------------------------------------------------------- C19 set_data
def gen_C19(rng, k):
    c = gen_conf(rng, k)
    c['noise'] = (['zero', 'tiny', 'known', 'unknown', 'nan', 'one', 'edge'][k % 7], str(rng.choice(['zero', 'tiny', 'known', 'unknown', 'nan', 'one', 'edge'])))
    return c


def _std(rng, kind, shape):
    z = np.zeros(shape)
    if kind == 'tiny':
        return z + 5e-11
    if kind == 'known':
        return rng.uniform(.1, 1, shape)
    if kind == 'unknown':
        return None
    if kind == 'nan':
        z[:1] = np.nan
        return z
    if kind == 'one' and z.size:
        z.flat[rng.integers(z.size)] = 1e-3
    if kind == 'edge' and z.size:       # around the limit below which the noise counts as none
        z = 1e-10 * (1 + rng.choice([-1, 1], shape) * 10 ** rng.uniform(-2, -.05, shape)) * (rng.random(shape) < .7)
        if rng.random() < .5:
            z = np.where(z > 1e-10, 9e-11, z)
            z.flat[rng.integers(z.size)] = 1.1e-10
    return z


def run_C19(c):
    rng = np.random.default_rng(c['seed'])
    d, n, ug = c['dim'], c['n'], c['use_grad']
    g = new_gp(d, ug, c['kernel'], c['wellcond'])
    X = spread_points(rng, n, d)
    f = rng.normal(size=n)
    m = rmask(rng, n, c['mask']) if ug else None
    ng = (n if m is None else int(m.sum())) if ug else 0
    G = rng.normal(size=(ng, d)) if ug else None
    kf, kg = c['noise']
    sf, sg = _std(rng, kf, (n,)), (_std(rng, kg, (ng, d)) if ug else None)
    if ug and ng == 0:
        kg = 'zero' if kg != 'unknown' else kg
        sg = _std(rng, kg, (0, d))
    call('set_data', g.set_data, X, f, sf, *((G, sg, m) if ug else ()))
    ukf, ukg = kf in ('unknown', 'nan'), ug and kg in ('unknown', 'nan')
    zf, zg = not ukf and bool(np.all(sf < 1e-10)), (not ug) or not ukg and bool(np.all(sg < 1e-10))
    want = dict(n_eval=n, n_grad=ng, n_data=n + ng * d, b_optz_var_fval=ukf, b_optz_var_fgrad=ukg,
                b_has_noisy_data=not (zf and zg), known_eps_fval=not ukf, b_fval_zero=zf, b_fgrad_zero=zg)
    for a, w in want.items():
        if getattr(g, a) != w:
            raise Fail(f'{a} is {getattr(g, a)}, wanted {w} (function noise {kf}, gradient noise {kg})')
    if ug and g.known_eps_fgrad != (not ukg):
        raise Fail(f'known_eps_fgrad is {g.known_eps_fgrad}')
    info = g.hp_info_optz_lkd
    for a, w in dict(has_theta=True, has_kernel=c['kernel'] == 'RatQu', has_varK=not (zf and zg), has_var_fval=ukf,
                     has_var_fgrad=ukg).items():
        if bool(getattr(info, a)) != w:
            raise Fail(f'optimised hyperparameters: {a} is {getattr(info, a)}, wanted {w}')
    r = g.get_init_eval_data()
    for nm, got, w in zip(('fval', 'std_fval', 'grad', 'std_grad'), r, (f, None if ukf else sf, G, None if ukg else sg)):
        if (got is None) != (w is None):
            raise Fail(f'stored {nm} is {got}')
        if w is not None:
            identical(f'stored {nm}', got, w)
    ls, lf, lg, lsg = (g.get_scl_eval_data()[i] for i in (1, 0, 2, 3))
    if (ls is None) != ukf or (ug and (lsg is None) != ukg):
        raise Fail('scaled standard deviations must be present exactly when they are known')
    if n > 1 and not g.b_use_data_scl:
        D = np.sqrt(((X[:, None] - X[None]) ** 2).sum(-1)) + np.diag(np.full(n, np.inf))
        same('distance between the closest points', getattr(g, '_vmin_init', D.min()), D.min(), 1e-12)
    # rejected inputs
    bad = lambda nm, *a: must_raise(nm, lambda: new_gp(d, ug, c['kernel'], c['wellcond']).set_data(*a))
    tail = (G, sg, m) if ug else ()
    bad('x_eval that is not a 2D array', X.ravel(), f, sf, *tail)
    bad('more points than values', np.vstack([X, X[-1:] + .37]), f, sf, *tail)
    bad('points of another dimension', np.column_stack([X, X[:, 0]]), f, sf, *tail)
    if n > 1:
        bad('fewer points than values', X[:-1], f, sf, *tail)
    if d > 1:
        bad('points of a smaller dimension', X[:, 1:], f, sf, *tail)
    if sf is not None and not ukf:
        bad('std_fval of the wrong length', X, f, np.append(sf, .1), *tail)
    if ug:
        bad('no gradients for a gradient-enhanced GP', X, f, sf)
        bad('gradients with a wrong number of rows', X, f, sf, np.ones((ng + 1, d)), None, m)
        bad('gradients with a wrong number of columns', X, f, sf, np.ones((ng, d + 1)), None, m)
        bad('mask of the wrong length', X, f, sf, G, sg, np.append(np.ones(n, bool) if m is None else m, False))
        if not ukg:
            bad('std_grad of another shape', X, f, sf, G, np.ones((ng + 1, d)), m)
    else:
        bad('gradients for a gradient-free GP', X, f, sf, np.ones((n, d)), None)
        bad('gradient mask for a gradient-free GP', X, f, sf, None, None, np.ones(n, bool))


# ---------------------------------------------------------------- C20 inputs are not modified
def gen_C20(rng, k):
    c = gen_C11(rng, k)
    c['optz'] = bool(k % 6 == 0)
    return c


def run_C20(case):
    c = Conf(case)
    g = c.gp
    ins = dict(X=c.X, f=c.f, G=c.G, sf=c.sf, sg=c.sg, mask=c.mask)
    snap = {k: None if v is None else v.copy() for k, v in ins.items()}

    def check(when):
        for k, v in ins.items():
            if v is not None and not np.array_equal(v, snap[k], equal_nan=True):
                raise Fail(f'{when} modified the data {k} of the caller')
    c.set_data(); check('set_data')
    hp = c.hp()
    h0 = copy.deepcopy(hp)
    call('set_hpara', g.set_hpara, 'set', 1, hp)
    check('set_hpara')
    Z = _eval_points(c, case['nx'])
    at = _posterior(c)
    keep = [i for i in range(len(Z)) if at(Z[i])['s2'] > 1e-3]
    if keep:
        Z = Z[keep]
        Z0 = Z.copy()
        r1 = call('eval_model', g.eval_model, Z, calc_grad=True)
        z1 = Z[0].copy()
        call('eval_model', g.eval_model, z1, True, True)
        if not np.array_equal(Z, Z0) or not np.array_equal(z1, Z0[0]):
            raise Fail('eval_model modified the points it was given')
        check('eval_model')
        r2 = call('eval_model', g.eval_model, Z, calc_grad=True)
        for i in range(4):
            identical('repeated evaluation', r2[i], r1[i])
        if not g.b_use_data_scl:
            call('eval_model_var', g.eval_model_var, Z, calc_grad=True)
            if not np.array_equal(Z, Z0):
                raise Fail('eval_model_var modified the points it was given')
    v, _ = _hp_vec(c)
    v0 = v.copy()
    if len(v) == g.hp_info_optz_lkd.n_hp and case['n'] > 1:
        a = call('calc_store_likelihood', g.calc_store_likelihood, v)
        a0 = [None if t is None else np.array(t, copy=True) for t in a]
        b = call('calc_store_likelihood', g.calc_store_likelihood, v)
        for i in (0, 1):
            if a0[i] is not None:
                identical('repeated likelihood evaluation', b[i], a0[i])
        w = v.copy()
        call('calc_store_likelihood', g.calc_store_likelihood, w)
        w += 0.03                  # the caller uses its array again
        b1 = call('calc_store_likelihood', g.calc_store_likelihood, w)[0]
        identical('likelihood of an hp vector that was changed in place', b1, call('calc_store_likelihood', Conf(case).gp.calc_store_likelihood, v + 0.03)[0])
        call('return_optz_grad', g.return_optz_grad, v)
        if not np.array_equal(v, v0):
            raise Fail('likelihood evaluation modified the hp vector it was given')
        check('calc_store_likelihood')
    for k in ('beta', 'theta', 'kernel', 'varK', 'var_fval', 'var_fgrad'):
        a, b = getattr(hp, k), getattr(h0, k)
        if not (a is b is None) and not np.array_equal(a, b):
            raise Fail(f'hyperparameter {k} of the caller was modified')
    if case.get('optz') and case['n'] > 1:
        with quiet():
            g.init_optz_surr(3)
        g.optz_iter_max = 4; g.lkd_hp_best_n_eval = 4; g.cond_vreq_max_iter = 2
        g.store_new_para_surr(0, c.hp())
        call('set_hpara optz', g.set_hpara, 'optz', 1)
        check('optimisation of the hyperparameters')


# ---------------------------------------------------------------- C21 invariances
def gen_C21(rng, k):
    c = gen_C11(rng, k)
    c['n'] = max(2, c['n'])
    c['mode'] = ['perm', 'shift', 'fshift', 'fscale', 'mask', 'axes', 'units'][k % 7]
    c['factor'] = float(rng.choice([2.5, 1e-7, 1e-5, 1e4, 1e7]))
    if c['mode'] == 'mask':
        c['use_grad'], c['mask'] = True, 'none'
        c['noise'] = c['noise']
    return c


def run_C21(case):
    c = Conf(case)
    g = c.gp
    rng = np.random.default_rng(case['seed'] + 5)
    mode, d, n = case['mode'], c.dim, c.n
    if g.b_use_data_scl and mode in ('perm', 'axes'):
        if mode == 'perm':
            # the last point is the reference of the scaling: keep it last
            p = np.append(rng.permutation(n - 1), n - 1)
        else:
            p = rng.permutation(n)
    else:
        p = rng.permutation(n)
    hp1 = c.hp()
    call('set_hpara', g.set_hpara, 'set', 1, hp1)
    Z = _eval_points(c, case['nx'])
    at = _posterior(c)
    keep = [i for i in range(len(Z)) if at(Z[i])['s2'] > 1e-2]
    if not keep:
        return False
    Z = Z[keep]
    r = call('eval_model', g.eval_model, Z, calc_grad=True)
    g2 = new_gp(d, c.use_grad, c.kernel, case['wellcond'], cond_max_target=g.cond_max_target, cond_max=g.cond_max,
                cond_norm=g.cond_norm)
    X, f, G, sf, sg, m = c.X, c.f, c.G, c.sf, c.sg, c.mask
    hp2 = c.hp()
    Z2 = Z
    want = list(r[:4])
    ll = ld = 0.0
    if mode == 'perm':
        X, f = X[p], f[p]
        sf = None if sf is None else sf[p]
        if c.use_grad:
            pos = -np.ones(n, int); pos[np.flatnonzero(c.m)] = np.arange(c.ng)
            pp = pos[p][pos[p] >= 0]
            G = G[pp]
            sg = None if sg is None else sg[pp]
            m = None if m is None else m[p]
    elif mode == 'shift':
        s = rng.normal(size=d) * 2
        X, Z2 = X + s, Z + s
    elif mode == 'fshift':
        a = 3.7
        f = f + a
        if not g.b_use_data_scl:
            hp2.beta = hp2.beta + a
        want[0] = want[0] + a
    elif mode == 'fscale':
        a = case.get('factor', 2.5)
        if g.b_use_data_scl and n == 1:
            return False
        f = f * a
        G = None if G is None else G * a
        sf = None if sf is None else sf * a
        sg = None if sg is None else sg * a
        if not g.b_use_data_scl:
            hp2.beta = hp2.beta * a; hp2.varK = hp2.varK * a * a
            hp2.var_fval = None if hp2.var_fval is None else hp2.var_fval * a * a
            hp2.var_fgrad = None if hp2.var_fgrad is None else hp2.var_fgrad * a * a
        want = [w * a for w in want]
    elif mode == 'mask':
        m = np.ones(n, bool)
        if c.mask is not None:
            return False
    elif mode == 'axes':
        q = rng.permutation(d)
        X, Z2 = X[:, q], Z[:, q]
        G = None if G is None else G[:, q]
        sg = None if sg is None else sg[:, q]
        hp2.theta = hp2.theta[q]
        want[2], want[3] = want[2][:, q], want[3][:, q]
    elif mode == 'units':
        # other units in each direction; without the nugget's help only when gradients are absent
        # or the nugget is relative to the diagonal
        if c.use_grad and not c.precon and not g.b_use_data_scl:
            return False
        q = np.exp(rng.normal(size=d))
        if g.b_use_data_scl:         # the scaled points are the same
            q = np.full(d, 10 ** rng.uniform(-3, 3))
        X, Z2 = X * q, Z * q
        G = None if G is None else G / q
        sg = None if sg is None else sg / q
        if c.use_grad and c.sg is None:
            return False
        if not g.b_use_data_scl:
            hp2.theta = hp2.theta / q ** 2
        want[2], want[3] = want[2] / q, want[3] / q
    call('set_data', g2.set_data, X, f, sf, *((G, sg, m) if c.use_grad else ()))
    call('set_hpara', g2.set_hpara, 'set', 1, hp2)
    got = call('eval_model', g2.eval_model, Z2, calc_grad=True)
    tol = 1e-9 * case['kappa'] * 10
    fs = [np.max(np.abs(f)) + abs(c.beta), 1e-6 * np.sqrt(hp2.varK)] + [1e-3 * max(np.max(np.abs(want[i])), 1e-9) for i in (2, 3)]
    for i, nm in enumerate(('mean', 'standard deviation', 'gradient of the mean', 'gradient of the standard deviation')):
        same(f'{mode}: {nm} of the equivalent surrogate', got[i], want[i], tol, fs[i])


# ---------------------------------------------------------------- C22 nothing stale
def same_arrays(what, a, b):
    same(what, a, b, 1e-9, 1e-9 * (1 + np.max(np.abs(b), initial=0)))


def gen_C22(rng, k):
    c = gen_C11(rng, k)
    c['ops'] = [int(t) for t in rng.integers(0, 8, size=int(rng.integers(1, 5)))]
    return c


def run_C22(case):
    c = Conf(case)
    g = c.gp
    rng = np.random.default_rng(case['seed'] + 9)
    other = Conf(dict(case, seed=case['seed'] + 77, n=1 + (case['n'] + 2) % 6, mask='part' if case['mask'] == 'none' else 'none',
                      noise=tuple(reversed(case['noise']))))
    same = Conf(dict(case, seed=case['seed'] + 78))

    def load(conf, hp):
        conf.set_data(g)
        call('set_hpara', g.set_hpara, 'set', 1, hp)
    load(c, c.hp())
    for op in case['ops']:
        if op == 0:
            load(other, other.hp())
        elif op == 1:
            load(c, c.hp())
        elif op == 2:
            Z = _eval_points(c, 2)
            try:
                with quiet():
                    g.eval_model(Z, True)
            except Exception:
                pass
        elif op == 3:
            v, _ = _hp_vec(c)
            c.set_data(g)
            if c.n > 1:
                call('likelihood', g.calc_store_likelihood, v)
        elif op >= 6:
            load(same, same.hp())          # as many points, at other places
        elif op == 4:
            h = c.hp(); h.theta = h.theta * 1.7
            load(c, h)
        else:
            h = c.hp(); h.varK = h.varK * 3
            load(c, h)
    load(c, c.hp())
    Z = _eval_points(c, case['nx'])
    at = _posterior(c)
    keep = [i for i in range(len(Z)) if at(Z[i])['s2'] > 1e-2]
    v, _ = _hp_vec(c)
    fresh = Conf(case)
    call('set_hpara', fresh.gp.set_hpara, 'set', 1, fresh.hp())
    if keep:
        a = call('eval_model', g.eval_model, Z[keep], calc_grad=True)
        b = call('eval_model', fresh.gp.eval_model, Z[keep], calc_grad=True)
        for i, nm in enumerate(('mean', 'standard deviation', 'gradient of the mean', 'gradient of the standard deviation')):
            identical(f'{nm} after the history {case["ops"]}', a[i], b[i])
    if c.n > 1:
        a = call('likelihood', g.calc_store_likelihood, v)
        b = call('likelihood', fresh.gp.calc_store_likelihood, v)
        for i, nm in ((0, 'likelihood'), (1, 'likelihood gradient'), (2, 'condition number')):
            if (a[i] is None) != (b[i] is None):
                raise Fail(f'{nm} after the history {case["ops"]}: {a[i]} and {b[i]}')
            if a[i] is not None:
                identical(f'{nm} after the history {case["ops"]}', a[i], b[i])
        v2 = v + 0.05
        a = call('likelihood', g.calc_store_likelihood, v2)[0]
        b = call('likelihood', Conf(case).gp.calc_store_likelihood, v2)[0]
        identical('likelihood at another hp vector', a, b)
        w = v.copy()
        call('likelihood', g.calc_store_likelihood, w)
        w += 0.05
        identical('likelihood of an hp vector that was changed in place', call('likelihood', g.calc_store_likelihood, w)[0], b)
    # evaluating with hyperparameters other than the ones set up is refused or up to date
    g.hp_vals = c.gp.make_hp_class(np.array([c.beta + 1.0]), c.theta * 2, c.alpha, c.varK * 2, c.vf, c.vg)
    ok = True
    try:
        with quiet():
            r = g.eval_model(Z)
    except Exception:
        ok = False
    if ok:
        raise Fail('eval_model used hyperparameters that were replaced after setup_eval_model without complaint')
    if g.b_use_data_scl:
        # another scaling of the same data: nothing of the previous one is left
        S = g.DataScl
        call('set_xscale_data', S.set_xscale_data, xvec_scale_in=np.exp(rng.normal(size=c.dim)))
        x, R = g.get_scl_x_w_dist()
        same_arrays('scaled points', x, S.x_init_2_scl(c.X))
        same_arrays('differences of the scaled points', R, ref.diffs(x, x))
        r = g.get_scl_eval_data()
        same_arrays('scaled values', r[0], S.obj_init_2_scl(c.f)[0])
        if c.use_grad:
            k = (np.max(c.f) - np.min(c.f)) if c.n > 1 else 1.0
            same_arrays('scaled gradients', r[2] * S.xvec_scale, c.G * S.obj_scale)


# ---------------------------------------------------------------- C23 one layout of the data
def gen_C23(rng, k):
    c = gen_conf(rng, k)
    c['noise'] = (str(rng.choice(['known', 'unknown'])), str(rng.choice(['known', 'unknown'])))
    return c


def run_C23(case):
    c = Conf(case)
    g = c.gp
    rng = c.rng
    d, n, ng = c.dim, c.n, c.ng
    # position of every datum, from the definition: values, then direction by direction
    code_f = 1000.0 + np.arange(n)
    rows = np.flatnonzero(c.m)
    code_g = np.array([[100.0 * (j + 1) + r for j in range(d)] for r in rows]).reshape(len(rows), d)
    want = np.concatenate([code_f] + ([code_g[:, j] for j in range(d)] if c.use_grad else []))
    if len(want) != g.n_data:
        raise Fail(f'n_data is {g.n_data}, wanted {len(want)}')
    same('data vector', call('make_data_vec', g.make_data_vec, code_f, code_g if c.use_grad else None), want, 1e-15)
    same('data vector of function values', call('make_data_vec', g.make_data_vec, code_f), code_f, 1e-15)
    call('set_hpara', g.set_hpara, 'set', 1, c.hp())
    same('data vector of the surrogate', g.data_vec, c.data_vec(), 1e-10, floor=1e-6)
    same('noise vector', call('calc_noise_vec', g.calc_noise_vec, c.hp()), c.noise(), 1e-10)
    V = call('calc_aug_vand', g.calc_aug_vand, c.X, c.mask)
    same('Vandermonde matrix', V, np.concatenate([np.ones(n), np.zeros(g.n_data - n)])[:, None], 1e-15)
    mv, mg, _ = call('eval_mean_fun', g.eval_mean_fun, c.X, np.array([2.5]), bvec_use_grad=c.mask, calc_grad=c.use_grad)
    identical('shape of the mean function at the data', np.array(np.shape(mv)), np.array([n]))
    if c.use_grad:
        identical('shape of the gradients of the mean function at the data', np.array(np.shape(mg)), np.array([ng, d]))
    mv2, mg2, mh2 = call('eval_mean_fun', g.eval_mean_fun, c.X, np.array([2.5]), calc_grad=True, calc_hess=True)
    identical('gradients of the mean function at all points', mg2, np.zeros((n, d)))
    identical('values of the mean function', mv2, np.full(n, 2.5))
    if np.shape(mh2) != (n, d, d) or np.any(mh2):
        raise Fail(f'Hessians of the mean function: shape {np.shape(mh2)}, wanted zeros of shape {(n, d, d)}')
    same('mean function at the data', call('make_data_vec', g.make_data_vec, mv, mg),
         2.5 * np.concatenate([np.ones(n), np.zeros(g.n_data - n)]), 1e-15)
    Y = rng.normal(size=(3, d))
    same('coordinate differences', call('calc_Rtensor', g.calc_Rtensor, c.X, Y, 1), ref.diffs(c.X, Y), 1e-15)
    P = c.X
    if n > 1 and rng.random() < .4:       # points that coincide
        P = c.X[rng.integers(0, n, n)]
    for fn, red in ((g.calc_dist_min, np.min), (g.calc_dist_max, np.max)):
        got = call('distance', fn, P)
        if n == 1:
            if not np.isnan(got):
                raise Fail('distance between the points of a single point is not nan')
        else:
            D = [np.sqrt(((P[i] - P[j]) ** 2).sum()) for i in range(n) for j in range(i)]
            same(fn.__name__, got, red(D), 1e-12, 1e-14)
    if c.use_grad:
        R = g.get_scl_x_w_dist()[1]
        # permuting the layout and the mask must permute the kernel matrix in the same way
        K = call('Kern', g.calc_Kern, R, c.theta, c.alpha, c.mask, c.mask)
        full = call('Kern', g.calc_Kern, R, c.theta, c.alpha)
        sel = np.concatenate([np.arange(n)] + [n + j * n + rows for j in range(d)])
        same('kernel matrix of a subset of the gradients', K, full[np.ix_(sel, sel)], 1e-12)
        p = call('precon', g.calc_Kern_precon, n, ng, c.theta, b_return_vec=True)[0]
        same('preconditioner', p ** 2, np.diag(K), 1e-9)


GEN = dict(C05=gen_C05, C06=gen_C06, C07=gen_C07, C08=gen_C08, C09=gen_C09, C10=gen_C10, C11=gen_C11, C12=gen_C12,
           C19=gen_C19, C20=gen_C20, C21=gen_C21, C22=gen_C22, C23=gen_C23)
RUN = dict(C05=run_C05, C06=run_C06, C07=run_C07, C08=run_C08, C09=run_C09, C10=run_C10, C11=run_C11, C12=run_C12,
           C19=run_C19, C20=run_C20, C21=run_C21, C22=run_C22, C23=run_C23)
