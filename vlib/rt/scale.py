"""Runtime contracts of the rescaling layer: C13, C14."""
import numpy as np

from .core import Fail, call, identical, must_raise, new_gp, same, spread_points, vreq


def is_set(D, flag, what):
    """the flag of the class, or, if it has none of this name, whether the data can be had"""
    v = getattr(D, flag, None)
    if v is None:
        try:
            getattr(D, 'get_init_' + what)()
        except Exception:
            return False
        return True
    return v


def _gen(rng, k):
    return dict(seed=int(rng.integers(2 ** 31)), dim=int(rng.integers(1, 5)), n=int(rng.integers(1, 7)) if k % 7 else 1,
                method=[None, 'set_vmin', 'set_vmax'][k % 3], shift=bool(rng.random() < .7),
                dist=[None, 0.5, 3.7][int(rng.integers(3))], idx=str(rng.choice(['last', 'first', 'mid'])),
                objm=['dflt_max', None][k % 2 if k % 5 else 0], oshift=bool(rng.random() < .7),
                nlc=int(rng.integers(1, 4)), nlcm=['obj_scl', None][int(rng.integers(2))], nshift=bool(rng.random() < .5),
                order=[int(t) for t in rng.permutation(4)], given=str(rng.choice(['none', 'scale', 'shift', 'both'])),
                coin=bool(rng.random() < .08), xs=float(10 ** rng.uniform(-2, 2)))


def _make(c, stage=True):
    from gpgradpy.src.base import Rescaling
    rng = np.random.default_rng(c['seed'])
    n, d = c['n'], c['dim']
    X = spread_points(rng, n, d, .3) * c['xs'] + rng.normal(size=d)
    if c['coin'] and n > 1:
        X[1] = X[0]
        c = dict(c, method='set_vmax' if c['method'] and n > 2 else None)
    ix = dict(last=None, first=0, mid=n // 2)[c['idx']]
    D = call('Rescaling', Rescaling, X, idx_xbest=ix, use_x_shift=c['shift'], x_scl_method=c['method'], dist_set=c['dist'])
    data = dict(f=rng.normal(size=n) * 10 + 3, sf=rng.uniform(0, 1, n), G=rng.normal(size=(n, d)), sG=rng.uniform(0, 1, (n, d)),
                h=rng.normal(size=(n, c['nlc'])) * 4 + 1, sh=rng.uniform(0, 1, (n, c['nlc'])),
                dh=rng.normal(size=(n, c['nlc'], d)), sdh=rng.uniform(0, 1, (n, c['nlc'], d)),
                lb=rng.normal(size=d) - 2, ub=rng.normal(size=d) + 2, A=rng.normal(size=(3, d)), la=rng.normal(size=3) - 1,
                ua=rng.normal(size=3) + 1)
    if c['seed'] % 11 == 0:
        data['f'][:] = 2.0
    return c, rng, D, X, (n - 1 if ix is None else ix), data


def _set(D, c, d, what):
    if what == 0:
        call('set_obj_data', D.set_obj_data, d['f'], d['sf'], d['G'], d['sG'], use_obj_shift=c['oshift'], obj_scl_method=c['objm'])
    elif what == 1:
        if not is_set(D, '_obj_data_set', 'obj_data') and c['nlcm'] == 'obj_scl' and c['n'] > 1:
            _set(D, c, d, 0)
        call('set_nlc_data', D.set_nlc_data, d['h'], d['sh'], d['dh'], d['sdh'], use_nlc_shift=c['nshift'], nlc_scl_method=c['nlcm'])
    elif what == 2:
        call('set_boxcon', D.set_boxcon, d['lb'], d['ub'])
    else:
        call('set_lincon', D.set_lincon, d['A'], d['la'], d['ua'])


def run_C13(c):
    c, rng, D, X, ix, data = _make(c)
    d = c['dim']
    for w in c['order']:
        _set(D, c, data, w)
    if c['given'] in ('scale', 'both'):
        call('set_xscale_data', D.set_xscale_data, xvec_scale_in=np.exp(rng.normal(size=d)))
    s, sh = D.xvec_scale, D.x_shift
    _bounds(D, data, s, sh)
    a, o = D.obj_scale, D.obj_shift
    x = rng.normal(size=(4, d))
    z = call('x_init_2_scl', D.x_init_2_scl, x)
    same('x_init_2_scl', z, (x - sh) * s, 1e-12)
    same('x_scl_2_init(x_init_2_scl(x))', call('x_scl_2_init', D.x_scl_2_init, z), x, 1e-11)
    same('x_init_2_scl(x_scl_2_init(x))', D.x_init_2_scl(D.x_scl_2_init(x)), x, 1e-9 * max(1, np.max(np.abs(s)) * np.max(np.abs(sh))))
    same('x_init_2_scl of one point', D.x_init_2_scl(x[0]), z[0], 1e-12)
    same('x_scl_2_init of one point', D.x_scl_2_init(z[0]), x[0], 1e-11)
    same('dist_scl_2_init(dist_init_2_scl(v))', D.dist_scl_2_init(D.dist_init_2_scl(2.5)), 2.5, 1e-12)
    same('dist_init_2_scl', D.dist_init_2_scl(2.5), 2.5 * np.mean(s), 1e-12)
    # objective: value, std, gradients and Hessians of one smooth function, chain rule
    n = 3
    mu, sg = rng.normal(size=n), rng.uniform(0, 1, n)
    g1, g2 = rng.normal(size=(n, d)), rng.normal(size=(n, d))
    H1, H2 = rng.normal(size=(n, d, d)), rng.normal(size=(n, d, d))
    want = ((mu - o) * a, sg * a, g1 / s * a, g2 / s * a, H1 / np.outer(s, s) * a, H2 / np.outer(s, s) * a)
    names = ('mean', 'std', 'gradient of the mean', 'gradient of the std', 'Hessian of the mean', 'Hessian of the std')
    orig = (mu, sg, g1, g2, H1, H2)
    got = call('obj_init_2_scl', D.obj_init_2_scl, *orig)
    back = call('obj_scl_2_init', D.obj_scl_2_init, *got)
    for nm, p, q, r, t in zip(names, got, want, back, orig):
        same('scaled ' + nm, p, q, 1e-10)
        same('unscaled(scaled) ' + nm, r, t, 1e-8)
    part = call('obj_init_2_scl', D.obj_init_2_scl, mu, None, g1)
    if part[1] is not None or part[3] is not None or part[4] is not None:
        raise Fail('scaling of data that is not given')
    part = call('obj_scl_2_init', D.obj_scl_2_init, mu, None, g1)
    if part[1] is not None or part[3] is not None or part[4] is not None:
        raise Fail('unscaling of data that is not given')
    m = c['nlc']
    nsh, ns = D.nlc_shift, D.nlc_scale
    h, hs = rng.normal(size=(n, m)), rng.uniform(0, 1, (n, m))
    d1, d2 = rng.normal(size=(n, m, d)), rng.normal(size=(n, m, d))
    got = call('nlc_init_2_scl', D.nlc_init_2_scl, h, hs, d1, d2)
    want = ((h - nsh) * ns, hs * ns, d1 / s * ns, d2 / s * ns)
    back = call('nlc_scl_2_init', D.nlc_scl_2_init, *got[:4])
    for nm, p, q, r, t in zip(names, got, want, back, (h, hs, d1, d2)):
        same('scaled constraint ' + nm, p, q, 1e-10)
        same('unscaled(scaled) constraint ' + nm, r, t, 1e-8)
    q1 = rng.normal(size=(1, d, d))
    HH = rng.normal(size=(m, d, d))
    got = call('nlc_init_2_scl', D.nlc_init_2_scl, h, hs, d1, d2, HH, HH)
    same('scaled constraint Hessian', got[4], HH / np.outer(s, s) * ns, 1e-10)
    back = call('nlc_scl_2_init', D.nlc_scl_2_init, *got)
    same('unscaled(scaled) constraint Hessian', back[5], HH, 1e-8)
    # the maps of a Gaussian process are the ones of its scaling
    if c['n'] > 1:
        wc = ['rescale_origin', 'dflt_vmin', 'dflt_vmax', 'precon'][c['seed'] % 4]
        g = new_gp(d, True, 'SqExp', wc)
        call('set_data', g.set_data, X if not c['coin'] else spread_points(rng, c['n'], d), data['f'], data['sf'], data['G'], data['sG'])
        S = g.DataScl if g.b_use_data_scl else None
        same('x_init_2_scl of the GP', g.x_init_2_scl(x), S.x_init_2_scl(x) if S else x, 1e-15)
        same('x round trip of the GP', g.x_scl_2_init(g.x_init_2_scl(x)), x, 1e-9)
        p = call('data_init_2_scl', g.data_init_2_scl, *orig)
        r = call('data_scl_2_init', g.data_scl_2_init, *p)
        for nm, u, v in zip(names, r, orig):
            same('GP: unscaled(scaled) ' + nm, u, v, 1e-8)


def _expect(c, D, X, ix, data, s, sh):
    same('x_scl', D.x_scl, (X - sh) * s, 1e-11)
    from .. import ref
    same('Rtensor_scl', D.get_scl_x_w_dist()[1], ref.diffs((X - sh) * s, (X - sh) * s), 1e-10)
    if is_set(D, '_obj_data_set', 'obj_data'):
        a, o = D.obj_scale, D.obj_shift
        f = data['f']
        wo = f[ix] if c['oshift'] else 0
        wa = 1 if (c['n'] == 1 or c['objm'] is None) else 100 / max(1e-20, np.ptp(f))
        same('objective shift', o, wo, 1e-13); same('objective scale', a, wa, 1e-12)
        r = D.get_scl_obj_data()
        for nm, p, q in zip(('values', 'std', 'gradients', 'gradient std'), r,
                            ((f - wo) * wa, data['sf'] * wa, data['G'] / s * wa, data['sG'] / s * wa)):
            same('scaled objective ' + nm, p, q, 1e-10)
        for p, q in zip(D.get_init_obj_data(), (data['f'], data['sf'], data['G'], data['sG'])):
            identical('initial objective data', p, q)
    if is_set(D, '_nlc_data_set', 'nlc_data'):
        wo = data['h'][ix] if c['nshift'] else np.zeros(c['nlc'])
        wa = 1 if (c['n'] == 1 or c['nlcm'] is None) else D.obj_scale
        same('constraint shift', D.nlc_shift, wo, 1e-13); same('constraint scale', D.nlc_scale, wa, 1e-12)
        for p, q in zip(D.get_init_nlc_data(), (data['h'], data['sh'], data['dh'], data['sdh'])):
            identical('initial constraint data', p, q)
        r = D.get_scl_nlc_data()
        for nm, p, q in zip(('values', 'std', 'gradients', 'gradient std'), r,
                            ((data['h'] - wo) * wa, data['sh'] * wa, data['dh'] / s * wa, data['sdh'] / s * wa)):
            same('scaled constraint ' + nm, p, q, 1e-10)
    _bounds(D, data, s, sh)


def _bounds(D, data, s, sh):
    if is_set(D, '_boxcon_set', 'boxcon'):
        for p, q in zip(D.get_init_boxcon(), (data['lb'], data['ub'])):
            identical('initial box', p, q)
        lb, ub = D.get_scl_boxcon()
        same('scaled lower box bound', lb, (data['lb'] - sh) * s, 1e-10)
        same('scaled upper box bound', ub, (data['ub'] - sh) * s, 1e-10)
    if is_set(D, '_lincon_set', 'lincon'):
        for p, q in zip(D.get_init_lincon(), (data['A'], data['la'], data['ua'])):
            identical('initial linear constraints', p, q)
        A, lb, ub = D.get_scl_lincon()
        same('scaled linear constraint matrix', A, data['A'] / s, 1e-10)
        x = np.random.default_rng(3).normal(size=len(s))
        t = data['A'] @ x
        same('linear constraint residual', A @ ((x - sh) * s) - lb, t - data['la'], 1e-8, floor=10.)
        same('linear constraint residual', ub - A @ ((x - sh) * s), data['ua'] - t, 1e-8, floor=10.)


def _geom(c, D):
    if c['n'] == 1 or c['method'] is None:
        return
    Z = D.x_scl
    r = [np.linalg.norm(Z[i] - Z[j]) for i in range(c['n']) for j in range(i)]
    t = c['dist'] if c['dist'] is not None else 1
    same('distance between the ' + ('closest' if c['method'] == 'set_vmin' else 'furthest') + ' scaled points',
         min(r) if c['method'] == 'set_vmin' else max(r), t, 1e-9)


def run_C14(c):
    c, rng, D, X, ix, data = _make(c)
    d, n = c['dim'], c['n']
    sh0 = X[ix] if c['shift'] else np.zeros(d)
    same('shift of the coordinates', D.x_shift, sh0, 1e-14)
    _geom(c, D)
    s0 = D.xvec_scale
    if not np.allclose(s0, s0[0]):
        raise Fail('the initial scaling must be the same in every direction')
    if n == 1 or c['method'] is None:
        same('coordinate scale', s0, np.ones(d), 1e-14)
    for w in c['order'][:2]:
        _set(D, c, data, w)
    _expect(c, D, X, ix, data, D.xvec_scale, D.x_shift)
    sc = np.exp(rng.normal(size=d)) if c['given'] in ('scale', 'both') else None
    gs = rng.normal(size=d) if c['given'] in ('shift', 'both') else None
    call('set_xscale_data', D.set_xscale_data, x_shift_in=gs, xvec_scale_in=sc)
    same('given shift', D.x_shift, sh0 if gs is None else gs, 1e-14)
    ratio = D.xvec_scale / (np.ones(d) if sc is None else sc)
    same('given scaling up to a constant factor', ratio, np.full(d, ratio[0]), 1e-10)
    _geom(c, D)
    _expect(c, D, X, ix, data, D.xvec_scale, D.x_shift)
    for w in c['order'][2:]:
        _set(D, c, data, w)
    _expect(c, D, X, ix, data, D.xvec_scale, D.x_shift)
    call('set_xscale_data', D.set_xscale_data)
    same('shift after the default scaling is restored', D.x_shift, sh0, 1e-14)
    same('default scaling restored', D.xvec_scale, s0, 1e-12)
    _geom(c, D)
    _expect(c, D, X, ix, data, D.xvec_scale, D.x_shift)
    # the scaling a GP chooses for its well-conditioning method
    wc = ['rescale_origin', 'rescale_eta_vary', 'dflt_vmin', 'dflt_vmax'][c['seed'] % 4]
    g = new_gp(d, True, 'SqExp', wc, **{'vmin_rescale_eta_vary': 1.7, 'cond_dist_min_dflt': 0.6, 'cond_dist_max_dflt': 2.2})
    if not c['coin']:
        call('set_data', g.set_data, X, data['f'], data['sf'], data['G'], data['sG'])
        t = {'rescale_origin': vreq(n, d), 'rescale_eta_vary': 1.7, 'dflt_vmin': 0.6, 'dflt_vmax': 2.2}[wc]
        _geom(dict(c, method='set_vmax' if wc == 'dflt_vmax' else 'set_vmin', dist=t), g.DataScl)
        if n > 1 and wc.startswith('rescale'):
            for lg in (True, False):
                g.optz_log_hp_theta = lg
                th = 10 ** rng.normal(size=d)
                x1, s1 = g.DataScl.x_scl, g.DataScl.xvec_scale
                out, dist, s2 = call('rescaling_data_w_theta_sol', g.rescaling_data_w_theta_sol, x1, s1, np.log10(th) if lg else th)
                l = np.log10(th)
                same('distance to the line of equal theta', dist, l @ l - l.sum() ** 2 / d, 1e-9, floor=1.0)
                nt = 10 ** out if lg else out
                same('theta in the new coordinates', nt * s2 ** 2 / (th * s1 ** 2), np.ones(d), 1e-9)
                call('set_xscale_data', g.DataScl.set_xscale_data, xvec_scale_in=s2)
                same('new scaling keeps the minimum distance', g.DataScl.xvec_scale, s2, 1e-9)
                _geom(dict(c, method='set_vmin', dist=t), g.DataScl)
    # requests that cannot be honoured are refused
    must_raise('scaling factors that are not positive', lambda: D.set_xscale_data(xvec_scale_in=np.r_[np.ones(d - 1), 0.0]))
    must_raise('scaling factors of the wrong length', lambda: D.set_xscale_data(xvec_scale_in=np.ones(d + 1)))
    must_raise('shift of the wrong length', lambda: D.set_xscale_data(x_shift_in=np.ones(d + 1)))


GEN = dict(C13=_gen, C14=_gen)
RUN = dict(C13=run_C13, C14=run_C14)
