"""C21: relations between two evaluations of the real code. What the symmetries of the covariance matrix mean for the
likelihood and the posterior is proved on the closed forms of the other contracts (lean/Symmetry.lean)."""
from fractions import Fraction

from . import eng, ints, terms, npshim
from .eng import Arr, as_arr, RealCond
from .ints import IP, ip, sym, Cond
from .terms import Term, T, S, ZERO, ONE, pc, power, log, fresh, mk_sum
from .prover import Ob, Post, Inputs, make
from .c_layout import fr
from .c_kernel import KERNELS, MOD, N1, N2, k_entry, at_zero, _argfn, _setup_anti
from .c_cov import callee, same, KERN, PDEF, flag, hp
from .c_eval import _world, divcols, k_, dk_, refused, SOLVE, HPV
from . import c_eval, c_lkd, c_scale

HALF = Fraction(1, 2)
NE, NG, DIM = sym('ne'), sym('ng'), sym('dim')
N = NE + DIM * NG
ONCE = 'the relation of the closed forms is in lean/Symmetry.lean'


def less(w, **pairs):
    """differences, and for real numbers what they are small compared to"""
    if w.sym:
        return {k: as_arr(x) - as_arr(y) for k, (x, y) in pairs.items()}
    f = lambda x: w.np.asarray(x, dtype=float)
    return {**{k: f(x) - f(y) for k, (x, y) in pairs.items()}, **{k + ' of': abs(f(x)) + abs(f(y)) for k, (x, y) in pairs.items()}}


def zero(label, out, *dims):
    return Post(label, out, tuple(fr(x, c) for x, c in zip(dims, 'abcd')), lambda: ZERO)


# ---------------------------------------------------------------- coordinates
def shifted():
    def inputs():
        return Inputs().real('X', N1, DIM).real('Y', N2, DIM).real('c', DIM)

    def run(w, d):
        f = w.get('gpgradpy.src.base.CommonFun:CommonFun').calc_Rtensor
        return less(w, r=(f(d['X'] + d['c'][None, :], d['Y'] + d['c'][None, :], 1), f(d['X'], d['Y'], 1)))
    return [Ob('calc_Rtensor of shifted points', ['C21'], ['CommonFun.calc_Rtensor'], inputs, run, lambda d, o: [zero('the same differences', 'r', DIM, N1, N2)],
               shapes=dict(r=(DIM, N1, N2)))]


def units():
    return [_units(kind, pre, cls, mod) for kind, (pre, cls) in KERNELS.items() for mod in (True, False)]


def _units(kind, pre, clsname, mod):
    """coordinates x_d c_d and theta_d / c_d^2: derivatives are divided by c"""
    cls = clsname + ('GradMod' if mod else 'Grad')
    g1, g2 = (sym('g1'), sym('g2')) if mod else (N1, N2)

    def inputs():
        _setup_anti(False)
        i = Inputs().real('R', DIM, N1, N2).real('th', DIM, pos=True).real('c', DIM, pos=True)
        i.real('al', pos=True) if kind == 'RatQu' else i.const('al', None)
        return i.mask('m1', N1, 'g1').mask('m2', N2, 'g2') if mod else i

    def run(w, d):
        f = getattr(w.get(f'{MOD}{clsname}:{cls}'), f'{pre}_calc_KernGrad')
        return {'out': f(d['R'] * d['c'][:, None, None], d['th'] / d['c'] ** 2, d['al'], *((d['m1'], d['m2']) if mod else ()))}

    def posts(d, o):
        fR, ft, fa, sh = _argfn(d)
        a, b, i, j, p, q = fr(N1, 'a'), fr(N2, 'b'), fr(DIM, 'i'), fr(DIM, 'j'), fr(g1, 'p'), fr(g2, 'q')
        sp, sq = (ints.sel('m1', p), ints.sel('m2', q)) if mod else (p, q)

        def K(what, idx, x, y):
            def f():
                t = k_entry(kind, what, idx, fR, ft, fa, DIM, x, y, {})
                for k in idx:
                    t = t * power(S('c', k), -1)
                return t
            return f
        return [Post('k', 'out', (a, b), K((), (), a, b)), Post('dk/dx_i', 'out', (N1 + i * g1 + p, b), K(('x',), (i,), sp, b)),
                Post('dk/dy_j', 'out', (a, N2 + j * g2 + q), K(('y',), (j,), a, sq)),
                Post('d2k/dx_i dy_j', 'out', (N1 + i * g1 + p, N2 + j * g2 + q), K(('x', 'y'), (i, j), sp, sq))]
    return Ob(f'{kind}:{cls}.calc_KernGrad in other units', ['C21'], [f'{cls}.{pre}_calc_KernGrad'], inputs, run, posts,
              shapes=dict(out=(N1 + DIM * g1, N2 + DIM * g2)), atzero=at_zero if kind == 'Ma5f2' else None, conformable=False)


# ---------------------------------------------------------------- all gradients selected
def masks():
    out = []
    for kind, (pre, cls) in KERNELS.items():
        for meth in ('calc_KernGrad', 'calc_KernGrad_grad_x', 'calc_KernGrad_grad_th') + (('calc_KernGrad_grad_alpha',) if kind == 'RatQu' else ()):
            out.append(_mask(kind, pre, cls, meth))
    return out


def _mask(kind, pre, clsname, meth):
    one = meth.endswith(('_th', '_alpha'))
    n2 = N1 if one else N2

    def inputs():
        _setup_anti(one)
        i = Inputs().real('R', DIM, N1, n2, anti=one).real('th', DIM, pos=True)
        i.real('al', pos=True) if kind == 'RatQu' else i.const('al', None)
        return i.mask('m1', N1, N1).mask('m2', n2, n2)

    def run(w, d):
        f = getattr(w.get(f'{MOD}{clsname}:{clsname}GradMod'), f'{pre}_{meth}')
        k = (d['m1'], d['m2']) if meth == 'calc_KernGrad' else (d['m1'],) if one else (d['m2'],)
        return less(w, r=(f(d['R'], d['th'], d['al'], *k), f(d['R'], d['th'], d['al'], *(None for m in k))))
    rows = N1 * (DIM + 1)
    sh = dict(calc_KernGrad=(rows, N2 * (DIM + 1)), calc_KernGrad_grad_x=(DIM, DIM * N1, N2 * (DIM + 1)),
              calc_KernGrad_grad_th=(DIM, rows, rows), calc_KernGrad_grad_alpha=(ip(1), rows, rows))[meth]

    def posts(d, o):
        l = []
        for x in (0, 1):
            for y in (0, 1):
                def at(v, n, t, c):
                    return n + fr(DIM, 'k' + c) * n + fr(n, c) if v else fr(n, c)
                r, c = at(x, N1, '', 'a'), at(y, n2, '', 'b')
                if meth == 'calc_KernGrad_grad_x':
                    r = fr(DIM, 'i') * N1 + fr(N1, 'a')
                l.append(Post(f'the same as without a mask {x}{y}', 'r', {2: (r, c), 3: (fr(sh[0], 'h'), r, c)}[len(sh)], lambda: ZERO))
        return l
    return Ob(f'{kind}:{clsname}GradMod.{meth} all gradients selected', ['C21'], [f'{clsname}GradMod.{pre}_{meth}'], inputs, run, posts, shapes=dict(r=sh),
              atzero=at_zero if kind == 'Ma5f2' else None, conformable=False, limit=150)


# ---------------------------------------------------------------- covariance matrix
def congruent():
    return [_congruent(mtd, what, norm) for mtd, what in (('precon', 'units'), ('precon', 'function'), ('base', 'function')) for norm in (False, True)]


def _congruent(mtd, what, norm):
    """units: D K D and noise D^2 w for a diagonal D. function: variances times s^2."""
    n = N

    def inputs():
        i = Inputs().spd('K', n).real('c', n, pos=True).real('s', pos=True).real('w', n, pos=True).real('R', DIM, NE, NE).real('th', DIM, pos=True)
        i.real('vK', pos=True).real('eta', pos=True).real('big', pos=True).real('al', pos=True)
        return i.mask('mg', NE, 'ng')

    def run(w, d):
        terms.POS.add('K:diag')
        res = []
        for two in (False, True):
            c = d['c'] if two and what == 'units' else None
            s2 = d['s'] ** 2 if two and what == 'function' else 1
            k = hp(w, d, varK=d['vK'] * s2)
            K = d['K'] * c[:, None] * c[None, :] if c is not None else d['K'] * 1
            v = d['w'] * c ** 2 if c is not None else d['w'] * s2
            o = make(w.get(KERN), use_grad=True, bvec_use_grad=d['mg'], calc_Kern=lambda *a, **k: K.copy(), wellcond_mtd=mtd, cond_eta_is_const=True,
                     _etaK=d['eta'], cond_norm=2, cond_max=d['big'] * 3, cond_max_abs=d['big'] * 3, _time_chofac=0, b_has_noisy_data=True,
                     calc_noise_vec=lambda *a, **k: v.copy(), n_data=d['w'].size)
            r = o.calc_all_K_w_chofac(d['R'], k, calc_cond=mtd == 'precon' and what == 'units', b_normlz_w_varK=norm)
            res.append(r)
        x, y = res
        c = d['c'][:, None] * d['c'][None, :] if what == 'units' else d['s'] ** 2 if not norm else 1
        return less(w, Kcov=(y[2], x[2] * c), eta=(y[5], x[5]), **{k: (y[i], x[i]) for k, i in (('Kcor', 1), ('cond', 4)) if x[i] is not None})

    def posts(d, o):
        l = [zero('covariance matrix', 'Kcov', n, n), zero('nugget', 'eta')]
        if mtd == 'precon':
            l.append(zero('correlation matrix', 'Kcor', n, n))
        if mtd == 'precon' and what == 'units':
            l.append(zero('condition number', 'cond'))
        return l
    return Ob(f'calc_all_K_w_chofac {mtd} {what}{" normalised" if norm else ""}', ['C21'], ['Kernel.calc_all_K_w_chofac'], inputs, run, posts,
              shapes=dict(Kcov=(n, n)), trusts=[PDEF], partial=True, conformable=False)


# ---------------------------------------------------------------- likelihood
def likelihood():
    return [_likelihood(noise, what, adj) for noise in (True, False) for what in ('shift', 'scale') for adj in (True, False) if not (noise and what == 'scale')]


def _likelihood(noise, what, adj):
    n = c_lkd.N
    low = T(Fraction(1, 10 ** 32))

    def inputs():
        return c_lkd._in(False, True).real('c', pos=True).real('f', c_lkd.NE)

    def run(w, d):
        l, b, g, v = [], [], [], []
        for two in (False, True):
            e = dict(d)
            if two:
                e['y'] = d['y'] + d['c'] * d['V'][:, 0] if what == 'shift' else d['y'] * d['c']
            o = c_lkd._obj(w, e, lkd_use_adj_mtd=adj, lkd_varK_pnlt_use=False)
            o.get_scl_eval_data = lambda *a, **k: (d['f'], None, None, None)
            r = o.calc_lkd_all_w_noise(None, d['K'], d['dK']) if noise else o.calc_lkd_all_wo_noise(None, d['K'], d['dK'])
            l.append(r.ln_lkd), b.append(r.hp_beta), g.append(r.ln_lkd_grad), v.append(r.hp_varK)
        c = d['c']
        return less(w, b=(b[1], b[0] + c if what == 'shift' else b[0] * c), l=(l[1], l[0]), g=(g[1], g[0]),
                    **({} if noise else dict(v=(v[1], v[0] * (1 if what == 'shift' else c ** 2)))))

    def posts(d, o):
        s0 = c_lkd.rss() * power(T(n), -1)
        pre = () if noise else (RealCond('>', s0 - low), RealCond('>', s0 * S('c') ** 2 - low)) if what == 'scale' else (RealCond('>', s0 - low),)

        def z(label, out, *idx, spec=lambda: ZERO):
            return Post(label, out, idx, spec, pre)
        l = [z('mean coefficient', 'b', ip(0)), z('gradient of the likelihood', 'g', fr(c_lkd.NH, 'h')),
             z('likelihood', 'l', spec=lambda: ZERO if what == 'shift' else -T(n) * log(S('c')))]
        return l if noise else l + [z('variance', 'v')]
    return Ob(f'likelihood {"with" if noise else "without"} noise, function {what}{" adjoint" if adj else ""}', ['C21'],
              ['calcLkdWNoise.calc_lkd_all_w_noise'] if noise else ['calcLkdWoNoise.calc_lkd_all_wo_noise'], inputs, run, posts,
              shapes=dict(b=(ip(1),), g=(c_lkd.NH,)), trusts=[c_lkd.JACOBI], partial=True, conformable=False)


# ---------------------------------------------------------------- predictions
def predictions():
    return [_prediction(grads, what) for grads in (True, False) for what in ('grad', 'hess')]


def _prediction(grads, what):
    """function s f + c: mean coefficient s beta + c, weights s alpha, variance s^2 varK"""
    build, n, nx = c_eval._inputs(grads, what, False)
    ch = what == 'hess'
    names = ['mu', 'sig', 'dmu', 'dsig', 'd2mu', 'd2sig'][:6 if ch else 4]

    def inputs():
        return build().real('s', pos=True).real('c')

    def run(w, d):
        res = []
        for two in (False, True):
            e = dict(d, be=d['be'] * d['s'] + d['c'], al=d['al'] * d['s'], vK=d['vK'] * d['s'] ** 2) if two else d
            o = _world(w, e, grads, n, nx, True, ch, False)
            res.append(o.eval_model(d['x'], calc_grad=True, calc_hess=ch))
        return less(w, **{nm: (y, x * d['s'] + (d['c'] if nm == 'mu' else 0)) for nm, x, y in zip(names, *res)})

    def posts(d, o):
        l = []
        for nm in names:
            j = ip(0) if nx.const() == 1 else fr(nx, 'j')
            pre = (RealCond('>', ONE - c_eval.quad(n, lambda i: k_(i, j), lambda i: k_(i, j))),) if 'sig' in nm and 'd' in nm else ()
            l.append(Post(nm, nm, (j,) + tuple(fr(DIM, 'ab'[k]) for k in range(0 if nm in ('mu', 'sig') else 2 if '2' in nm else 1)), lambda: ZERO, pre))
        return l
    return Ob(f'eval_model {what}{"" if grads else " without gradients"}, function scaled and shifted', ['C21'], ['GpEvalModel.eval_model'], inputs, run, posts,
              trusts=[SOLVE], partial=True, raises=refused, conformable=False)


# ---------------------------------------------------------------- rescaled data
def rescaled():
    return [_rescaled(what, mtd, k) for k, (what, mtd) in enumerate((w, m) for w in ('function', 'points') for m in ('set_vmin', 'set_vmax', None))
            if not (what == 'points' and mtd is None)]


def _rescaled(what, mtd, k):
    """function s f + c, or points q x + t: the scaled data is the same"""
    n, m, low = c_scale.N, c_scale.M, T(Fraction(1, 10 ** 14))

    def inputs():
        i = Inputs().real('x', n, DIM).real('f', n).real('sf', n).real('g', n, DIM).real('sg', n, DIM).real('s', pos=True).real('c').real('q', pos=True).real('t', DIM)
        return i.real('lb', DIM).real('ub', DIM).real('z', NE, DIM).assume(Cond('>=', n - 2))

    def run(w, d):
        res = []
        for two in (False, True):
            x, f, sf, g, sg = (d[v] for v in ('x', 'f', 'sf', 'g', 'sg'))
            z, lb, ub = d['z'], d['lb'], d['ub']
            if two and what == 'function':
                f, sf, g, sg = f * d['s'] + d['c'], sf * d['s'], g * d['s'], sg * d['s']
            elif two:
                x, z, lb, ub = (y * d['q'] + (d['t'][None, :] if y.ndim == 2 else d['t']) for y in (x, z, lb, ub))
                g, sg = g / d['q'], sg / d['q']
            o = w.get(c_scale.RS)(x, x_scl_method=mtd, dist_set=2 if k % 2 else None)
            o.set_obj_data(f, sf, g, sg)
            o.set_boxcon(lb, ub)
            r = [*o.get_scl_obj_data(), *o.get_scl_x_w_dist(), o.x_init_2_scl(z), *o.get_scl_boxcon()]
            # a prediction in the scaled coordinates, in the units of the data
            r += list(o.obj_scl_2_init(d['f'], d['sf'], d['g'], d['sg']))[:4]
            res.append(r)
        a, b = res
        back = [d['s'], d['s'], d['s'], d['s']] if what == 'function' else [1, 1, 1 / d['q'], 1 / d['q']]
        want = a[:9] + [v * y + (d['c'] if what == 'function' and j == 0 else 0) for j, (v, y) in enumerate(zip(a[9:], back))]
        return less(w, **dict(zip(NAMES, zip(b, want))))

    def posts(d, o):
        v = npshim._extreme('max', d['f']).fn((), {}) - npshim._extreme('min', d['f']).fn((), {}) if isinstance(d['f'], Arr) else ONE
        tol = T(Fraction(1, 10 ** 20))
        pre = [RealCond('>', v - tol), RealCond('>', v * S('s') - tol)]
        if mtd is not None:
            e = c_scale.mindist(n, lambda a, b: S('x', a, b), 'min' if mtd == 'set_vmin' else 'max')
            pre += [RealCond('>', e - low), RealCond('>', e * S('q') - low)]
        i, j, a, p, b = fr(n, 'i'), fr(n, 'j'), fr(DIM, 'a'), fr(DIM, 'p'), fr(NE, 'b')
        idx = dict(zip(NAMES, ((i,), (i,), (i, p), (i, p), (i, p), (p, i, j), (b, p), (p,), (p,), (i,), (i,), (i, p), (i, p))))
        return [Post(f'the same: {nm}', nm, ix, lambda: ZERO, tuple(pre)) for nm, ix in idx.items()]
    return Ob(f'Rescaling {mtd or "no method"}, other units of the {what}', ['C21'], ['Rescaling.__init__', 'Rescaling.set_obj_data', 'RescalingObjData._calc_obj_scaling',
              'RescalingXdata._calc_x_shift_n_scale', 'RescalingXdata._calc_x2_isoscaling'], inputs, run, posts, conformable=False)


NAMES = ('values', 'deviations', 'gradients', 'gdeviations', 'points', 'differences', 'others', 'lower', 'upper', 'mu', 'sig', 'dmu', 'dsig')


def obligations():
    return rescaled() + shifted() + units() + masks() + congruent() + likelihood() + predictions()
