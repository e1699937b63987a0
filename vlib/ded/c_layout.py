"""Contracts of the layout of data vectors and matrices, of the preconditioner and of the mean function."""
from fractions import Fraction

from . import eng, ints, terms, npshim
from .eng import Arr, as_arr
from .ints import IP, ip, sym, Cond, sel
from .terms import Term, T, S, ZERO, ONE, pc, D, delta, power, fresh, mk_sum, subst, tmap
from .prover import Ob, Post, Inputs, make
from .c_kernel import KERNELS, MOD, k_entry, _order, derivative

HALF = Fraction(1, 2)
NE, NG, DIM, N, N1, N2 = sym('ne'), sym('ng'), sym('dim'), sym('n'), sym('n1'), sym('n2')
BASE = 'gpgradpy.src.base.'
EVAL = 'gpgradpy.src.eval.'


def fr(L, c):
    return sym(fresh(L, '~' + c))


def limit0(t):
    """value of a term where all coordinate differences vanish"""
    out = ZERO
    for m, c in t.d.items():
        fac, rest = ONE, []
        for a, e in m:
            if a.kind == 'pow' and 'R[' in a.key and any('R[' not in terms.mkey(k) for k in a.args[0].d):
                fac = fac * power(limit0(a.args[0]), e)
            else:
                rest.append((a, e))
        m = tuple(rest)
        r = _order(m)
        if fac != ONE and (r is None or r[0] < 0):
            raise ints.OutOfReach('limit')
        if r is None or r[0] < 0:
            raise ints.OutOfReach('limit')
        if r[0] == 0:
            if any(a.kind == 's' and a.name == 'R' for a, e in m):
                raise ints.OutOfReach('limit')
            out = out + Term({r[1]: c}) * fac
    return out


def grad_var(kind, th, d):
    """d2k/dx_d dy_d at coinciding points"""
    t = k_entry(kind, ('x', 'y'), (d, d), lambda i, e: S('R', *i), th, lambda i, e: S('α'), DIM, ip(0), ip(0), {})
    return limit0(t)


def obligations():
    out = []
    for kind, (pre, clsname) in KERNELS.items():
        out += _precon(kind, pre, clsname)
    out += _layout() + _mean()
    return out


# ---------------------------------------------------------------- C04: preconditioner
def _precon(kind, pre, clsname):
    out = []
    cls = f'{MOD}{clsname}:{clsname}'

    def th_fn(d):
        return eng._real(as_arr(d['th']))

    def gam(d, x):
        return power(grad_var(kind, th_fn(d), x), HALF)

    def i_th():
        return Inputs().real('th', DIM, pos=True)

    def p_gam(d, o):
        x = fr(DIM, 'd')
        return [Post('gamma_d is the standard deviation of the derivative in d', 'out', (x,), lambda: gam(d, x))]
    out.append(Ob(f'{kind}:theta2gamma', ['C04', 'C23'], [f'{clsname}.{pre}_theta2gamma'], i_th,
                  lambda w, d: {'out': getattr(w.get(cls), f'{pre}_theta2gamma')(d['th'])}, p_gam, shapes={'out': (DIM,)}))

    def p_inv(d, o):
        x = fr(DIM, 'd')
        return [Post('theta2gamma is inverted', 'out', (x,), lambda: th_fn(d)((x,), {}))]
    out.append(Ob(f'{kind}:gamma2theta', ['C04', 'C23'], [f'{clsname}.{pre}_gamma2theta', f'{clsname}.{pre}_theta2gamma'], i_th,
                  lambda w, d: {'out': getattr(w.get(cls), f'{pre}_gamma2theta')(getattr(w.get(cls), f'{pre}_theta2gamma')(d['th']))},
                  p_inv, shapes={'out': (DIM,)}))

    for vec in (True, False):
        def inputs(vec=vec):
            return i_th().int('ne', NE).int('ng', NG).const('vec', vec)

        def run(w, d):
            p, pi, g = getattr(w.get(cls), f'{pre}_Kern_precon')(d['ne'], d['ng'], d['th'], calc_grad=True, b_return_vec=d['vec'])
            return {'p': p, 'pi': pi, 'g': g}
        nd = NE + DIM * NG

        def posts(d, o, vec=vec):
            a, b, x, p, y, q = fr(NE, 'a'), fr(NE, 'b'), fr(DIM, 'd'), fr(NG, 'p'), fr(DIM, 'e'), fr(NG, 'q')

            def dg(x, f):
                return D(gam(d, x), lambda at: delta(at.args[0] - f) if at.name == 'th' else None)
            if vec:
                return [Post('P of a value', 'p', (a,), lambda: ONE),
                        Post('P of a derivative', 'p', (NE + x * NG + p,), lambda: gam(d, x)),
                        Post('1/P of a value', 'pi', (a,), lambda: ONE),
                        Post('1/P of a derivative', 'pi', (NE + x * NG + p,), lambda: power(gam(d, x), -1)),
                        Post('dP of a value', 'g', (a, y), lambda: ZERO),
                        Post('dP of a derivative', 'g', (NE + x * NG + p, y), lambda: dg(x, y))]
            l = []
            for nm, f in (('p', lambda x: gam(d, x)), ('pi', lambda x: power(gam(d, x), -1))):
                l += [Post(f'{nm} values', nm, (a, b), lambda: delta(a - b)),
                      Post(f'{nm} mixed', nm, (a, NE + x * NG + p), lambda: ZERO),
                      Post(f'{nm} mixed transposed', nm, (NE + x * NG + p, a), lambda: ZERO),
                      Post(f'{nm} derivatives', nm, (NE + x * NG + p, NE + y * NG + q), lambda f=f: delta(x - y) * delta(p - q) * f(x))]
            z = fr(DIM, 'f')
            l += [Post('dP values', 'g', (z, a, b), lambda: ZERO),
                  Post('dP mixed', 'g', (z, a, NE + x * NG + p), lambda: ZERO),
                  Post('dP mixed transposed', 'g', (z, NE + x * NG + p, a), lambda: ZERO),
                  Post('dP derivatives', 'g', (z, NE + x * NG + p, NE + y * NG + q), lambda: delta(x - y) * delta(p - q) * dg(x, z))]
            return l
        sh = {'p': (nd,), 'pi': (nd,), 'g': (nd, DIM)} if vec else {'p': (nd, nd), 'pi': (nd, nd), 'g': (DIM, nd, nd)}
        out.append(Ob(f'{kind}:Kern_precon {"vector" if vec else "matrix"}', ['C04'], [f'{clsname}.{pre}_Kern_precon',
                      'KernelCommon.calc_grad_precon_matrix'], inputs, run, posts, shapes=sh))
    return out


# ---------------------------------------------------------------- C23: layout of the data
def _layout():
    out = []
    cf = f'{BASE}CommonFun:CommonFun'

    def i_R():
        return Inputs().real('X', N1, DIM).real('Y', N2, DIM)

    def p_R(d, o):
        X, Y = eng._real(d['X']), eng._real(d['Y'])
        a, b, k = fr(N1, 'a'), fr(N2, 'b'), fr(DIM, 'd')
        return [Post('x_a - y_b per coordinate', 'out', (k, a, b), lambda: X((a, k), {}) - Y((b, k), {}))]
    out.append(Ob('calc_Rtensor', ['C23', 'C01', 'C06'], ['CommonFun.calc_Rtensor'], i_R,
                  lambda w, d: {'out': w.get(cf).calc_Rtensor(d['X'], d['Y'], 1)}, p_R, shapes={'out': (DIM, N1, N2)}))

    def i_dv():
        return Inputs().real('f', NE).real('g', NG, DIM)

    def p_dv(d, o):
        f, g = eng._real(d['f']), eng._real(d['g'])
        a, p, k = fr(NE, 'a'), fr(NG, 'p'), fr(DIM, 'd')
        return [Post('the values come first', 'out', (a,), lambda: f((a,), {})),
                Post('then the derivatives, coordinate by coordinate', 'out', (NE + k * NG + p,), lambda: g((p, k), {}))]
    out.append(Ob('make_data_vec', ['C23', 'C06'], ['CommonFun.make_data_vec'], i_dv,
                  lambda w, d: {'out': w.get(cf).make_data_vec(d['f'], d['g'])}, p_dv, shapes={'out': (NE + DIM * NG,)}))

    def p_dv0(d, o):
        f = eng._real(d['f'])
        a = fr(NE, 'a')
        return [Post('the values', 'out', (a,), lambda: f((a,), {}))]
    out.append(Ob('make_data_vec without derivatives', ['C23', 'C06'], ['CommonFun.make_data_vec'], lambda: Inputs().real('f', NE),
                  lambda w, d: {'out': w.get(cf).make_data_vec(d['f'])}, p_dv0, shapes={'out': (NE,)}))

    # distances
    for nm, kind in (('min', 'min'), ('max', 'max')):
        def i_x():
            return Inputs().real('X', N, DIM).assume(Cond('>=', N - 2))

        def p_d(d, o, kind=kind):
            X = eng._real(d['X'])

            def spec():
                def dist(i, e):
                    b = fresh(DIM)
                    t = power(mk_sum((X((i[0], sym(b)), e) - X((i[1], sym(b)), e)) ** 2, b), HALF)
                    return t + delta(i[0] - i[1]) * npshim.NAN if kind == 'min' else t
                return npshim._extreme(kind, Arr((N, N), dist)).fn((), {})
            return [Post(f'{kind} distance over pairs of different points' if kind == 'min' else 'max distance', 'out', (), spec)]
        out.append(Ob(f'calc_dist_{nm}', ['C23'], [f'CommonFun.calc_dist_{nm}'], i_x,
                      lambda w, d, nm=nm: {'out': getattr(w.get(cf), f'calc_dist_{nm}')(d['X'])}, p_d))
        out.append(Ob(f'calc_dist_{nm} one point', ['C23'], [f'CommonFun.calc_dist_{nm}'], lambda: Inputs().real('X', 1, DIM),
                      lambda w, d, nm=nm: {'out': getattr(w.get(cf), f'calc_dist_{nm}')(d['X'])},
                      lambda d, o: [Post('no distance', 'out', (), lambda: npshim.NAN)], conformable=False))
    return out


# ---------------------------------------------------------------- C23: mean function
def _mean():
    out = []
    mf = f'{EVAL}GpMeanFun:GpMeanFun'
    for masks in ((), ('g',), ('g', 'h')):
        def inputs(masks=masks):
            i = Inputs().real('x', N, DIM).real('beta', 1).int('dim', DIM)
            if 'g' in masks:
                i.mask('mg', N, 'kg')
            if 'h' in masks:
                i.mask('mh', N, 'kh')
            return i

        def run(w, d, masks=masks):
            o = make(w.get(mf), dim=d['dim'])
            o.set_mean_fun_op('poly_ord_0')
            f, g, h = o.eval_mean_fun(d['x'], d['beta'], bvec_use_grad=d.get('mg'), bvec_use_hess=d.get('mh'), calc_grad=True, calc_hess=True)
            return {'f': f, 'g': g, 'h': h}
        kg, kh = (sym('kg') if 'g' in masks else N), (sym('kh') if 'h' in masks else N)

        def posts(d, o, kg=kg, kh=kh):
            b = eng._real(d['beta'])
            a, p, q, i, j = fr(N, 'a'), fr(kg, 'p'), fr(kh, 'q'), fr(DIM, 'i'), fr(DIM, 'j')
            return [Post('constant mean', 'f', (a,), lambda: b((ip(0),), {})),
                    Post('its gradient', 'g', (p, i), lambda: ZERO),
                    Post('its Hessian', 'h', (q, i, j), lambda: ZERO)]
        out.append(Ob(f'eval_mean_fun {masks}', ['C23', 'C06'], ['GpMeanFun.eval_mean_fun', 'GpMeanFunPoly.eval_mean_fun_poly', 'GpMeanFunPoly.calc_vand',
                      'GpMeanFun.set_mean_fun_op'], inputs, run, posts, shapes={'f': (N,), 'g': (kg, DIM), 'h': (kh, DIM, DIM)}))

    for mode in ('base', 'grad', 'mask'):
        def inputs(mode=mode):
            i = Inputs().real('x', N, DIM).int('dim', DIM)
            if mode == 'mask':
                i.mask('mg', N, 'kg')
            return i

        def run(w, d, mode=mode):
            o = make(w.get(mf), dim=d['dim'], use_grad=mode != 'base', bvec_use_grad=d.get('mg'))
            o.set_mean_fun_op('poly_ord_0')
            return {'v': o.calc_aug_vand(d['x'], d.get('mg'))}
        kg = {'base': ip(0), 'grad': N, 'mask': sym('kg')}[mode]

        def posts(d, o, kg=kg):
            a = fr(N, 'a')
            l = [Post('constant: 1 for a value', 'v', (a, ip(0)), lambda: ONE)]
            if kg.d:
                p, i = fr(kg, 'p'), fr(DIM, 'i')
                l.append(Post('0 for a derivative', 'v', (N + i * kg + p, ip(0)), lambda: ZERO))
            return l
        out.append(Ob(f'calc_aug_vand {mode}', ['C23', 'C06', 'C08'], ['GpMeanFunPoly.calc_aug_vand', 'GpMeanFunPoly.calc_vand'], inputs, run, posts,
                      shapes={'v': (N + DIM * kg, ip(1))}))
    return out
